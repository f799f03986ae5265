package zzverif

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"os"
	"strings"
)

// Logging. There is one logger, which writes to the last handler made.
var (
	logTo    io.Writer
	logLevel slog.Level
)

func logReset() { logTo, logLevel = nil, slog.LevelInfo }

func setLog(w io.Writer, o *slog.HandlerOptions) {
	logReset()
	logTo = w
	if o != nil && o.Level != nil {
		if l, ok := o.Level.(slog.Level); ok {
			logLevel = l
		}
	}
}

func logLine(l slog.Level, msg string, args []any) {
	if l < logLevel {
		return
	}
	s := "level=" + levelName(l) + " msg=" + msg
	for i, a := range args {
		if i%2 == 0 {
			s += " " + fmt.Sprint(a) + "="
		} else {
			s += fmt.Sprint(a)
		}
	}
	w := logTo
	if w == nil {
		w = os.Stderr
	}
	io.WriteString(w, strings.ReplaceAll(s, "\n", "\\n")+"\n")
}

func levelName(l slog.Level) string {
	switch {
	case l < slog.LevelInfo:
		return "DEBUG"
	case l < slog.LevelWarn:
		return "INFO"
	case l < slog.LevelError:
		return "WARN"
	}
	return "ERROR"
}

// model: log/slog.NewTextHandler
func mNewTextHandler(w io.Writer, o *slog.HandlerOptions) *slog.TextHandler {
	setLog(w, o)
	return new(slog.TextHandler)
}

// model: log/slog.NewJSONHandler
func mNewJSONHandler(w io.Writer, o *slog.HandlerOptions) *slog.JSONHandler {
	setLog(w, o)
	return new(slog.JSONHandler)
}

// model: (*log/slog.Logger).Debug
func mLogDebug(l *slog.Logger, msg string, args ...any) { logLine(slog.LevelDebug, msg, args) }

// model: (*log/slog.Logger).Info
func mLogInfo(l *slog.Logger, msg string, args ...any) { logLine(slog.LevelInfo, msg, args) }

// model: (*log/slog.Logger).Warn
func mLogWarn(l *slog.Logger, msg string, args ...any) { logLine(slog.LevelWarn, msg, args) }

// model: (*log/slog.Logger).Error
func mLogError(l *slog.Logger, msg string, args ...any) { logLine(slog.LevelError, msg, args) }

// model: (*log/slog.Logger).Log
func mLogLog(l *slog.Logger, ctx context.Context, v slog.Level, msg string, args ...any) {
	logLine(v, msg, args)
}

// model: (*log/slog.Logger).Enabled
func mLogEnabled(l *slog.Logger, ctx context.Context, v slog.Level) bool { return v >= logLevel }

// model: log/slog.Debug
func mSlogDebug(msg string, args ...any) { logLine(slog.LevelDebug, msg, args) }

// model: log/slog.Info
func mSlogInfo(msg string, args ...any) { logLine(slog.LevelInfo, msg, args) }

// model: log/slog.Warn
func mSlogWarn(msg string, args ...any) { logLine(slog.LevelWarn, msg, args) }

// model: log/slog.Error
func mSlogError(msg string, args ...any) { logLine(slog.LevelError, msg, args) }

// model: log.Print
func mLogPrint(a ...any) { fmt.Fprintln(os.Stderr, strings.TrimSuffix(fmt.Sprint(a...), "\n")) }

// model: log.Println
func mLogPrintln(a ...any) { fmt.Fprintln(os.Stderr, a...) }

// model: log.Printf
func mLogPrintf(f string, a ...any) { mLogPrint(fmt.Sprintf(f, a...)) }

// model: log.Fatal
func mLogFatal(a ...any) { mLogPrint(a...); os.Exit(1) }

// model: log.Fatalln
func mLogFatalln(a ...any) { mLogPrintln(a...); os.Exit(1) }

// model: log.Fatalf
func mLogFatalf(f string, a ...any) { mLogPrintf(f, a...); os.Exit(1) }

// model: log.Panic
func mLogPanic(a ...any) { mLogPrint(a...); panic(fmt.Sprint(a...)) }

// model: log.Panicf
func mLogPanicf(f string, a ...any) { mLogPrintf(f, a...); panic(fmt.Sprintf(f, a...)) }
