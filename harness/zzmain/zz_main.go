package main

import (
	"os"
	"path/filepath"

	"github.com/sinclairtarget/git-who/internal/zzverif"
)

func init() {
	zzverif.MainFunc = main
	if os.Getenv("ZZVERIF_GIT") != "" && filepath.Base(os.Args[0]) == "git" {
		zzverif.FakeGit()
	}
	if os.Getenv("ZZVERIF_MODE") == "harness" {
		zzverif.MainFunc = main
		zzverif.Native()
	}
}
