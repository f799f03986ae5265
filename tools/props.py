#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Properties whose id appears in a
harness directive ("// h: property=Cnn") are claimed; others are not_applicable."""
import json, os, re, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, note=""):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note))

STD = "stdout, stderr and exit status of git-who; the git invocations it makes"

prop("C01", "What git prints is read back exactly",
     "For every commit git reports, the commit git-who works with has exactly git's hash, short hash, author name, author email, author date, merge status and list of changed files with their added and removed line counts. Nothing in those fields changes how they are read: names and paths may contain any bytes git can print (spaces, newlines, tabs, quotes, non-UTF-8, text that looks like a hash or a count), files may be binary or renamed, and a commit may have no files at all. Commits dated in the future or without any author identity are left out.",
     ["inputs"], "every byte value in names, emails and paths (any position), every count and date, binary files, renames (also to and from names that look like hashes), commits with and without files, merges",
     "The parser tests feed a few hand-written records; the format is NUL-separated without an end marker, so whether a field can be mistaken for another depends on every possible byte string.",
     ["internal/git/parse.go", "internal/git/cmd/subprocess.go", "internal/git/cmd/cmd.go"],
     [("parser of git log output", "internal/git/parse.go"), ("splitter of NUL-delimited output", "internal/git/cmd/subprocess.go")],
     ["git-who parse / git-who dump output", STD])

prop("C02", "Results do not depend on how git's output is split into reads",
     "The commits and files git-who reports are the same however the operating system splits git's output into chunks, including a split inside a field, on a separator, or before the last byte, and for output larger than any internal buffer.",
     ["inputs", "schedules"], "every position at which the stream can be cut, read sizes from one byte up, output shorter and longer than the read buffer",
     "Unit tests read complete strings; chunk boundaries come from the kernel and the timing of two processes.",
     ["internal/git/cmd/subprocess.go", "internal/git/parse.go"],
     [("splitter of NUL-delimited output", "internal/git/cmd/subprocess.go")], [STD])

prop("C03", "A failed or malformed git run is an error, never a partial result",
     "If any git process git-who relies on fails, or git's output cannot be read or understood, then table, tree and hist print no result, say so on stderr and exit with a non-zero status. A partial tally is never presented as if it were complete, and the program neither panics nor hangs. What git writes to stderr when it succeeds, however much, is no failure and changes nothing.",
     ["fault_sequences", "inputs"], "every git invocation of every subcommand, each exit status, any prefix of its output delivered before it fails, malformed fields anywhere in the output",
     "Tests run against a git that works; a failing subprocess late in a run is never exercised.",
     ["internal/git/git.go", "internal/git/cmd/subprocess.go", "internal/git/parse.go", "internal/subcommands/table.go", "internal/subcommands/tree.go", "internal/subcommands/hist.go", "internal/concurrent/worker.go"],
     [("finish functions of commit iterators", "internal/git/git.go"), ("worker errors", "internal/concurrent/worker.go"), ("process exit status", "internal/git/cmd/subprocess.go")], [STD])

prop("C04", "Table totals are exact for every author",
     "For every author in the selected history the table reports exactly the number of that author's commits, the sums of added and removed lines over their changes, the number of distinct files they changed, and the times of their earliest and latest commits. Every contributing author appears exactly once (keyed by name, or by email with -e), whatever the order of commits, and binary files count as files with zero lines.",
     ["histories", "inputs"], "histories of several commits by up to three authors in any order, any line counts, any dates, overlapping and renamed files, authors sharing a name or an email",
     "Tests check a few fixed histories; the sums, distinct counts and minima must hold for every combination.",
     ["internal/tally/tally.go", "internal/subcommands/table.go"],
     [("tally of commits by author", "internal/tally/tally.go"), ("CSV and table output", "internal/subcommands/table.go")], ["git-who table --csv output", STD],
     [("per-author tally", "commits, lines, distinct files, first and last time", "internal/tally/tally.go")])

prop("C05", "Merge commits count only when asked for",
     "Without --merges a merge commit adds nothing to any author in table, tree or hist; with --merges it adds one commit to its author and moves their first and last commit times, but never adds lines or files. This holds in every ranking mode and for every shape of history, and non-merge commits are unaffected by the flag.",
     ["histories", "configurations"], "which commits are merges, their authors and dates, with and without files in git's output, every ranking mode of every subcommand, with and without --merges",
     "The existing tests cover one merge in one mode of one subcommand.",
     ["internal/tally/tally.go", "internal/tally/bucket.go", "internal/git/parse.go"],
     [("merge filter in tallies", "internal/tally/tally.go"), ("merge filter in time buckets", "internal/tally/bucket.go")], [STD])

prop("C06", "Rows are ranked by the chosen metric and the limit keeps the best",
     "Table rows are in descending order of the chosen metric: commits, lines added plus removed, files, latest commit, or (with -c) earliest commit first; equal rows are ordered by latest commit, so that the order is always determined. With -n N exactly the first N rows of the full ranking are shown, followed by the number of rows left out; -n 0 shows all rows and the default is 10.",
     ["inputs", "configurations"], "all metric values of three or more authors, all ties, every ranking mode, every limit from 0 to past the number of authors",
     "Ordering must be right for every combination of values and ties; tests fix one example per mode.",
     ["internal/tally/tally.go", "internal/subcommands/table.go"],
     [("ranking", "internal/tally/tally.go"), ("limit", "internal/subcommands/table.go")], ["git-who table and table --csv output", STD])

prop("C07", "Each tree entry shows the author who leads that file or directory",
     "Every file and directory that tree prints is annotated with the author who leads it under the chosen metric, and that author's exact value, counting each commit once per directory however many files below it the commit touched. A directory's numbers are those of all paths below it. Run in a subdirectory, or in one reached through a symbolic link, only paths below it are counted, and paths of siblings whose names merely start with the same text are not.",
     ["histories", "inputs"], "which commits touch which paths, any line counts, every ranking mode, name or email keys, with and without -a, every working directory",
     "Tests check two small trees; the roll-up must be right for every combination of paths, authors and counts.",
     ["internal/tally/tree.go", "internal/tally/tally.go", "internal/subcommands/tree.go"],
     [("tree of tallies and roll-up", "internal/tally/tree.go"), ("combination of per-path tallies", "internal/tally/tally.go")], ["git-who tree output", STD])

prop("C08", "The tree shows every path once, in order, properly nested",
     "tree prints each path of the working tree that the selected commits touched exactly once, below its directory, directories before files and each group in alphabetical order, with connectors that match the nesting; chains of single-child directories are joined into one line. Paths no longer in the working tree appear only with -a, -d N hides everything deeper than N levels, and annotations line up in one column.",
     ["histories", "configurations"], "every subset of a set of paths up to four levels deep, every choice of paths missing from the working tree, every depth limit, with and without -a",
     "Layout depends on the combination of siblings, hidden entries and depth; tests draw only a few.",
     ["internal/subcommands/tree.go", "internal/tally/tree.go"],
     [("tree printing", "internal/subcommands/tree.go")], ["git-who tree output", STD])

prop("C09", "The timeline is contiguous, complete and always ends",
     "hist prints one line for every day, month or year from the period of the first commit to the end of the range, none missing and none repeated, and every selected commit is counted in the period its date falls in. The range ends today when neither a revision nor --until is given, and otherwise at the last commit; the period is a day for ranges up to 60 days, a month up to five years, and a year beyond. This holds in every time zone, including across clock changes, and the program always terminates.",
     ["inputs", "configurations"], "any commit dates and gaps, every resolution and its thresholds, end at the last commit or now, time zones whose clock changes skip or repeat midnight or a whole day",
     "Period arithmetic depends on calendars, time zones and clock changes that the tests, run in one zone, do not meet.",
     ["internal/tally/bucket.go", "internal/subcommands/hist.go", "internal/concurrent/concurrent.go"],
     [("time buckets", "internal/tally/bucket.go"), ("end of the range", "internal/subcommands/hist.go")], ["git-who hist output", STD],
     [("time series", "one bucket per period", "internal/tally/bucket.go")])

prop("C10", "Each period shows its leading author with bars in proportion",
     "In every period hist names an author with the largest value of the chosen metric in that period and prints that value; the bar for the leader and the bar for the period's total have lengths proportional to their values, on one scale for all periods, never exceed the width, and are at least one character for a non-zero value. A period without contributions has no bar and no name. (With names, a leader who is also that of the previous period with contributions is dimmed, and no other.)",
     ["histories", "inputs"], "any counts per author and period, ties, empty periods, totals far above the bar width, by commits, lines and files, name and email keys",
     "Bars and winners come from per-period maxima and a global scale; tests check neither ties nor scaling.",
     ["internal/subcommands/hist.go", "internal/tally/bucket.go"],
     [("bars", "internal/subcommands/hist.go"), ("per-period ranking", "internal/tally/bucket.go")], ["git-who hist output", STD])

prop("C11", "Parallel and sequential runs give the same result",
     "The result of table, tree and hist is the same whether the history is processed sequentially or split among any number of workers, whatever the number of CPUs, and however the workers, the cache writer and git are interleaved. They share no memory without synchronization: no two of them access a variable, an element or a map, one of them writing, unordered.",
     ["schedules", "histories"], "histories that span several units of work, one to three workers, every interleaving of the goroutines within a bound on deviations from the default schedule",
     "Tests have histories smaller than one unit of work, and cannot control the scheduler.",
     ["internal/concurrent/concurrent.go", "internal/concurrent/worker.go", "internal/concurrent/cache.go", "internal/tally/tally.go", "internal/tally/bucket.go"],
     [("fan-out and fan-in", "internal/concurrent/concurrent.go"), ("workers", "internal/concurrent/worker.go"), ("combination of partial results", "internal/tally/tally.go")], [STD])

prop("C12", "A failure in any worker is reported under every schedule",
     "When the git process of any worker fails, or its output is malformed, or the cache cannot be written, a parallel run ends with an error or (for the cache) the complete result, under every interleaving: it never prints a partial result, deadlocks, panics, or exits successfully without the failed part, and nothing it still runs at the end accesses memory another part writes to unordered.",
     ["schedules", "fault_sequences"], "which worker or unit of work fails and how, one to three workers, every interleaving within a bound on deviations",
     "The window between the last result and the last error is only hit under particular interleavings.",
     ["internal/concurrent/concurrent.go", "internal/concurrent/worker.go"],
     [("error collection", "internal/concurrent/worker.go"), ("join loop", "internal/concurrent/concurrent.go")], [STD])

prop("C13", "The cache never changes what is reported",
     "Every run prints exactly what it would print with the cache disabled, whatever runs came before it: same or different subcommand, mode, paths, revisions or filters, with commits added to or dropped from the history in between. Commits already in the cache are not asked of git again.",
     ["histories"], "sequences of runs with varying subcommands, modes, paths and filters over growing or rewritten histories",
     "Tests of the cache store and load a fixed list of commits; staleness only shows over a sequence of different runs.",
     ["internal/cache/cache.go", "internal/cache/backends/gob.go", "internal/concurrent/concurrent.go", "internal/concurrent/cache.go"],
     [("use of cached commits", "internal/concurrent/concurrent.go"), ("commit store", "internal/cache/backends/gob.go")], [STD, "files under the cache directory"],
     [("cache file", "commits already read, with all their files", "internal/cache/backends/gob.go")])

prop("C14", "A damaged cache or an interrupted run never corrupts later results",
     "After a run is interrupted at any point while it uses the cache, or the cache files are truncated, overwritten, removed or replaced by anything else, later runs still succeed and print exactly what they would print without a cache. A cache that cannot be read is discarded, and caching works again afterwards, with nothing left of what was interrupted.",
     ["crash_points", "fault_sequences", "inputs"], "every step of the cache's file operations as the point of interruption; any byte of the stored file changed, any truncation, leftovers of earlier versions",
     "Tests never interrupt a run or damage a file.",
     ["internal/cache/backends/gob.go", "internal/cache/cache.go", "internal/concurrent/concurrent.go"],
     [("compressed store", "internal/cache/backends/gob.go"), ("handling of cache failures", "internal/concurrent/concurrent.go")], [STD, "files under the cache directory"])

prop("C15", "Cached data is never used for another repository or mailmap",
     "Runs in different repositories, or in the same repository before and after its mailmap files are added, edited or removed, never see each other's cached identities: each run prints what it would print without a cache. The cache stays inside git-who's own directory under the user's cache directory, as one file for each repository (what was kept for earlier mailmaps is removed), and disabling it by environment leaves no files behind.",
     ["histories", "configurations"], "sequences of runs over repositories with the same and different names, mailmaps added, changed and removed between runs, cache location from the environment",
     "Needs sequences of runs with state kept between them, which no test makes.",
     ["internal/cache/cache.go", "internal/git/config/files.go", "internal/cache/backends/gob.go"],
     [("cache location and state hash", "internal/cache/cache.go"), ("mailmap hash", "internal/git/config/files.go")], [STD, "files under the cache directory"])

prop("C16", "Path limits count exactly the matching files",
     "With paths given, only changes to files selected by those paths contribute to lines, files and the tree, and only commits that touch such a file are counted. A path selects itself and everything below it, never a sibling whose name merely starts with it; '*' and '?' patterns and exclusions work as in git, also when run from a subdirectory, and sequential and parallel runs agree.",
     ["inputs", "configurations"], "paths and file names over a small alphabet of letters, '/', '.', '*', '?' and '[', exclusions, several paths at once, every working directory, every subcommand and mode",
     "Matching is reimplemented outside git; agreement must hold for every pair of pattern and path, where the tests list a few.",
     ["internal/git/pathspec.go", "internal/git/git.go", "internal/concurrent/concurrent.go"],
     [("pathspec matching", "internal/git/pathspec.go"), ("limiting of diffs", "internal/git/git.go")], [STD])

prop("C17", "Ignored revisions are left out everywhere",
     "Commits listed in .git-blame-ignore-revs contribute nothing to table, tree or hist, in sequential and parallel runs and whether or not they are cached, and no other commit is affected. Comments, blank lines, surrounding spaces and upper-case digits are understood as by git blame, other lines that are not full hashes have no effect, and changing the file takes effect on the next run.",
     ["inputs", "histories"], "any subset of commits listed, each line written with any comment, spacing or case, any single byte of a line changed, changes of the file between runs",
     "No test covers the file's syntax or its interplay with the cache and parallel runs.",
     ["internal/git/config/files.go", "internal/git/git.go", "internal/concurrent/concurrent.go"],
     [("ignore-revs reader", "internal/git/config/files.go"), ("skipping", "internal/git/git.go")], [STD])

prop("C18", "Mailmapped identities are used whenever a mailmap exists",
     "When the repository has a .mailmap, or git is configured with a mailmap file that exists, every subcommand groups and names authors by the mailmapped name and email; otherwise it uses the recorded ones; --author and --nauthor compare against the same identities. Sequential and parallel runs agree, and no two entries remain for identities the mailmap unites.",
     ["configurations", "histories"], "mailmap in the repository, configured, both, or missing; any mapping of up to three identities; every subcommand and mode, sequential and parallel",
     "One functional test covers one mapping in one subcommand.",
     ["internal/git/config/config.go", "internal/git/cmd/cmd.go", "internal/concurrent/worker.go"],
     [("mailmap detection", "internal/git/config/config.go"), ("log format choice", "internal/git/cmd/cmd.go")], [STD])

prop("C19", "Arguments are taken as revisions or paths exactly as git would",
     "Revisions, ranges and paths on the command line are told apart exactly as git does, with '--' separating them, and HEAD is used when no revision is given; flags apply wherever git-who documents them and the subcommand defaults to table. Commits outside the requested revisions are never counted, and no path, pattern or date given by the user is passed to git where git would take it for an option.",
     ["inputs", "configurations"], "every sequence of up to three arguments from revisions, ranges, exclusions, branches, paths (also ones that look like revisions or options) and '--', with flags before them",
     "Tests cover a few argument lists; the guarantee is about every combination.",
     ["main.go", "internal/git/args.go", "internal/git/cmd/cmd.go", "internal/git/revision/revision.go"],
     [("argument splitting", "internal/git/args.go"), ("terminator handling", "main.go"), ("git command lines", "internal/git/cmd/cmd.go")], [STD])

prop("C20", "Author and date filters select exactly the matching commits",
     "--author keeps commits whose author matches any given pattern, --nauthor drops commits whose author matches any given pattern wherever the match is in the name or email, and --since and --until bound the commit dates; all given filters apply together. The same commits are selected by every subcommand and mode, sequentially and in parallel.",
     ["inputs", "configurations"], "every combination of up to two --author and two --nauthor patterns over names and emails of three authors, any date bounds, every subcommand and mode",
     "No test uses the filters together; exclusion is built by rewriting patterns.",
     ["internal/git/cmd/filters.go", "internal/git/cmd/cmd.go"],
     [("filter arguments", "internal/git/cmd/filters.go")], [STD])

prop("C21", "Numbers are printed correctly at every magnitude",
     "Counts below a thousand are printed as they are, counts from a thousand with a thousands separator and all digits, counts from a million as millions rounded to one decimal, and counts from a hundred million as '>99m'. The rendering is right for every value, including exactly at the boundaries.",
     ["inputs"], "every count from 0 to 999,999,999",
     "Tests check a handful of values away from the boundaries.",
     ["internal/format/format.go"], [("number formatting", "internal/format/format.go")], ["counts in git-who table output"])

prop("C22", "Relative times name the right unit for every age",
     "A time is described by the largest unit that fits (minutes, hours, days, weeks, months of 30 days, years of 365 days), rounded down, with the singular for one and '>99 yr. ago' beyond 99 years. This holds for every age from zero up, including exactly at the boundaries between units.",
     ["inputs"], "every age in seconds from zero to more than 99 years, for the last and the first edit",
     "Tests check a few ages; each unit boundary and plural is a separate case.",
     ["internal/format/format.go", "internal/subcommands/table.go"], [("relative time", "internal/format/format.go")], ["edit times in git-who table, tree and hist output"])

prop("C23", "The table stays aligned for every name and number",
     "Every line of the table has the same display width whatever the author names, emails and numbers: long names are shortened with an ellipsis, short ones padded, wide and combining characters are measured by their display width, and no name is cut in the middle of a character. Names that fit are shown unchanged.",
     ["inputs"], "names and emails of every length up to past the column width, with ASCII, multi-byte, double-width and combining characters at every position, in every mode with and without -e",
     "Tests abbreviate three strings; alignment depends on length and width together.",
     ["internal/subcommands/table.go", "internal/format/format.go"], [("table rows", "internal/subcommands/table.go"), ("abbreviation", "internal/format/format.go")], ["git-who table output"])

prop("C24", "CSV output is well formed and lossless",
     "table --csv prints a header and then one record per row, all with the same number of fields, which a CSV reader decodes to exactly the author's name, email (with -e), counts and times, whatever characters the name and email contain. The header matches the fields in every mode, and the numbers are those of the table, unabbreviated. When not all of it can be written (a full disk), the run fails and says so.",
     ["inputs", "configurations"], "every byte in names and emails (quotes, commas, newlines, leading spaces), every mode with and without -e, any counts",
     "Tests use names without special characters.",
     ["internal/subcommands/table.go"], [("CSV writer", "internal/subcommands/table.go")], ["git-who table --csv output"])

prop("C25", "What the commit cache stores it gives back unchanged",
     "Commits added to a cache, in any number of batches and over any number of sessions, are returned exactly as stored, each once, for exactly the revisions asked for; revisions never stored are not returned, and nothing is once the cache was emptied. When the stored file is cut short within a batch, when a byte of its compressed form is changed, or when a commit is in it twice, an error is reported, and no commit is returned other than as it was stored.",
     ["inputs", "histories", "fault_sequences"], "any split of commits into batches and sessions, any set of requested revisions, short reads from the file, damage at any byte",
     "The round-trip tests store one batch and read it in one go.",
     ["internal/cache/backends/gob.go", "internal/cache/backends/json.go", "internal/cache/cache.go"],
     [("gob store", "internal/cache/backends/gob.go"), ("json store", "internal/cache/backends/json.go")], ["commits returned by the cache"])

prop("C26", "Output is the same on every run",
     "Two runs with the same arguments over the same repository print the same bytes, apart from the passing of time: rows, tree entries and winners that tie are always resolved the same way, and the order in which commits and files are processed does not matter.",
     ["schedules", "inputs"], "every iteration order of the program's hash tables (within a bound on permuted tables), ties in every metric, every subcommand and mode",
     "Iteration order is randomized per run, so a test sees only one order at a time.",
     ["internal/tally/tally.go", "internal/tally/tree.go", "internal/tally/bucket.go", "internal/subcommands/tree.go"],
     [("ranking", "internal/tally/tally.go"), ("tree", "internal/tally/tree.go")], [STD])

prop("C27", "Invalid requests are refused cleanly, valid ones never crash",
     "Contradictory or malformed flags, negative limits, unsupported path magic and unknown revisions are refused with a message on stderr, no result on stdout and a non-zero exit status. Every valid combination of subcommand, flags and history, including an empty selection, succeeds without a panic, and an empty selection prints nothing, apart from the CSV header.",
     ["configurations", "inputs"], "every combination of mode flags and options of every subcommand, empty selections, histories with merges only, sequential and parallel",
     "Tests cover single flags; crashes come from combinations with empty or odd histories.",
     ["main.go", "internal/subcommands/table.go", "internal/subcommands/tree.go", "internal/subcommands/hist.go", "internal/concurrent/concurrent.go"],
     [("flag validation", "main.go"), ("subcommands", "internal/subcommands")], [STD])

prop("C28", "Progress appears only on a terminal and leaves no trace",
     "When standard output is not a terminal, git-who writes nothing to it but the result. When it is a terminal, a long run may report its progress there, but every report is erased before the result is printed: what the terminal finally shows of a successful run is exactly what the same run writes into a pipe. The progress reported never goes backwards and never exceeds the total.",
     ["inputs", "schedules"], "any number of commits, any number of workers, every subcommand, with and without cached commits, every schedule of the workers, standard output a terminal or a pipe",
     "Whether progress is shown depends on the terminal, the number of CPUs and the amount of uncached work, and the order of reports on the scheduling of workers; no test runs git-who on a terminal or over enough commits.",
     ["internal/concurrent/concurrent.go", "internal/pretty/pretty.go", "internal/subcommands/table.go", "internal/subcommands/tree.go", "internal/subcommands/hist.go"],
     [("progress reports", "internal/concurrent/concurrent.go"), ("terminal detection", "internal/pretty/pretty.go")], [STD])

prop("C29", "Runs at the same time do not disturb each other",
     "When two git-who processes run at the same time for the same user and repository, sharing the cache, both succeed and each prints exactly what it would print alone, and so does every later run: neither can make the other fail, count a commit twice or not at all, or leave a cache behind that is wrong or no longer works.",
     ["schedules", "inputs"], "every point of a run at which another run can take place, every state of the cache before, the same or different subcommands, histories that grow in between",
     "The cache is one file per repository without locks, unpacked, appended to and removed by every process; what happens when two of them do so at once depends on timing that no test controls.",
     ["internal/cache/backends/gob.go", "internal/cache/cache.go", "internal/concurrent/concurrent.go", "internal/concurrent/worker.go"],
     [("store shared by processes", "internal/cache/backends/gob.go"), ("recovery from errors of the cache", "internal/concurrent/concurrent.go")], [STD])

prop("C30", "A run changes nothing but git-who's own cache",
     "Whatever it is asked, whether it succeeds or fails, git-who only reads the repository: it adds, changes and removes no file of the working tree, the repository, the home directory or another program's cache, and asks git only for commands that read. What it writes is its output and the cache of the repository it runs in; the caches of other repositories are left as they are, and with caching disabled nothing is written at all.",
     ["inputs", "configurations", "fault_sequences"], "every subcommand with valid, refused and option-like arguments, in the root or a subdirectory, with the cache in any place and state, with git failing or not",
     "Tests look at what is printed, never at what else is changed, and clearing a damaged cache is where most could be lost.",
     ["internal/cache/backends/gob.go", "internal/cache/cache.go", "internal/git/cmd/cmd.go", "main.go"],
     [("files of the cache", "internal/cache/backends/gob.go"), ("git command lines", "internal/git/cmd/cmd.go")], [STD, "files around the repository", "git command lines"])

prop("C31", "Debug logging, help and the default subcommand change no result",
     "With -v a run prints the same result and ends with the same status as without, and the same messages besides the debug lines, all on standard error; without it no debug line appears. When no subcommand is named, everything is as if 'table' had been. Help for the program and every subcommand names every flag, help and version succeed, also outside a repository, and do nothing else.",
     ["inputs", "configurations", "fault_sequences"], "every subcommand and mode, valid and refused, with and without -v, serial and parallel, any state of the cache, git failing or not",
     "Logging is spread over every path of the program, failures and recovery included; tests do not turn it on.",
     ["main.go", "log.go"],
     [("top-level flags and choice of the subcommand", "main.go")], [STD])

prop("C32", "dump and parse show the selected history completely and in order",
     "parse prints every commit selected by revisions, paths, dates and authors exactly once, oldest first, as git reports it under the mailmap in force, with those of its files that the given paths select and their line counts, and finally how many there were; with -s it leaves the files out. dump prints every field of the same records as git wrote it, one on a line, newlines inside a field as \\n. Neither depends on the number of CPUs or uses the cache, and when the output cannot be written completely (a full disk), they fail and say so.",
     ["inputs", "configurations"], "any combination of two filters, paths and revisions, with and without -s, a mailmap, names and paths with newlines, every size of output that finds room",
     "No test runs these subcommands, which are how a wrong count is traced to what git reported.",
     ["internal/subcommands/dump.go", "internal/subcommands/parse.go", "internal/git/git.go", "internal/git/cmd/subprocess.go"],
     [("parse", "internal/subcommands/parse.go"), ("dump", "internal/subcommands/dump.go")], [STD])


exec(open(os.path.join(HERE, "tools", "props_extra.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_extra.py")) else None

# which harnesses exist
har = {}
for f in glob.glob(os.path.join(HERE, "harness", "zzverif", "*.go")):
    for m in re.finditer(r'^//\s?h: property=(\w+)(.*)\nfunc (\w+)', open(f).read(), re.M):
        b = re.search(r'bound="([^"]*)"', m.group(2))
        har.setdefault(m.group(1), []).append((m.group(3), b.group(1) if b else ""))
NA = {}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, note in P:
    i = p["id"]
    if i not in har:
        na.append(dict(property=i, reason=NA.get(i, "not encoded yet: its harness is being written")))
        continue
    bounds = "; ".join("%s: %s" % (h, b) for h, b in har[i])
    checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh %s -tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the program's SSA with an SMT solver (z3)",
        level="model_checking",
        level_note="Bounded: holds for all values within the bounds, explored path by path, each path's assertions discharged by z3; git, the file system and gob/gzip are models. Bounds: " + bounds + ((". " + note) if note else "")))
man = dict(version=1,
    setup_cmd="cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gosym .",
    checks=checks, not_applicable=na,
    notes="All checks symbolically execute the whole program, rebuilt from /repo's working tree into SSA on every run; see DESIGN.md. No hooks in /repo.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not")
