From 2597a3f32d5d01e9b2a60e3540b95b8a251675ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 01/39] fix: hist never finished where clocks change at
 midnight

---
 internal/tally/bucket.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..29016a5 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,26 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// Returns the first instant of the given local calendar date.
+//
+// This is midnight, unless the clocks were set forward across midnight on that
+// date. (In that case, time.Date() can return a time on the previous date.)
+func startOfDate(year int, month time.Month, day int) time.Time {
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+
+	// Used to normalize date, e.g. January 32nd
+	utc := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
+	_, offset := t.Zone()
+	if t.Unix()+int64(offset) < utc.Unix() {
+		_, t = t.ZoneBounds()
+	}
+
+	return t
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDate(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +153,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDate(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +169,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +186,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDate(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDate(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From a61e5c410800728987d38041ab4e994b3b073f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 02/39] fix: tally errors were lost when not running
 concurrently

---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From 4eddad0fe43cb1e29d9025d5340dd59ce3af7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 03/39] fix: hist panicked in concurrent mode when there were
 no commits

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..6b99b8a 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -455,6 +455,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From f7c709fcbaf0895b61ec69cbe66247d5c375064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 04/39] fix: renaming a file whose name looks like a hash broke
 parsing

---
 internal/git/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..4e64b17 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,10 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			// While diff is not nil we are expecting the paths of a rename
+			done := linesThisCommit >= 6 &&
+				diff == nil &&
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From 63ce421e07b1da280b9336e61120bd6ee60f2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 05/39] fix: accepted 41 hex digits as a commit hash

---
 internal/git/revision/revision.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..080eb7f 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,13 +7,12 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]+$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
-	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	return commitHashRegexp.MatchString(s)
 }
-- 
2.43.0


From f1c758161916fc87fde0a8e709957b3c2da25a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 06/39] fix: clearing a corrupt cache made the next write to it
 fail

---
 internal/cache/backends/gob.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..f148459 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -245,7 +245,8 @@ func (b *GobBackend) Clear() error {
 		return err
 	}
 
-	return nil
+	// We still need somewhere to put whatever gets added after this
+	return os.MkdirAll(b.Dir, 0o700)
 }
 
 func GobCacheDir(prefix string, gitRootPath string) string {
-- 
2.43.0


From ba551dcc4f9294cef8837b62263310f077445bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 07/39] fix: short reads and leftover bytes could corrupt the
 cache

---
 internal/cache/backends/gob.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index f148459..d5a2fdb 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -157,7 +157,11 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				iterErr = err
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
@@ -275,7 +279,11 @@ func uncompress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	fout, err := os.OpenFile(
+		targetPath,
+		os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
+		0644,
+	)
 	if err != nil {
 		return err
 	}
@@ -315,7 +323,11 @@ func compress(sourcePath string, targetPath string) error {
 	}
 	defer f.Close()
 
-	fout, err := os.OpenFile(targetPath, os.O_WRONLY|os.O_CREATE, 0644)
+	fout, err := os.OpenFile(
+		targetPath,
+		os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
+		0644,
+	)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a348f148b4091bad0a2d1351eb3b360593fbf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 08/39] fix: cache panicked when the path to it contained a "["

---
 internal/cache/backends/gob.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index d5a2fdb..2bdb3b9 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -77,17 +77,18 @@ func (b *GobBackend) Close() error {
 	}
 
 	// Remove any other dangling cache files
-	matches, err := filepath.Glob(filepath.Join(b.Dir, "*"))
+	entries, err := os.ReadDir(b.Dir)
 	if err != nil {
-		panic(err) // Bad pattern
+		return err
 	}
 
-	for _, match := range matches {
-		if match == b.compressedPath() {
+	for _, entry := range entries {
+		p := filepath.Join(b.Dir, entry.Name())
+		if p == b.compressedPath() {
 			continue
 		}
 
-		err := os.Remove(match)
+		err := os.Remove(p)
 		if err != nil {
 			logger().Warn(
 				fmt.Sprintf("failed to delete old cache file: %v", err),
-- 
2.43.0


From 086de7aee9f9e4b1483ceec1f39fd41e3eea14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 09/39] fix: panicked on pathspecs that are malformed as globs

---
 internal/git/pathspec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index afc1faa..cf6cdec 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path"
 	"regexp"
+	"strings"
 
 	"github.com/bmatcuk/doublestar/v4"
 )
@@ -61,6 +62,12 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	if !doublestar.ValidatePattern(pathspec) {
+		// Not a glob (e.g. unclosed "["). Like Git, only match literally.
+		dir := strings.TrimSuffix(pathspec, "/")
+		return p == pathspec || strings.HasPrefix(p, dir+"/")
+	}
+
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
 	didMatch, err := doublestar.Match(pathspec, p)
 	if err != nil {
-- 
2.43.0


From 477c26e610f0ab611f56b86a8bdb1cf29ca975e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 10/39] fix: tree passed paths starting with "-" to ls-files as
 options

---
 internal/git/cmd/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..d8fc43d 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -208,9 +208,9 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 
 	var args []string
 	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
 		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
+	} else {
+		args = baseArgs
 	}
 
 	needStdin := false
-- 
2.43.0


From 1bb706a0235c528515ef0954b7e0ff87a37c3212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 11/39] fix: hist counted commits without a diff as files

---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From 0acb48e4ea1b7ee373319f2abbe0c2969783d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 12/39] fix: ignored revs followed by a comment were not
 ignored

---
 internal/git/config/files.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..cb05e0b 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,10 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-
 		// Comments starting with "#" are allowed in the ignore revs file
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.ToLower(strings.TrimSpace(line))
+
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From 5ca1747a982b169d8e51273c659d0c47ab9aaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 13/39] fix: --nauthor only worked on name prefixes and without
 --author

---
 internal/git/cmd/filters.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/git/cmd/filters.go b/internal/git/cmd/filters.go
index f1f9cbb..f432e39 100644
--- a/internal/git/cmd/filters.go
+++ b/internal/git/cmd/filters.go
@@ -24,23 +24,22 @@ func (f LogFilters) ToArgs() []string {
 		args = append(args, "--until", f.Until)
 	}
 
-	for _, author := range f.Authors {
-		args = append(args, "--author", author)
-	}
-
-	if len(f.Nauthors) > 0 {
+	if len(f.Nauthors) == 0 {
+		for _, author := range f.Authors {
+			args = append(args, "--author", author)
+		}
+	} else {
+		// Git keeps commits matching ANY --author, so we need to pass a single
+		// pattern to get commits by one of the authors and none of the nauthors
 		args = append(args, "--perl-regexp")
 
-		// Build regex pattern OR-ing together all the nauthors
 		var b strings.Builder
-		for i, nauthor := range f.Nauthors {
-			b.WriteString(nauthor)
-			if i < len(f.Nauthors)-1 {
-				b.WriteString("|")
-			}
+		if len(f.Authors) > 0 {
+			fmt.Fprintf(&b, `(?=.*(?:%s))`, strings.Join(f.Authors, "|"))
 		}
+		fmt.Fprintf(&b, `(?!.*(?:%s))`, strings.Join(f.Nauthors, "|"))
 
-		regex := fmt.Sprintf(`^((?!%s).*)$`, b.String())
+		regex := fmt.Sprintf(`^(%s.*)$`, b.String())
 		args = append(args, "--author", regex)
 	}
 
-- 
2.43.0


From eb67fb48df33e784d41c81bae030b44786b23410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 14/39] fix: worker errors could be lost, giving partial
 results

---
 internal/concurrent/concurrent.go | 6 ++++++
 internal/concurrent/worker.go     | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6b99b8a..c23f4b5 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -315,6 +315,12 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// Last worker error could still be waiting to be read
+	if err := <-errs; err != nil {
+		logger().Debug("error in concurrent tally")
+		return accumulator, fmt.Errorf("concurrent tally failed: %w", err)
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..3393657 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -215,11 +215,11 @@ loop:
 			result, err := func() (_ T, err error) {
 				var result T
 
-				lines, finish := subprocess.StdoutNullDelimitedLines()
-				defer func() { err = errors.Join(err, finish()) }()
+				lines, finishLines := subprocess.StdoutNullDelimitedLines()
+				defer func() { err = errors.Join(err, finishLines()) }()
 
-				commits, finish := git.ParseCommits(lines)
-				defer func() { err = errors.Join(err, finish()) }()
+				commits, finishCommits := git.ParseCommits(lines)
+				defer func() { err = errors.Join(err, finishCommits()) }()
 
 				commits = cacheTee(commits, toCache)
 
-- 
2.43.0


From 62352cc105e1fa168d54e63c60e916e20d8058e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 15/39] fix: formatting of exactly one thousand and one million

---
 internal/format/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..dbb4a39 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -87,16 +87,16 @@ func Number(num int) string {
 		panic("cannot format negative number")
 	}
 
-	if num > 100_000_000 {
+	if num >= 100_000_000 {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From 41ac92e7c111f017987c770496f80ab104b3e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 16/39] fix: order of tied authors was random

---
 internal/tally/tally.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 1e7138f..aca60ec 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -2,8 +2,10 @@
 package tally
 
 import (
+	"cmp"
 	"iter"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/sinclairtarget/git-who/internal/git"
@@ -76,8 +78,12 @@ func (a FinalTally) Compare(b FinalTally, mode TallyMode) int {
 		return 1
 	}
 
-	// Break ties with last edited
-	return a.LastCommitTime.Compare(b.LastCommitTime)
+	// Break ties with last edited, then put names in alphabetical order
+	return cmp.Or(
+		a.LastCommitTime.Compare(b.LastCommitTime),
+		strings.Compare(b.AuthorName, a.AuthorName),
+		strings.Compare(b.AuthorEmail, a.AuthorEmail),
+	)
 }
 
 // A non-final tally that can be combined with other tallies and then finalized
-- 
2.43.0


From 97c2bbe743dfc0221e7f89cb4c311358de8d4b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 17/39] fix: tree -a drew wrong connector for last child of the
 root

---
 internal/subcommands/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 9b45edc..14f8e13 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -288,6 +288,10 @@ func toLines(
 	// Find last non-hidden child
 	finalChildIndex := 0
 	for i, p := range childPaths {
+		if p == tally.NoDiffPathname {
+			continue // Never printed
+		}
+
 		child := node.Children[p]
 		if child.InWorkTree || opts.showHidden {
 			finalChildIndex = i
-- 
2.43.0


From fd6e27ad0c7507d4b58090a7eeb6bc8fa26ab81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 18/39] fix: hist could panic on dates when midnight happened
 twice

---
 internal/tally/bucket.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 29016a5..1faeb6e 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -129,7 +129,8 @@ type Resolution struct {
 // Returns the first instant of the given local calendar date.
 //
 // This is midnight, unless the clocks were set forward across midnight on that
-// date. (In that case, time.Date() can return a time on the previous date.)
+// date. (In that case, time.Date() can return a time on the previous date.) If
+// midnight happened twice, because the clocks were set back, this is the first.
 func startOfDate(year int, month time.Month, day int) time.Time {
 	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
 
@@ -140,6 +141,13 @@ func startOfDate(year int, month time.Month, day int) time.Time {
 		_, t = t.ZoneBounds()
 	}
 
+	start, _ := t.ZoneBounds()
+	_, offset = start.Add(-time.Nanosecond).Zone() // Before clocks changed
+	first := time.Unix(utc.Unix()-int64(offset), 0)
+	if first.Before(start) {
+		return first
+	}
+
 	return t
 }
 
-- 
2.43.0


From 56a9a7ddc7d9997c1a0abd6d214d36d56bf99685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 19/39] fix: paths given in a subdirectory matched no files

---
 internal/concurrent/concurrent.go | 14 +++++++++-
 internal/concurrent/worker.go     |  6 ++++-
 internal/git/cmd/cmd.go           | 12 +++++++++
 internal/git/git.go               | 44 +++++++++++++++++++++++++++++--
 internal/git/pathspec.go          | 16 +++++++++++
 5 files changed, 88 insertions(+), 4 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index c23f4b5..ba720c5 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -58,6 +58,7 @@ type combinable[T any] interface {
 type whoperation[T combinable[T]] struct {
 	revspec    []string
 	pathspecs  []string
+	prefix     string // Path from Git root that pathspecs are relative to
 	filters    cmd.LogFilters
 	useMailmap bool
 	ignoreRevs []string
@@ -100,7 +101,11 @@ func accumulateCached[T combinable[T]](
 	var none T
 
 	commits, finish := c.Get(revs)
-	commits, err := git.LimitDiffsByPathspec(commits, whop.pathspecs)
+	commits, err := git.LimitDiffsByPathspecFrom(
+		commits,
+		whop.pathspecs,
+		whop.prefix,
+	)
 	if err != nil {
 		return none, revs, err
 	}
@@ -173,6 +178,13 @@ func tallyFanOutFanIn[T combinable[T]](
 		revs = unignoredRevs
 	}
 
+	if len(whop.pathspecs) > 0 {
+		whop.prefix, err = git.GetPrefix()
+		if err != nil {
+			return accumulator, err
+		}
+	}
+
 	// -- Use cached commits if there are any ----------------------------------
 	remainingRevs := revs
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index 3393657..dec5210 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -225,7 +225,11 @@ loop:
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
-				commits, err = git.LimitDiffsByPathspec(commits, whop.pathspecs)
+				commits, err = git.LimitDiffsByPathspecFrom(
+					commits,
+					whop.pathspecs,
+					whop.prefix,
+				)
 				if err != nil {
 					return result, err
 				}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index d8fc43d..fe3febf 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -157,6 +157,18 @@ func RunRevParseTopLevel(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
+func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
+	var args = []string{"rev-parse", "--show-prefix"}
+
+	needStdin := false
+	subprocess, err := run(ctx, args, needStdin)
+	if err != nil {
+		return nil, fmt.Errorf("failed to run git rev-parse: %w", err)
+	}
+
+	return subprocess, nil
+}
+
 // Runs git rev-list. When countOnly is true, passes --count, which is much
 // faster than printing then getting all the revisions when all you need is the
 // count.
diff --git a/internal/git/git.go b/internal/git/git.go
index de4a515..7fbfbc7 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -179,6 +179,35 @@ func GetRoot() (_ string, err error) {
 	return root, nil
 }
 
+// Returns the path of the working directory relative to the root of the repo.
+func GetPrefix() (_ string, err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("failed to get path from Git root: %w", err)
+		}
+	}()
+
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	subprocess, err := cmd.RunRevParsePrefix(ctx)
+	if err != nil {
+		return "", err
+	}
+
+	prefix, err := subprocess.StdoutText()
+	if err != nil {
+		return "", err
+	}
+
+	err = subprocess.Wait()
+	if err != nil {
+		return "", err
+	}
+
+	return prefix, nil
+}
+
 // Returns all paths in the working tree under the given pathspecs.
 func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 	defer func() {
@@ -220,6 +249,17 @@ func WorkingTreeFiles(pathspecs []string) (_ map[string]bool, err error) {
 func LimitDiffsByPathspec(
 	commits iter.Seq[Commit],
 	pathspecs []string,
+) (iter.Seq[Commit], error) {
+	return LimitDiffsByPathspecFrom(commits, pathspecs, "")
+}
+
+// Same as LimitDiffsByPathspec(), but the pathspecs are relative to a directory
+// given as its path from the root of the repo. (Paths in diffs always start
+// from the root.)
+func LimitDiffsByPathspecFrom(
+	commits iter.Seq[Commit],
+	pathspecs []string,
+	prefix string,
 ) (iter.Seq[Commit], error) {
 	if len(pathspecs) == 0 {
 		return commits, nil
@@ -243,7 +283,7 @@ func LimitDiffsByPathspec(
 				// included.
 				shouldInclude := len(includes) == 0
 				for _, p := range includes {
-					if PathspecMatch(p, diff.Path) {
+					if pathspecMatchFrom(prefix, p, diff.Path) {
 						shouldInclude = true
 						break
 					}
@@ -251,7 +291,7 @@ func LimitDiffsByPathspec(
 
 				shouldExclude := false
 				for _, p := range excludes {
-					if PathspecMatch(p, diff.Path) {
+					if pathspecMatchFrom(prefix, p, diff.Path) {
 						shouldExclude = true
 						break
 					}
diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index cf6cdec..7659450 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -55,6 +55,22 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 	return includes, excludes
 }
 
+// Same as PathspecMatch(), but for a pathspec relative to the directory at the
+// given prefix.
+func pathspecMatchFrom(prefix string, pathspec string, p string) bool {
+	if prefix == "" {
+		return PathspecMatch(pathspec, p)
+	}
+
+	dir := strings.TrimSuffix(prefix, "/") + "/"
+	relPath, isUnder := strings.CutPrefix(p, dir)
+	if isUnder && PathspecMatch(pathspec, relPath) {
+		return true
+	}
+
+	return PathspecMatch(path.Join(prefix, pathspec), p)
+}
+
 // Function might panic if passed an invalid pathspec. We validate these
 // elsewhere.
 func PathspecMatch(pathspec string, p string) bool {
-- 
2.43.0


From c99d2ee5a26d47499c75b2c4ec60bc8f9d40f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 20/39] fix: commits read from a failing git log were cached

---
 internal/concurrent/cache.go  | 23 ++++-------------------
 internal/concurrent/worker.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/internal/concurrent/cache.go b/internal/concurrent/cache.go
index 80fe688..b68e62e 100644
--- a/internal/concurrent/cache.go
+++ b/internal/concurrent/cache.go
@@ -6,33 +6,18 @@ import (
 	"github.com/sinclairtarget/git-who/internal/git"
 )
 
-const cacheChunkSize = chunkSize
-
-// Transparently splits off commits to the cache queue
+// Transparently collects commits for caching
 func cacheTee(
 	commits iter.Seq[git.Commit],
-	toCache chan<- []git.Commit,
+	parsed *[]git.Commit,
 ) iter.Seq[git.Commit] {
-	chunk := []git.Commit{}
-
 	return func(yield func(git.Commit) bool) {
 		for c := range commits {
-			chunk = append(chunk, c)
-
-			if len(chunk) >= cacheChunkSize {
-				toCache <- chunk
-				chunk = []git.Commit{}
-			}
-
+			*parsed = append(*parsed, c)
 			if !yield(c) {
-				break
+				return
 			}
 		}
-
-		// Make sure to write any remainder
-		if len(chunk) > 0 {
-			toCache <- chunk
-		}
 	}
 }
 
diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index dec5210..fd08d7a 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -211,7 +211,8 @@ loop:
 				return err
 			}
 
-			// Read parsed commits and enqueue for caching
+			// Read parsed commits and collect them for caching
+			parsed := []git.Commit{}
 			result, err := func() (_ T, err error) {
 				var result T
 
@@ -221,7 +222,7 @@ loop:
 				commits, finishCommits := git.ParseCommits(lines)
 				defer func() { err = errors.Join(err, finishCommits()) }()
 
-				commits = cacheTee(commits, toCache)
+				commits = cacheTee(commits, &parsed)
 
 				// Now that we're tallying, we DO care to only look at the file
 				// diffs under the given paths
@@ -246,6 +247,11 @@ loop:
 				return err
 			}
 
+			// Only cache commits once we know git printed them all in full
+			if len(parsed) > 0 {
+				toCache <- parsed
+			}
+
 			results <- result
 		}
 	}
-- 
2.43.0


From 682b026f00fc11d6bf93f3aea73cbeeeb7b00d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 21/39] fix: paths that look like globs did not match
 themselves

---
 internal/git/pathspec.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 7659450..8f5b3a6 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -78,10 +78,14 @@ func PathspecMatch(pathspec string, p string) bool {
 		panic("empty string is not valid pathspec")
 	}
 
+	// Like Git, try to match literally first, even if the pathspec is a glob
+	dir := strings.TrimSuffix(pathspec, "/")
+	if p == pathspec || strings.HasPrefix(p, dir+"/") {
+		return true
+	}
+
 	if !doublestar.ValidatePattern(pathspec) {
-		// Not a glob (e.g. unclosed "["). Like Git, only match literally.
-		dir := strings.TrimSuffix(pathspec, "/")
-		return p == pathspec || strings.HasPrefix(p, dir+"/")
+		return false // Not a glob (e.g. unclosed "[")
 	}
 
 	// Note: Git uses fnmatch(). This match may differ. Hopefully only rarely.
-- 
2.43.0


From 30c89eab1b20a8d6f5df6d12d337eb0ff2792021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 22/39] fix: path with trailing slash matched file of the same
 name

---
 internal/git/pathspec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 8f5b3a6..5889941 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -100,7 +100,7 @@ func PathspecMatch(pathspec string, p string) bool {
 
 	// Ensure we mimic Git behavior with trailing slash. See "pathspec" in
 	// gitglossary(3).
-	subdirPathspec := path.Join(pathspec, "**")
+	subdirPathspec := path.Join(pathspec, "**", "*")
 	didMatch, err = doublestar.Match(subdirPathspec, p)
 	if err != nil {
 		panic(fmt.Sprintf("error calling doublestar.Match(): %v", err))
-- 
2.43.0


From 93cb8105bf8a5a7ed74d6bbc203d06f3211f2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 23/39] fix: paths such as "./foo" did not match in parallel
 runs

---
 internal/git/pathspec.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/git/pathspec.go b/internal/git/pathspec.go
index 5889941..203a0a7 100644
--- a/internal/git/pathspec.go
+++ b/internal/git/pathspec.go
@@ -59,16 +59,27 @@ func SplitPathspecs(pathspecs []string) (includes []string, excludes []string) {
 // given prefix.
 func pathspecMatchFrom(prefix string, pathspec string, p string) bool {
 	if prefix == "" {
-		return PathspecMatch(pathspec, p)
+		return PathspecMatch(cleanPathspec(pathspec), p)
 	}
 
 	dir := strings.TrimSuffix(prefix, "/") + "/"
 	relPath, isUnder := strings.CutPrefix(p, dir)
-	if isUnder && PathspecMatch(pathspec, relPath) {
+	if isUnder && PathspecMatch(cleanPathspec(pathspec), relPath) {
 		return true
 	}
 
-	return PathspecMatch(path.Join(prefix, pathspec), p)
+	return PathspecMatch(cleanPathspec(dir+pathspec), p)
+}
+
+// Like Git, we resolve any "." or ".." in a pathspec before matching. A
+// trailing slash is significant.
+func cleanPathspec(pathspec string) string {
+	cleaned := path.Clean(pathspec)
+	if strings.HasSuffix(pathspec, "/") && cleaned != "." {
+		cleaned += "/"
+	}
+
+	return cleaned
 }
 
 // Function might panic if passed an invalid pathspec. We validate these
-- 
2.43.0


From d8f27fe31a80256a8e43d08645a51f54e4cdf827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 24/39] fix: tree accepted a negative depth and printed nothing

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index ad0ba62..ced751d 100644
--- a/main.go
+++ b/main.go
@@ -251,6 +251,10 @@ Usage: git-who tree [options...] [revisions...] [[--] paths...]
 				return errors.New("all ranking flags are mutually exclusive")
 			}
 
+			if *depth < 0 {
+				return errors.New("-d flag must be a positive integer")
+			}
+
 			mode := tally.CommitMode
 			if *useLines {
 				mode = tally.LinesMode
-- 
2.43.0


From 5e7ecd4fa29b8002d11d4d113fb50b637387ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 25/39] fix: relative mailmap.file was not found from a
 subdirectory

---
 internal/git/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/git/config/config.go b/internal/git/config/config.go
index 56776b0..aa09246 100644
--- a/internal/git/config/config.go
+++ b/internal/git/config/config.go
@@ -95,6 +95,11 @@ func DetectSupplementalFiles(
 	}
 
 	if len(mailmapPath) > 0 {
+		if !filepath.IsAbs(mailmapPath) {
+			// Like Git, take as relative to the root of the working tree
+			mailmapPath = filepath.Join(gitRootPath, mailmapPath)
+		}
+
 		_, err = os.Stat(mailmapPath)
 		if err == nil {
 			files.GlobalMailmapPath = mailmapPath
-- 
2.43.0


From 021ba787bd0a5ec8058554bc852f9c0324580dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 26/39] fix: with -e, author using several names was shown
 under a random one

---
 internal/tally/bucket.go |  4 ++--
 internal/tally/tally.go  | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 1faeb6e..c0c5a68 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -259,11 +259,11 @@ func TallyCommitsByDate(
 
 			tally, ok := bucket.tallies[key]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.fileset = map[string]bool{}
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.numTallied += 1
 
 			if !commit.IsMerge {
diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index aca60ec..18a4c53 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -100,6 +100,8 @@ type Tally struct {
 	numTallied int
 }
 
+// Picks one of two names (or emails) of the same author. We always pick the same
+// one no matter in what order we see them.
 func or(a, b string) string {
 	if a == "" {
 		return b
@@ -107,7 +109,7 @@ func or(a, b string) string {
 		return a
 	}
 
-	return a
+	return min(a, b)
 }
 
 func unionInPlace(a, b map[string]bool) map[string]bool {
@@ -235,11 +237,11 @@ func TallyCommits(
 
 			tally, ok := tallies[key]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.firstCommitTime = commit.Date
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.numTallied += 1
 			tally.firstCommitTime = timeutils.Min(
 				commit.Date,
@@ -297,13 +299,13 @@ func TallyCommitsByPath(
 			// collides.
 			tally, ok := pathTallies[NoDiffPathname]
 			if !ok {
-				tally.name = commit.AuthorName
-				tally.email = commit.AuthorEmail
 				tally.firstCommitTime = commit.Date
 				tally.commitset = map[string]bool{}
 				tally.numTallied = 0 // Don't count toward files changed
 			}
 
+			tally.name = or(tally.name, commit.AuthorName)
+			tally.email = or(tally.email, commit.AuthorEmail)
 			tally.commitset[commit.ShortHash] = true
 			tally.firstCommitTime = timeutils.Min(
 				tally.firstCommitTime,
@@ -319,12 +321,12 @@ func TallyCommitsByPath(
 			for _, diff := range commit.FileDiffs {
 				tally, ok := pathTallies[diff.Path]
 				if !ok {
-					tally.name = commit.AuthorName
-					tally.email = commit.AuthorEmail
 					tally.firstCommitTime = commit.Date
 					tally.commitset = map[string]bool{}
 				}
 
+				tally.name = or(tally.name, commit.AuthorName)
+				tally.email = or(tally.email, commit.AuthorEmail)
 				tally.commitset[commit.ShortHash] = true
 				tally.firstCommitTime = timeutils.Min(
 					tally.firstCommitTime,
-- 
2.43.0


From 3838a9f303acf2e2c59bc60f3839b6b64b1fdf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 27/39] fix: failed in directories with a file named HEAD

---
 internal/git/cmd/cmd.go | 42 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index fe3febf..2249053 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -53,18 +53,15 @@ func RunLog(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always separate revs from paths. Otherwise, Git complains about revs that
+	// could also be the name of a file.
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
@@ -189,18 +186,15 @@ func RunRevList(
 
 	filterArgs := filters.ToArgs()
 
-	var args []string
-	if len(pathspecs) > 0 {
-		args = slices.Concat(
-			baseArgs,
-			filterArgs,
-			revs,
-			[]string{"--"},
-			pathspecs,
-		)
-	} else {
-		args = slices.Concat(baseArgs, filterArgs, revs)
-	}
+	// Always separate revs from paths. Otherwise, Git complains about revs that
+	// could also be the name of a file.
+	args := slices.Concat(
+		baseArgs,
+		filterArgs,
+		revs,
+		[]string{"--"},
+		pathspecs,
+	)
 
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
-- 
2.43.0


From 3d23e4e10308af72bf5b56f8637999a7c86de7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 28/39] fix: tree did not line up next to paths with wide
 characters

---
 internal/subcommands/tree.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 14f8e13..f840944 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -9,7 +9,8 @@ import (
 	"runtime"
 	"slices"
 	"strings"
-	"unicode/utf8"
+
+	runewidth "github.com/mattn/go-runewidth"
 
 	"github.com/sinclairtarget/git-who/internal/cache"
 	"github.com/sinclairtarget/git-who/internal/concurrent"
@@ -348,8 +349,8 @@ func fmtTallyMetric(t tally.FinalTally, opts printTreeOpts) string {
 func printTree(lines []treeOutputLine, showEmail bool) {
 	longest := 0
 	for _, line := range lines {
-		indentLen := utf8.RuneCountInString(line.indent)
-		pathLen := utf8.RuneCountInString(line.path)
+		indentLen := runewidth.StringWidth(line.indent)
+		pathLen := runewidth.StringWidth(line.path)
 		if indentLen+pathLen > longest {
 			longest = indentLen + pathLen
 		}
@@ -381,8 +382,8 @@ func printTree(lines []treeOutputLine, showEmail bool) {
 			author = format.Abbrev(line.tally.AuthorName, 25)
 		}
 
-		indentLen := utf8.RuneCountInString(line.indent)
-		pathLen := utf8.RuneCountInString(line.path)
+		indentLen := runewidth.StringWidth(line.indent)
+		pathLen := runewidth.StringWidth(line.path)
 		separator := strings.Repeat(".", tallyStart-indentLen-pathLen)
 
 		if line.dimTally {
-- 
2.43.0


From 480abc0ec1ea751dfc90c055281baf283b984515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 29/39] fix: tree was empty in directories reached through a
 symlink

---
 internal/tally/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tally/tree.go b/internal/tally/tree.go
index 7dbfbd2..0992c16 100644
--- a/internal/tally/tree.go
+++ b/internal/tally/tree.go
@@ -123,6 +123,12 @@ func TallyCommitsTreeFromPaths(
 		return root, err
 	}
 
+	// Git gives us the path of the root with symlinks resolved
+	wd, err = filepath.EvalSymlinks(wd)
+	if err != nil {
+		return root, err
+	}
+
 	// Build tree
 	for key, pathTallies := range talliesByPath {
 		for p, tally := range pathTallies {
-- 
2.43.0


From 5e37e7f690db96f86bc9f389008e788f6dc924e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:49 +0000
Subject: [PATCH 30/39] fix: tree was empty in repos whose path ends in a space

---
 internal/git/cmd/subprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index ce5dec3..3d18e15 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -52,7 +52,7 @@ func (s Subprocess) StdoutText() (string, error) {
 		return "", err
 	}
 
-	return strings.TrimSpace(string(b)), nil
+	return strings.TrimSuffix(string(b), "\n"), nil
 }
 
 // Returns a single-use iterator over the output of the command, line by line.
-- 
2.43.0


From b03b79c9202c31e2aa9f06e8d3924ecc210f7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 31/39] fix: --author ignored the mailmap in parallel runs

Parallel runs list their commits with git rev-list, which compares --author
with the recorded identities. Sequential runs use git log, which compares it
with the mailmapped ones. List commits with git log as well.
---
 internal/concurrent/concurrent.go |  8 +++++++-
 internal/git/cmd/cmd.go           | 17 ++++++++++++-----
 internal/git/git.go               |  3 ++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index ba720c5..ab92508 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -149,7 +149,13 @@ func tallyFanOutFanIn[T combinable[T]](
 	var accumulator T
 
 	// -- Get rev list ---------------------------------------------------------
-	revs, err := git.RevList(ctx, whop.revspec, whop.pathspecs, whop.filters)
+	revs, err := git.RevList(
+		ctx,
+		whop.revspec,
+		whop.pathspecs,
+		whop.filters,
+		whop.useMailmap,
+	)
 	if err != nil {
 		return accumulator, err
 	}
diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index 2249053..f5fcc83 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -166,22 +166,29 @@ func RunRevParsePrefix(ctx context.Context) (*Subprocess, error) {
 	return subprocess, nil
 }
 
-// Runs git rev-list. When countOnly is true, passes --count, which is much
-// faster than printing then getting all the revisions when all you need is the
-// count.
+// Lists revisions using git log rather than git rev-list. Only git log takes the
+// mailmap into account when limiting commits by author, so git rev-list could
+// give us different commits than RunLog() does.
 func RunRevList(
 	ctx context.Context,
 	revs []string,
 	pathspecs []string,
 	filters LogFilters,
+	useMailmap bool,
 ) (*Subprocess, error) {
 	if len(revs) == 0 {
 		return nil, errors.New("git rev-list requires revision spec")
 	}
 
 	baseArgs := []string{
-		"rev-list",
+		"log",
+		"--pretty=format:%H",
 		"--reverse",
+		"--no-show-signature",
+	}
+
+	if !useMailmap {
+		baseArgs = append(baseArgs, "--no-mailmap")
 	}
 
 	filterArgs := filters.ToArgs()
@@ -199,7 +206,7 @@ func RunRevList(
 	needStdin := false
 	subprocess, err := run(ctx, args, needStdin)
 	if err != nil {
-		return nil, fmt.Errorf("failed to run git rev-list: %w", err)
+		return nil, fmt.Errorf("failed to list revisions: %w", err)
 	}
 
 	return subprocess, nil
diff --git a/internal/git/git.go b/internal/git/git.go
index 7fbfbc7..2fe4866 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -119,6 +119,7 @@ func RevList(
 	revranges []string,
 	pathspecs []string,
 	filters cmd.LogFilters,
+	useMailmap bool,
 ) (_ []string, err error) {
 	defer func() {
 		if err != nil {
@@ -128,7 +129,7 @@ func RevList(
 
 	revs := []string{}
 
-	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters)
+	subprocess, err := cmd.RunRevList(ctx, revranges, pathspecs, filters, useMailmap)
 	if err != nil {
 		return revs, err
 	}
-- 
2.43.0


From a8a8d45c7c4b2ca5d6226ca2979eaaa8a58189fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:25 +0000
Subject: [PATCH 32/39] fix: hang when Git writes many warnings to stderr

---
 internal/git/cmd/subprocess.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 3d18e15..59a5d26 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -37,7 +37,7 @@ type Subprocess struct {
 	cmd    *exec.Cmd
 	stdin  io.WriteCloser
 	stdout io.ReadCloser
-	stderr io.ReadCloser
+	stderr *bytes.Buffer
 }
 
 func (s Subprocess) StdinWriter() (_ *bufio.Writer, closer func() error) {
@@ -136,12 +136,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 func (s Subprocess) Wait() error {
 	logger().Debug("waiting for subprocess...")
 
-	stderr, err := io.ReadAll(s.stderr)
-	if err != nil {
-		return fmt.Errorf("could not read stderr: %w", err)
-	}
-
-	err = s.cmd.Wait()
+	err := s.cmd.Wait()
 	logger().Debug(
 		"subprocess exited",
 		"code",
@@ -151,7 +146,7 @@ func (s Subprocess) Wait() error {
 	if err != nil {
 		return &SubprocessErr{
 			ExitCode: s.cmd.ProcessState.ExitCode(),
-			Stderr:   strings.TrimSpace(string(stderr)),
+			Stderr:   strings.TrimSpace(s.stderr.String()),
 			Err:      err,
 		}
 	}
@@ -172,10 +167,10 @@ func run(
 		return nil, fmt.Errorf("failed to open stdout pipe: %w", err)
 	}
 
-	stderr, err := cmd.StderrPipe()
-	if err != nil {
-		return nil, fmt.Errorf("failed to open stderr pipe: %w", err)
-	}
+	// Collected while the subprocess runs. If we left it in a pipe until we had
+	// read all of stdout, Git could block on a full pipe and never finish.
+	var stderr bytes.Buffer
+	cmd.Stderr = &stderr
 
 	var stdin io.WriteCloser
 	if needStdin {
@@ -194,6 +189,6 @@ func run(
 		cmd:    cmd,
 		stdin:  stdin,
 		stdout: stdout,
-		stderr: stderr,
+		stderr: &stderr,
 	}, nil
 }
-- 
2.43.0


From fa351be6e13ac17c19eeb3d04838b252bfef8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:04 +0000
Subject: [PATCH 33/39] fix: mailmaps split differently over two files shared a
 cache

---
 internal/git/config/files.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index cb05e0b..5025b07 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -52,6 +52,12 @@ func (sf SupplementalFiles) MailmapHash(h hash.Hash32) error {
 			}
 			defer f.Close()
 
+			// Keep the end of the one file apart from the start of the other
+			_, err = h.Write([]byte{'\n'})
+			if err != nil {
+				return fmt.Errorf("error hashing global mailmap file: %v", err)
+			}
+
 			_, err = io.Copy(h, f)
 			if err != nil {
 				return fmt.Errorf("error hashing global mailmap file: %v", err)
-- 
2.43.0


From bfee76337b4ecd533fa0c1e57916c7cc58446f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:01 +0000
Subject: [PATCH 34/39] fix: clearing a corrupt cache could make another
 process fail

---
 internal/cache/backends/gob.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 2bdb3b9..5b81e24 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -245,7 +245,21 @@ func (b *GobBackend) Add(commits []git.Commit) (err error) {
 }
 
 func (b *GobBackend) Clear() error {
-	err := os.RemoveAll(b.Dir)
+	// Keep the directory itself, since another git-who process could be about
+	// to write to the cache
+	entries, err := os.ReadDir(b.Dir)
+	if err == nil {
+		for _, entry := range entries {
+			err := os.RemoveAll(filepath.Join(b.Dir, entry.Name()))
+			if err != nil {
+				return err
+			}
+		}
+
+		return nil
+	}
+
+	err = os.RemoveAll(b.Dir)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 84be17938a3ecdb7106739aa3ed8a33866ca4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:22 +0000
Subject: [PATCH 35/39] fix: wait for the cacher before closing the cache

On an early return (a git process failed, say) the cache was closed while the
cacher could still be adding commits to it.
---
 internal/concurrent/concurrent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index ab92508..54f2f91 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -277,6 +277,13 @@ func tallyFanOutFanIn[T combinable[T]](
 		return results, errs, cacheErr
 	}()
 
+	// On an early return, the cacher has to be done before we close the cache
+	defer func() {
+		cancel()
+		for range cacheErr {
+		}
+	}()
+
 	// -- Join -----------------------------------------------------------------
 	// Read and combine results until results channel is closed, context is
 	// cancelled, or we get a worker error
-- 
2.43.0


From b121015a990c00978228e6cd3baa0cfbc454197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 36/39] fix: paths that begin with a newline were read without
 it

---
 internal/git/cmd/subprocess.go | 9 ++-------
 internal/git/parse.go          | 6 ++++++
 internal/subcommands/dump.go   | 2 ++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/git/cmd/subprocess.go b/internal/git/cmd/subprocess.go
index 59a5d26..5935bb4 100644
--- a/internal/git/cmd/subprocess.go
+++ b/internal/git/cmd/subprocess.go
@@ -83,7 +83,7 @@ func (s Subprocess) StdoutLines() (iter.Seq[string], func() error) {
 
 // Returns a single-use iterator over the output from git log.
 //
-// Lines are split on NULLs with some additional processing.
+// Lines are split on NULLs and nothing else: a path may begin with a newline.
 func (s Subprocess) StdoutNullDelimitedLines() (
 	iter.Seq[string],
 	func() error,
@@ -109,12 +109,7 @@ func (s Subprocess) StdoutNullDelimitedLines() (
 
 		for scanner.Scan() {
 			line := scanner.Text()
-
-			// Handle annoying new line that exists between regular commit
-			// fields and --numstat data
-			processedLine := strings.TrimPrefix(line, "\n")
-
-			if !yield(processedLine) {
+			if !yield(line) {
 				return
 			}
 		}
diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4e64b17..d36a73b 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,6 +65,12 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
+			if linesThisCommit == 6 {
+				// Handle annoying new line that exists between regular commit
+				// fields and --numstat data
+				line = strings.TrimPrefix(line, "\n")
+			}
+
 			// While diff is not nil we are expecting the paths of a rename
 			done := linesThisCommit >= 6 &&
 				diff == nil &&
diff --git a/internal/subcommands/dump.go b/internal/subcommands/dump.go
index ca74650..05ea8f9 100644
--- a/internal/subcommands/dump.go
+++ b/internal/subcommands/dump.go
@@ -85,6 +85,8 @@ func Dump(
 
 	lines, finish := subprocess.StdoutNullDelimitedLines()
 	for line := range lines {
+		// New line between regular commit fields and --numstat data
+		line = strings.TrimPrefix(line, "\n")
 		lineWithReplaced := strings.ReplaceAll(line, "\n", "\\n")
 		fmt.Fprintln(w, lineWithReplaced)
 	}
-- 
2.43.0


From 4ee423f2cf50375e97d89b3c8133881e080bfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 37/39] fix: tree of a single file did not name an author
 without an email

---
 internal/subcommands/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index f840944..f67311c 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -266,6 +266,9 @@ func toLines(
 
 	newAuthor := opts.key(node.Tally) != lastAuthor
 	line.showTally = opts.showHidden || newAuthor || len(node.Children) > 0
+	if len(isFinalChild) == 0 {
+		line.showTally = true // No line above this one that names an author
+	}
 
 	lines = append(lines, line)
 
-- 
2.43.0


From 6a723c4aa8b7fd5dab33fdaab1bc94e7b1ce7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 38/39] fix: parse did not notice that its output could not be
 written

---
 internal/subcommands/parse.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/subcommands/parse.go b/internal/subcommands/parse.go
index 606274b..4214f20 100644
--- a/internal/subcommands/parse.go
+++ b/internal/subcommands/parse.go
@@ -92,14 +92,21 @@ func Parse(
 		numCommits += 1
 	}
 
-	w.Flush()
+	flushErr := w.Flush()
 
 	err = finish()
 	if err != nil {
 		return err
 	}
 
-	fmt.Printf("Parsed %d commits.\n", numCommits)
+	if flushErr != nil {
+		return flushErr
+	}
+
+	_, err = fmt.Printf("Parsed %d commits.\n", numCommits)
+	if err != nil {
+		return err
+	}
 
 	elapsed := time.Now().Sub(start)
 	logger().Debug("finished parse", "duration_ms", elapsed.Milliseconds())
-- 
2.43.0


From f6a8f57c250dd0d06a27340948c11ccc28aac437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:09 +0000
Subject: [PATCH 39/39] fix: revisions were not recognized in SHA-256
 repositories

---
 internal/git/revision/revision.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 080eb7f..ad6d0a1 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,7 +7,8 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
+	// SHA-1 or SHA-256
+	commitHashRegexp = regexp.MustCompile(`^\^?([a-f0-9]{40}|[a-f0-9]{64})$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
-- 
2.43.0

