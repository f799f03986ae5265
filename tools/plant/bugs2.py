T='internal/tally/'; G='internal/git/'; C='internal/concurrent/'; S='internal/subcommands/'; B='internal/cache/backends/'
BUGS=[]
def bug(id,property,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))

bug('c01-tabs','C01',[(G+'parse.go','strings.SplitN(line, "\\t", 3)','strings.Split(line, "\\t")')],
'a file with a tab in its name',
'Histories with such a file are refused as malformed.',
r'''
echo a > $'a\tb'; ci Al al@x 900
has "tab" "$(serial table --csv -l)" "Al,1,1,0,1,"
''')

bug('c02-scanerr','C02',[(G+'cmd/subprocess.go','''			if !yield(processedLine) {
				return
			}
		}

		iterErr = scanner.Err()''','''			if !yield(processedLine) {
				return
			}
		}

		if err := scanner.Err(); err != bufio.ErrTooLong {
			iterErr = err
		}''')],
'a field longer than the read buffer (64 KB) in the output of git log, which git goes on to print completely',
'The rest of the history after an overlong field is silently left out.',
r'''
echo b > b; ci Bo bo@x 900; 
n=$(head -c 70000 /dev/zero | tr '\0' n)
printf 'tree %s\nparent %s\nauthor %s <n@x> %s +0000\ncommitter N <n@x> %s +0000\n\nm\n' $(git write-tree) $(git rev-parse HEAD) "$n" $((NOW-500)) $((NOW-500)) > "$D/c"
git reset -q --hard $(git hash-object -t commit -w "$D/c")
echo c > c; ci Cy cy@x 100
set +e; out=$(serial table --csv 2>/dev/null); set -e
case "$out" in *Bo*) has "all or nothing" "$out" Cy;; esac
''')

bug('c03-signal','C03',[(G+'cmd/subprocess.go','''	if err != nil {
		return &SubprocessErr{''','''	if err != nil && s.cmd.ProcessState.ExitCode() > 0 {
		return &SubprocessErr{''')],
'git being killed by a signal half way',
'A git killed by a signal counts as one that ended well, so that a part of the history is reported.',
r'''
for i in 1 2 3; do echo $i > f$i; ci Al$i al$i@x $((900-i)); done
fakegit <<'S'
if [ "$1" = log ]; then "$REALGIT" "$@" | head -c 160; kill -KILL $$; else exec "$REALGIT" "$@"; fi
S
if out=$(serial table --csv 2>/dev/null; exit ${PIPESTATUS[0]}); then :; fi
if GOMAXPROCS=1 "$BIN" table --csv > "$D/o" 2>/dev/null; then die "exit 0: $(cat "$D/o")"; fi
''')

bug('c03-lsfiles','C03',[(G+'git.go','''	err = subprocess.Wait()
	if err != nil {
		return wtreeset, err
	}
''','''	err = subprocess.Wait()
	if err != nil && len(wtreeset) == 0 {
		return wtreeset, err
	}
''')],
'git ls-files failing after it printed some files',
'tree hides the files that git ls-files had no time to print, and exits with 0.',
r'''
echo a > a; echo b > b; ci Al al@x 900
fakegit <<'S'
if [ "$1" = ls-files ]; then "$REALGIT" "$@" | head -c 2; echo boom >&2; exit 128; else exec "$REALGIT" "$@"; fi
S
for n in 1 4; do if GOMAXPROCS=$n "$BIN" tree > "$D/o" 2>/dev/null; then die "exit 0: $(cat "$D/o")"; fi; done
''')

bug('c04-rename','C04',[(G+'parse.go','''					if len(diff.Path) > 0 {
						diff.Path = line
						commit''','''					if len(diff.Path) > 0 {
						if diff.LinesAdded+diff.LinesRemoved > 0 || len(commit.FileDiffs) == 0 {
							diff.Path = line
						}
						commit''')],
'a file renamed without any change to its lines, in a commit that changes other files too',
'Pure renames are counted under the old path.',
r'''
for i in 1 2 3 4 5 6; do echo line $i; done > a; ci Al al@x 900
git mv a b; echo 0 > 0; ci Al al@x 800
has "three files" "$(serial table --csv -f)" "Al,2,7,0,3,"
has "new name" "$(serial tree)" "b"
''')

bug('c06-more','C06',[(S+'table.go','''		numFilteredOut = len(rankedTallies) - limit
		rankedTallies = rankedTallies[:limit]''','''		rankedTallies = rankedTallies[:limit:limit]
		numFilteredOut = cap(rankedTallies) - limit''')],
'more authors than the limit of rows',
'The row that says how many authors were left out is missing.',
r'''
for i in 1 2 3; do echo $i > f; ci Al$i al$i@x $((900-i)); done
has "more" "$(serial table -n 2)" "...1 more..."
''')

bug('c06-seconds','C06',[(T+'tally.go','return -t.FirstCommitTime.Unix()','return -t.FirstCommitTime.Unix() / 60')],
'two authors whose first commits are less than a minute apart, in one minute of the clock',
'Sorting by first edit compares minutes only.',
r'''
T0=$((NOW/60*60-600))
for p in "Zed 2" "Al 30"; do set -- $p; echo $1 > $1; ci $1 $1@x $((NOW-T0-$2)); done
same "order" "$(serial table --csv -c | cut -d, -f1 | tail -n +2 | tr '\n' ' ')" "Zed Al "
''')

bug('c07-filedir','C07',[(T+'tree.go','''	if len(t.Children) > 0 {
		// Recursively''','''	if len(t.Children) > 0 {
		t.tallies = map[string]Tally{} // Not a leaf
		// Recursively''')],
'a path that was once a file and is now a directory',
'The commits to the former file are left out of the numbers of the directory.',
r'''
for i in 1 2 3; do echo $i > a; ci Al al@x $((9000-i)); done
rm a; mkdir a; echo x > a/x; echo y > a/y; ci Bo bo@x 800
echo z > z; ci Cy cy@x 700
has "directory" "$(serial tree | grep 'a/')" "Al (3)"
''')

bug('c07-email','C07',[(S+'tree.go','newAuthor := opts.key(node.Tally) != lastAuthor','newAuthor := node.Tally.AuthorName != lastAuthor')],
'two authors of one name told apart by email (-e), or the other way round',
'With -e, whether a file needs its own annotation is decided by comparing a name with an email.',
r'''
mkdir d; for i in 1 2 3; do echo $i > d/a; ci Al al@x $((9000-i)); done; echo b > d/b; ci Al al@x 800
same "one annotation" "$(serial tree -e | grep -c al@x)" 1
''')

bug('c08-single','C08',[(S+'tree.go','aHasChildren := len(node.Children[a].Children) > 0','aHasChildren := len(node.Children[a].Children) > 1')],
'a directory with a single entry that sorts after a file',
'Directories that are joined with their only child are listed among the files when compared from one side.',
r'''
mkdir z; echo a > a; echo b > z/b; ci Al al@x 900
want=$(printf './..........Al (1)\n├── z/b\n└── a')
same "directories first" "$(serial tree | sed 's/\.\.\.*Al/..........Al/')" "$(printf './..........Al (1)\n├── z/b\n└── a')"
''')

bug('c08-hiddenlast','C08',[(S+'tree.go','''		if child.InWorkTree || opts.showHidden {
			finalChildIndex = i
		}''','''		if child.InWorkTree || opts.showHidden || len(child.Children) > 0 {
			finalChildIndex = i
		}''')],
'a directory whose files were all deleted, sorted last among those shown',
'The connector of the last shown entry is drawn as if another entry followed.',
r'''
mkdir x y; echo a > x/a; echo c > x/c; echo b > y/b; echo d > y/d; ci Al al@x 900
git rm -q -r y; ci Al al@x 800
has "connector" "$(serial tree)" "└── c"
hasnt "connector" "$(serial tree)" "├── x"
''')

bug('c09-utc','C09',[(T+'bucket.go','return applyDaily(t).Format(time.DateOnly)','return applyDaily(t).UTC().Format(time.DateOnly)')],
'a time zone east of Greenwich',
'Days are labelled with the date before.',
r'''
echo a > a; ci Al al@x 90000; echo a > b; ci Al al@x 100
export TZ=Asia/Tokyo
same "label" "$(serial hist | tail -1 | cut -c1-10)" "$(date +%F)"
''')

bug('c10-totalwinner','C10',[(S+'hist.go','''		if bucket.TotalValue(mode) > maxVal {
			maxVal = bucket.TotalValue(mode)
		}''','''		if bucket.Value(mode) > maxVal {
			maxVal = bucket.TotalValue(mode)
		}''')],
'a period whose total is the largest although its leader alone did less than another',
'Bars are scaled by a smaller total, so that the longest one overflows its column.',
r'''
mk() { seq $2 > $1; }
mk b 60; ci Al al@x $((86400*3))
mk a 40; ci Al al@x 86400
mk c 30; mk d 1; ci Bo bo@x $((86400-10))
mk e 30; ci Cy cy@x $((86400-20))
mk g 30; ci Di di@x $((86400-30))
w=$(serial hist -l | sed 's/^[^┤]*┤ //' | grep -o '^[#-]*' | awk '{if(length>m)m=length}END{print m}')
same "longest bar" "$w" 36
''')

bug('c12-cacher','C12',[(C+'worker.go','''			err := cache.Add(commits)
			if err != nil {
				return err
			}''','''			err := cache.Add(commits)
			if err != nil {
				// Losing the cache is no reason to stop
				logger().Warn(fmt.Sprintf("not caching: %v", err))
				return nil
			}''')],
'the cache becoming unusable while a parallel run is going on, with more than one unit of work left',
'Nobody takes commits to be cached any more, so that the run never ends.',
r'''
many 5000 Al al@x
fakegit <<'S'
case " $* " in *" --stdin "*) rm -rf "$XDG_CACHE_HOME/git-who"; touch "$XDG_CACHE_HOME/git-who";; esac
exec "$REALGIT" "$@"
S
rc=0; GOMAXPROCS=4 timeout 20 "$BIN" table -l > "$D/o" 2>&1 || rc=$?
[ $rc -lt 100 ] || die "never ended"
grep -q "all goroutines are asleep" "$D/o" && die deadlock
true
''')

bug('c13-paths','C13',[(C+'worker.go','nopaths := []string{}','nopaths := whop.pathspecs')],
'a run limited to a path, and then a run without',
'Commits are cached without the files outside the path, which later runs then do not count.',
r'''
echo a > a; echo b > b; ci Al al@x 900; echo c > c; ci Bo bo@x 800
parallel table -l -- a > /dev/null
same "after a run with a path" "$(parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c14-checksum','C14',[(B+'gob.go','''	w := bufio.NewWriter(fout)
	_, err = io.Copy(w, zr)
	if err != nil {
		return err
	}

	err = zr.Close()
	if err != nil {
		return err
	}

	err = w.Flush()
	if err != nil {
		return err
	}
''','''	_, err = io.Copy(fout, zr)
	if err != nil && !errors.Is(err, gzip.ErrChecksum) {
		return err
	}
''')],
'a stored cache file whose contents were damaged so that its sum does not match',
'Damaged data is used: names and counts in the report come out changed.',
r'''
echo a > a; ci Alonso al@x 900; echo b > b; ci Bo bo@x 800
parallel table -l > /dev/null
python3 - "$D/cache" <<'P'
import sys,glob,gzip,zlib,struct
f,=glob.glob(sys.argv[1]+'/git-who/gob/*/*.gz')
d=gzip.open(f).read(); assert b'Alonso' in d
e=d.replace(b'Alonso',b'Olonso')
c=zlib.compressobj(1,zlib.DEFLATED,-15); z=c.compress(e)+c.flush()
open(f,'wb').write(b'\x1f\x8b\x08\0\0\0\0\0\0\xff'+z+struct.pack('<II',zlib.crc32(d),len(d)))
P
same "after damage" "$(parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c15-longmap','C15',[(G+'config/files.go','''			_, err = io.Copy(h, f)
			if err != nil {
				return fmt.Errorf("error hashing repo mailmap file: %v", err)
			}''','''			_, err = io.CopyN(h, f, 32*1024)
			if err != nil && err != io.EOF {
				return fmt.Errorf("error hashing repo mailmap file: %v", err)
			}''')],
'a change past the first 32 KB of a mailmap, after a run that filled the cache',
'Only the beginning of a mailmap decides whether the cache is still good, so that names from before the change are shown.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800
for i in $(seq 1500); do echo "Nobody Number $i <nobody$i@example.org>"; done > .mailmap
parallel table -l > /dev/null
echo "Zed <al@x>" >> .mailmap
same "changed mailmap" "$(parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c17-tree','C17',[(C+'concurrent.go','''		useMailmap: configFiles.HasMailmap(),
		ignoreRevs: ignoreRevs,
		tally:      tally.TallyCommitsByPath,
		opts:       opts,
	}

	talliesByPath, err := tallyFanOutFanIn[tally.TalliesByPath](
		ctx,
		whop,
		cache,
		allowProgressBar,
	)
	if err != nil {
		return nil, err
	}

	return tally''','''		useMailmap: configFiles.HasMailmap(),
		tally:      tally.TallyCommitsByPath,
		opts:       opts,
	}
	_ = ignoreRevs

	talliesByPath, err := tallyFanOutFanIn[tally.TalliesByPath](
		ctx,
		whop,
		cache,
		allowProgressBar,
	)
	if err != nil {
		return nil, err
	}

	return tally''')],
'tree in a parallel run of a repository with an ignore file',
'tree counts ignored revisions.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800
git rev-parse HEAD > .git-blame-ignore-revs
same "ignored" "$(parallel tree)" "$(serial tree)"
''')

bug('c17-comment','C17',[(G+'config/files.go','	for scanner.Scan() {','	for scanner.Scan() && (len(revs) == 0 || len(scanner.Text()) > 0) {')],
'an ignore file with an empty line between two revisions',
'Revisions after an empty line are not ignored.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800; echo c > c; ci Cy cy@x 700
(git rev-parse HEAD; echo; git rev-parse HEAD~1) > .git-blame-ignore-revs
hasnt "ignored" "$(serial table --csv)" "Bo"
''')

bug('c18-stdin','C18',[(G+'cmd/cmd.go','''			mailmapLogFormat,
			"-z",
			"--date=unix",
			"--reverse",
			"--no-show-signature",
			"--stdin",''','''			logFormat,
			"-z",
			"--date=unix",
			"--reverse",
			"--no-show-signature",
			"--stdin",''')],
'a mailmap, in a parallel run that needs files or lines',
'Parallel runs show the recorded identities.',
r'''
echo a > a; ci Al al@x 900; echo 'Zed <al@x>' > .mailmap
same "mailmap" "$(parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c19-backslash','C19',[(G+'args.go','filepath.ToSlash(line)','strings.ReplaceAll(line, "\\\\", "/")'),(G+'args.go','''	"path/filepath"
''','''	"strings"
''')],
'a path with a backslash in its name',
'A backslash in a path is taken for a separator on every system.',
r'''
echo x > 'a\b'; ci Al al@x 900; mkdir a; echo y > a/b; ci Bo bo@x 800
has "backslash" "$(serial table --csv -- ':(exclude)a/b' )" "Al"
out=$(serial table --csv -l -- 'a\\b')
has "backslash" "$out" "Al"; hasnt "backslash" "$out" "Bo"
''')

bug('c19-version','C19',[('main.go','''		if subcommand, ok := subcommands[first]; ok {''','''		_, statErr := os.Stat(first)
		if subcommand, ok := subcommands[first]; ok && (statErr != nil || len(args) > 1) {''')],
'a file or directory in the working directory that has the name of a subcommand',
'"git who tree" shows a table of the file named tree instead of the tree.',
r'''
echo a > tree; echo b > b; ci Al al@x 900
has "tree" "$(serial tree)" "├── b"
''')

bug('c20-comma','C20',[('internal/utils/flagutils/flag.go','*s = append(*s, value)','*s = append(*s, strings.Split(value, ",")...)'),('internal/utils/flagutils/flag.go','import "fmt"','import (\n\t"fmt"\n\t"strings"\n)')],
'a pattern with a comma',
'A comma in a pattern separates alternatives, so that "Doe, J" keeps every author with a J after a blank or with Doe.',
r'''
echo a > a; ci "Doe, Jim" al@x 900; echo b > b; ci "Doe, Kim" bo@x 800
hasnt "comma" "$(serial table --csv --author 'Doe, J')" "Kim"
has "comma" "$(serial table --csv --nauthor 'Doe, J')" "Kim"
''')

bug('c20-histuntil','C20',[(S+'hist.go','''		Since:    since,
		Until:    until,
		Authors:  authors,
		Nauthors: nauthors,
	}

	var end''','''		Since:    since,
		Authors:  authors,
		Nauthors: nauthors,
	}
	if populateDiffs || len(since) == 0 {
		filters.Until = until
	}

	var end''')],
'hist by commits with --since and --until together',
'--until has no effect.',
r'''
echo a > a; ci Al al@x $((86400*9)); echo b > b; ci Bo bo@x $((86400*5)); echo c > c; ci Cy cy@x 8000
hasnt "until" "$(serial hist --since "$((NOW-86400*20))" --until "$((NOW-86400*3))")" "Cy"
''')

bug('c22-round','C22',[('internal/format/format.go','minutes := int(duration / time.Minute)','minutes := int(duration.Round(time.Minute) / time.Minute)')],
'an age within half a minute below an hour',
'"60 min. ago" is printed, and other ages are one minute too high.',
r'''
echo a > a; ci Al al@x 45
has "minutes" "$(serial table)" "0 min. ago"
''')

bug('c23-emailcut','C23',[(S+'table.go','''			"%s %s",
			t.AuthorName,
			format''','''			"%s %s",
			format.Abbrev(t.AuthorName, width),
			format'''),(S+'table.go','''	author = format.Abbrev(author, width)
	return''','''	if !showEmail {
		author = format.Abbrev(author, width)
	}
	return''')],
'a name and an email that together exceed the column',
'Rows of authors with a long name and email are wider than the table.',
r'''
echo a > a; ci "A Somewhat Long Name Indeed" "and-a-rather-long-address@example.org" 900; echo b > b; ci Bo bo@x 800
same "one width" "$(serial table -e | python3 -c 'import sys
for l in sys.stdin: print(len(l))' | sort -u | wc -l)" 1
''')

bug('c24-quote','C24',[(S+'table.go','record := []string{t.AuthorName}','record := []string{strings.ReplaceAll(t.AuthorName, "\\"", "\\"\\"")}')],
'a double quote in the name of an author',
'Quotes are doubled twice in CSV output.',
r'''
echo a > a; ci 'Al "Q" B' al@x 900
has "quotes" "$(serial table --csv)" '"Al ""Q"" B",1,'
''')

bug('c25-session','C25',[(B+'gob.go','''	b.isDirty = true

	f, err''','''	_, statErr := os.Stat(b.Path)
	b.isDirty = b.isDirty || errors.Is(statErr, fs.ErrNotExist)

	f, err''')],
'commits added to a cache that already holds some',
'Only the first run over a repository is cached; what later ones add is lost.',
r'''
echo a > a; ci Al al@x 900; parallel table -l > /dev/null
echo b > b; ci Bo bo@x 800; parallel table -l > /dev/null
export CALLS=$D/calls
fakegit <<'S'
case " $* " in *" --stdin "*) echo x >> "$CALLS";; esac
exec "$REALGIT" "$@"
S
parallel table -l > /dev/null
[ ! -e "$CALLS" ] || die "commits were not cached"
''')

bug('c26-histtie','C26',[(T+'bucket.go','''		b.Tally = Rank(b.tallies, mode)[0]

''','''		first := true
		for _, tally := range b.tallies {
			final := tally.Final()
			if first || final.SortKey(mode) > b.Tally.SortKey(mode) {
				b.Tally = final
				first = false
			}
		}

''')],
'two authors with equal numbers in one period of hist',
'Which of the two is shown changes from run to run.',
r'''
for p in Al Bo Cy Di; do echo $p > $p; ci $p $p@x 8000; done
a=$(serial hist | head -1)
for i in $(seq 30); do same "run $i" "$(serial hist | head -1)" "$a"; done
''')

bug('c26-treetie','C26',[(T+'tally.go','''		return -a.Compare(b, mode)''','''		return cmp.Or(
			cmp.Compare(b.SortKey(mode), a.SortKey(mode)),
			b.LastCommitTime.Compare(a.LastCommitTime),
		)''')],
'two authors with equal numbers and the same time of their last commit',
'Their order changes from run to run.',
r'''
for p in Al Bo Cy Di; do echo $p > $p; ci $p $p@x 8000; done
a=$(serial table --csv -c)
for i in $(seq 30); do same "run $i" "$(serial table --csv -c)" "$a"; done
''')

bug('c27-treemagic','C27',[('main.go','''			err = checkPathspecs(pathspecs)
			if err != nil {
				return err
			}

			if !isOnlyOne(
				*useLines,
				*useFiles,
				*useLastModified,''','''			if len(pathspecs) > 1 {
				err = checkPathspecs(pathspecs)
				if err != nil {
					return err
				}
			}

			if !isOnlyOne(
				*useLines,
				*useFiles,
				*useLastModified,''')],
'tree with a single path that uses magic git-who does not support, in a sequential run',
'The request is not refused.',
r'''
echo a > a; ci Al al@x 900
if GOMAXPROCS=1 "$BIN" tree -- ':(icase)A' > "$D/o" 2>/dev/null; then die "accepted: $(cat "$D/o")"; fi
''')

bug('c11-acc','C11',[(C+'worker.go','''loop:
	for {
		select {
		case <-ctx.Done():
			return errors.New("worker cancelled")''','''	var sum T

loop:
	for {
		select {
		case <-ctx.Done():
			return errors.New("worker cancelled")'''),(C+'worker.go','			results <- result','			sum = sum.Combine(result)\n			results <- sum')],
'more units of work than workers, so that a worker handles two of them',
'A worker that handles several parts of the history reports the earlier ones again.',
r'''
many 5000 Al al@x
for i in 1 2 3; do same "lines" "$(GIT_WHO_DISABLE_CACHE=1 GOMAXPROCS=2 who table --csv -l)" "$(serial table --csv -l)"; done
''')

bug('c13-inplace','C13',[(G+'git.go','			filtered := []FileDiff{}','			filtered := commit.FileDiffs[:0]')],
'a run limited to a path whose commits touch other files first, and then a run without',
'Limiting the files of a commit to a path overwrites them in the commit that is cached as well.',
r'''
echo a > a; echo b > b; echo c > c; ci Al al@x 900; printf 'x\ny\n' > z; echo 0 > 0; ci Bo bo@x 800
parallel table -l -- b z > /dev/null
same "after a run with a path" "$(parallel table --csv -l)" "$(serial table --csv -l)"
same "tree" "$(parallel tree)" "$(serial tree)"
''')

bug('c16-incldir','C16',[(G+'pathspec.go','includes = append(includes, p)','includes = append(includes, strings.TrimSuffix(p, "/"))')],
'a path with a trailing slash, and a file of that name in the history',
'"foo/" also counts a file named foo, in commits that touch both.',
r'''
echo a > foo; ci Al al@x 900; rm foo; mkdir foo; echo c > foo/x; echo d > foo/y; ci Bo bo@x 800
same "files" "$(parallel table --csv -l -- foo/)" "$(serial table --csv -l -- foo/)"
''')

bug('c09-firstday','C09',[(T+'bucket.go','''		if bucketedCommitTime.Before(minTime) {
			minTime = bucketedCommitTime
		}''','''		if bucketedCommitTime.Before(minTime) && commit.Date.Unix() > 0 {
			minTime = bucketedCommitTime
		}''')],
'a commit dated before 1970 (or at the epoch)',
'Commits before 1970 are left out of the timeline.',
r'''
echo a > a; git add -A
printf 'tree %s\nauthor Al <al@x> 0 +0000\ncommitter Al <al@x> 0 +0000\n\nm\n' $(git write-tree) > "$D/c"
git reset -q --hard $(git hash-object -t commit -w "$D/c")
echo b > b; ci Bo bo@x 86400
has "first year" "$(serial hist | head -1)" "1970 ┤ #"
''')

bug('c10-fadeempty','C10',[(S+'hist.go','bucket.Tally.AuthorName == lastAuthor,','len(lastAuthor) > 0 && strings.HasPrefix(bucket.Tally.AuthorName, lastAuthor),')],
'an author whose name begins with that of the leader before him',
'The leader is drawn as unchanged when he is not.',
r'''
echo a > a; ci Al al@x $((86400*2)); echo b > b; ci Alice ali@x 86400
GOMAXPROCS=1 "$BIN" hist > "$D/o"
grep Alice "$D/o" | grep -q $'\x1b\[2mAlice' && die "Alice is dimmed"
true
''')

