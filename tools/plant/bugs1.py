T='internal/tally/'; G='internal/git/'; C='internal/concurrent/'; S='internal/subcommands/'; B='internal/cache/backends/'
BUGS=[]
def bug(id,property,edits,needs,breaks,demo):
    id=='x' or BUGS.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo))

bug('c01-trim','C01',[(G+'cmd/subprocess.go','line := scanner.Text()','line := strings.TrimSpace(scanner.Text())')],
'a file whose name ends in a space, next to one without it',
'Every field is trimmed of all surrounding white space and not only of the newline before the file list, so that the path "a " is read as "a".',
r'''
echo x > a; echo y > "a "
ci Al al@x 1000
out=$(serial table --csv -f)
has "two files" "$out" "Al,1,2,0,2,"
''')

bug('c01-octopus','C05',[(G+'parse.go','commit.IsMerge = len(parts) > 1','commit.IsMerge = len(parts) == 2')],
'a merge commit with three or more parents',
'Octopus merges are taken for ordinary commits and counted without --merges.',
r'''
echo a > a; ci Al al@x 9000
for b in p q r; do git checkout -q -b $b main; echo $b > $b; ci Al al@x 8000; done
git checkout -q main
GIT_AUTHOR_NAME=Bo GIT_AUTHOR_EMAIL=bo@x GIT_COMMITTER_NAME=Bo GIT_COMMITTER_EMAIL=bo@x git merge -q -m m p q r
hasnt "merge" "$(serial table)" "Bo"
has "merge" "$(serial table --merges)" "Bo"
''')

bug('c01-noident','C01',[(G+'parse.go','if commit.AuthorName == "" && commit.AuthorEmail == "" {','if commit.AuthorName == "" || commit.AuthorEmail == "" {')],
'a commit whose author has a name and no email',
'Commits with a name and an empty email are dropped as if they had no author.',
r'''
echo a > a; ci Al al@x 9000
echo b > b; git add b
tree=$(git write-tree)
printf 'tree %s\nparent %s\nauthor Noe <> %s +0000\ncommitter Noe <> %s +0000\n\nm\n' $tree $(git rev-parse HEAD) $((NOW-500)) $((NOW-500)) > "$D/c"
git reset -q --hard $(git hash-object -t commit -w "$D/c")
has "author without email" "$(serial table)" "Noe"
''')

bug('c02-offset','C02',[(G+'cmd/subprocess.go','''		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
			null_i := bytes.IndexByte(data, '\\x00')

			if null_i >= 0 {
				return null_i + 1, data[:null_i], nil
			}

			if atEOF {
				return 0, data, bufio.ErrFinalToken
			}

			return 0, nil, nil // Scan more''','''		scanned := 0 // Already known to contain no separator
		scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
			null_i := bytes.IndexByte(data[min(scanned, len(data)):], '\\x00')

			if null_i >= 0 {
				null_i += min(scanned, len(data))
				return null_i + 1, data[:null_i], nil
			}

			if atEOF {
				return 0, data, bufio.ErrFinalToken
			}

			scanned = len(data)
			return 0, nil, nil // Scan more''')],
'git output that arrives in more than one read, with the first one ending inside a field',
'The offset up to which a token was searched is kept for the next token, so separators are skipped after a field that was split between two reads.',
r'''
echo a > a; ci Al al@x 9000; echo b > b; ci Bo bo@x 8000; echo c > c; ci Cy cy@x 7000
want=$(serial table -l)
fakegit <<'S'
if [ "$1" = log ]; then "$REALGIT" "$@" | { head -c 20; sleep 0.3; head -c 100; sleep 0.3; cat; }; else exec "$REALGIT" "$@"; fi
S
same "output in two parts" "$(serial table -l)" "$want"
''')

bug('c02-shortread','C02',[(G+'cmd/subprocess.go','''	b, err := io.ReadAll(s.stdout)
	if err != nil {
		return "", err
	}
''','''	// A single line is never larger than this
	b := make([]byte, 64*1024)
	n, err := s.stdout.Read(b)
	if err != nil && err != io.EOF {
		return "", err
	}
	b = b[:n]
''')],
'the answer of git rev-parse --show-toplevel arriving in two reads',
'Only the first read of a one-line answer is used, so a path that arrives in two parts is cut.',
r'''
mkdir sub; echo a > a; echo b > sub/b; ci Al al@x 9000
want=$(serial tree)
fakegit <<'S'
if [ "$2" = --show-toplevel ]; then o=$("$REALGIT" "$@"); printf %s "${o:0:6}"; sleep 0.3; printf '%s\n' "${o:6}"; else exec "$REALGIT" "$@"; fi
S
same "root in two parts" "$(serial tree)" "$want"
''')

bug('c03-revlist','C03',[(G+'git.go','''	err = subprocess.Wait()
	if err != nil {
		return revs, err
	}

	return revs, nil
}

func GetRoot''','''	err = subprocess.Wait()
	if err != nil && len(revs) == 0 {
		return revs, err
	}

	return revs, nil
}

func GetRoot''')],
'git rev-list failing after it printed some revisions, in a parallel run',
'A git rev-list that dies half way is taken for a complete list.',
r'''
echo a > a; ci Al al@x 9000; echo b > b; ci Bo bo@x 8000
fakegit <<'S'
if [ "$1" = rev-list ] || [ "$2" = --pretty=format:%H ]; then "$REALGIT" "$@" | head -n 1; echo boom >&2; exit 128; else exec "$REALGIT" "$@"; fi
S
if out=$(GOMAXPROCS=4 "$BIN" table -l 2>/dev/null); then die "exit 0: $out"; fi
same "no result" "$out" ""
''')

bug('c03-emptytree','C03',[(S+'tree.go','''		if err == tally.EmptyTreeErr {
			logger().Debug("Tree was empty.")
			return nil
		} else if err != nil {''','''		if err == tally.EmptyTreeErr || root == nil || len(root.Children) == 0 {
			logger().Debug("Tree was empty.")
			return nil
		} else if err != nil {''')],
'git log failing before its first commit, in a sequential run of tree',
'A failing git log that printed nothing is taken for an empty history: tree prints nothing and exits with 0.',
r'''
echo a > a; ci Al al@x 9000
fakegit <<'S'
if [ "$1" = log ]; then echo boom >&2; exit 128; else exec "$REALGIT" "$@"; fi
S
if GOMAXPROCS=1 "$BIN" tree >/dev/null 2>&1; then die "exit 0 though git failed"; fi
''')

bug('c03-datebreak','C03',[(G+'parse.go','''				i, err := strconv.Atoi(line)
				if err != nil {
					iterErr''','''				i, err := strconv.Atoi(line)
				if err != nil && line != "" {
					iterErr''')],
'a commit for which git prints no date',
'A missing date is read as 1970 instead of being reported.',
r'''
echo a > a; ci Al al@x 9000
fakegit <<'S'
if [ "$1" = log ]; then printf '%s\0abc\0\0Al\0al@x\0\0' 0123456789012345678901234567890123456789; else exec "$REALGIT" "$@"; fi
S
if GOMAXPROCS=1 "$BIN" table >/dev/null 2>&1; then die "exit 0 though the output is malformed"; fi
''')

bug('c04-nodiff','C04',[(T+'tally.go','''			if !ok {
				tally.firstCommitTime = commit.Date
				tally.commitset = map[string]bool{}
				tally.numTallied = 0 // Don't count toward files changed
			}''','''			if !ok {
				tally.commitset = map[string]bool{}
				tally.numTallied = 0 // Don't count toward files changed
			}''')],
'an author with a commit that changes no file, and -l or -f',
'The first commit time of an author with an empty commit is the year 1.',
r'''
echo a > a; ci Al al@x 9000; ci Al al@x 8000
first=$(TZ=UTC date -d @$((NOW-9000)) +%Y-%m-%dT%H:%M:%SZ)
has "first commit time" "$(serial table --csv -l)" ",$first"
''')

bug('c04-shorthash','C04',[(T+'tally.go','''				tally.name = or(tally.name, commit.AuthorName)
				tally.email = or(tally.email, commit.AuthorEmail)
				tally.commitset[commit.ShortHash] = true
				tally.firstCommitTime = timeutils.Min(
					tally.firstCommitTime,''','''				tally.name = or(tally.name, commit.AuthorName)
				tally.email = or(tally.email, commit.AuthorEmail)
				tally.commitset[commit.ShortHash[:min(len(commit.ShortHash), 3)]] = true
				tally.firstCommitTime = timeutils.Min(
					tally.firstCommitTime,''')],
'commits of an author whose short hashes start with the same three digits',
'Commits are told apart by the first three digits of their hashes only.',
r'''
many 1500 Al al@x
has "commits" "$(serial table --csv -l)" "Al,1500,"
''')

bug('c04-lastmod','C04',[('internal/utils/timeutils/timeutils.go','''func Max(a, b time.Time) time.Time {
	if b.Before(a) {
		return a
	} else {
		return b
	}
}''','''func Max(a, b time.Time) time.Time {
	if a.Unix()/60 > b.Unix()/60 {
		return a
	} else {
		return b
	}
}''')],
'two commits of an author within one minute, the later one being read second',
'The later of two times within a minute is whichever comes second.',
r'''
echo a > a; ci Al al@x $((NOW % 60 + 600 - 10))
echo b > b; ci Al al@x $((NOW % 60 + 600 - 50))
last=$(TZ=UTC date -d @$((NOW-(NOW % 60 + 600 - 50))) +%Y-%m-%dT%H:%M:%SZ)
has "last" "$(serial table --csv -m)" "Al,2,$last,"
''')

bug('c05-lastmod','C05',[(T+'tally.go','''			if commit.IsMerge && !opts.CountMerges {
				continue
			}

			key := opts.Key(commit)

			tally, ok := tallies[key]''','''			// Merges matter only where we count commits
			if commit.IsMerge && !opts.CountMerges && opts.Mode == CommitMode {
				continue
			}

			key := opts.Key(commit)

			tally, ok := tallies[key]''')],
'a merge commit and table -m or -c without --merges',
'In the modes -m and -c merge commits count, and move the times, without --merges.',
r'''
echo a > a; ci Al al@x 9000; git checkout -q -b p; echo p > p; ci Al al@x 8000
git checkout -q main; echo q > q; ci Al al@x 7000
GIT_AUTHOR_NAME=Bo GIT_AUTHOR_EMAIL=bo@x GIT_COMMITTER_NAME=Bo GIT_COMMITTER_EMAIL=bo@x git merge -q -m m p
hasnt "merge" "$(serial table -m)" "Bo"
''')

bug('c05-histdiff','C05',[(T+'bucket.go','''			if !commit.IsMerge {
				for _, diff := range commit.FileDiffs {
					tally.added += diff.LinesAdded
					tally.removed += diff.LinesRemoved
					tally.fileset[diff.Path] = true
				}
			}''','''			for _, diff := range commit.FileDiffs {
				tally.added += diff.LinesAdded
				tally.removed += diff.LinesRemoved
				tally.fileset[diff.Path] = true
			}''')],
'hist --merges with a git that prints the changes of merges',
'Merge commits add lines and files in hist --merges.',
r'''
echo a > a; ci Al al@x $((86400*4)); git checkout -q -b p; seq 50 > p; ci Al al@x $((86400*3))
git checkout -q main; echo q > q; ci Al al@x 400
GIT_AUTHOR_NAME=Bo GIT_AUTHOR_EMAIL=bo@x GIT_COMMITTER_NAME=Bo GIT_COMMITTER_EMAIL=bo@x GIT_AUTHOR_DATE="$((NOW-300)) +0000" git merge -q -m m p
fakegit <<'S'
if [ "$1" = log ]; then shift; exec "$REALGIT" log --diff-merges=first-parent "$@"; else exec "$REALGIT" "$@"; fi
S
out=$(serial hist -l --merges)
hasnt "lines" "$out" "Bo"
''')

bug('c06-overflow','C06',[(T+'tally.go','return int64(t.LinesAdded + t.LinesRemoved)','return int64(int32(t.LinesAdded) + int32(t.LinesRemoved))')],
'an author with more than 2^31 lines',
'The ranking by lines overflows at 2^31.',
r'''
echo a > a; ci Al al@x 9000; echo b > b; ci Bo bo@x 8000
fakegit <<'S'
if [ "$1" = log ]; then "$REALGIT" "$@" | sed 's/1\t0\ta/2000000000\t1000000000\ta/'; else exec "$REALGIT" "$@"; fi
S
has "most lines first" "$(serial table --csv -l -n 1)" "Al"
''')

bug('c06-limit','C06',[(S+'table.go','''	if limit > 0 && limit < len(rankedTallies) {
		numFilteredOut = len(rankedTallies) - limit
		rankedTallies = rankedTallies[:limit]
	}''','''	if limit > 0 && limit+1 < len(rankedTallies) {
		// No point in replacing a single row by a line that says "1 more"
		numFilteredOut = len(rankedTallies) - limit
		rankedTallies = rankedTallies[:limit]
	}''')],
'exactly one author more than the limit',
'With one row more than the limit all rows are shown.',
r'''
echo a > a; ci Al al@x 9000; echo b > b; ci Bo bo@x 8000; echo c > c; ci Cy cy@x 7000
out=$(serial table -n 2)
has "rest" "$out" "...1 more..."
''')

bug('c06-tie','C06',[(T+'tally.go','''		return -t.FirstCommitTime.Unix()''','''		return -t.FirstCommitTime.Unix() / 3600''')],
'table -c with two authors who started within one hour',
'With -c authors who started within the same hour are in the order of their last commits.',
r'''
h=$(( (NOW % 3600) + 7200 ))
echo a > a; ci Al al@x $((h - 10)); echo b > b; ci Bo bo@x $((h - 60)); 
same "order" "$(serial table --csv -c | cut -d, -f1 | tr '\n' ' ')" "name Al Bo "
''')

bug('c07-dotdot','C07',[(T+'tree.go','if err != nil || !filepath.IsLocal(relPath) {','if err != nil || strings.HasPrefix(relPath, "..") {')],
'a file or directory whose name starts with two dots',
'Files with names like "..foo" are taken for files outside the working directory, and are not counted.',
r'''
mkdir ..d; echo a > ..d/a; echo b > b; ci Al al@x 9000
has "file" "$(serial tree)" "..d"
''')

bug('c07-sibling','C07',[(T+'tree.go','''				absPath := path.Join(gitRootPath, p)
				relPath, err = filepath.Rel(wd, filepath.FromSlash(absPath))
				if err != nil || !filepath.IsLocal(relPath) {
					continue // Skip any paths outside of working dir
				}''','''				absPath := filepath.FromSlash(path.Join(gitRootPath, p))
				if !strings.HasPrefix(absPath, wd) {
					continue // Skip any paths outside of working dir
				}

				relPath = strings.TrimPrefix(absPath[len(wd):], "/")''')],
'tree run in a subdirectory with a sibling whose name starts with the name of the subdirectory',
'In the subdirectory "foo" the files of "foobar" are counted too, as "bar/...".',
r'''
mkdir foo foobar; echo a > foo/a; echo a > foo/b; echo b > foobar/b; ci Al al@x 9000
cd foo
hasnt "sibling" "$(serial tree -a)" "bar"
''')

bug('c08-width','C08',[(S+'tree.go','''		separator := strings.Repeat(".", tallyStart-indentLen-pathLen)''','''		separator := strings.Repeat(
			".",
			max(4, (tallyStart-indentLen-pathLen+1)/2*2),
		)''')],
'paths in the tree whose widths differ by an odd number',
'The dots before the annotation are rounded to an even number, so the annotations do not line up.',
r'''
echo a > a; echo b > bb; ci Al al@x 9000
out=$(serial tree -a | python3 -c 'import sys; print(len({l.index("Al (") for l in sys.stdin}))')
same "columns" "$out" "1"
''')

bug('c08-case','C08',[(S+'tree.go','return strings.Compare(a, b) // Sort alphabetically','return strings.Compare(strings.ToLower(a), strings.ToLower(b))')],
'paths that differ in upper and lower case only',
'Names that differ only in case are in random order.',
r'''
for i in a b c d e f g h; do echo $i > $i; u=$(echo $i | tr a-h A-H); echo $u > $u; done; ci Al al@x 9000
for i in 1 2 3 4; do serial tree -a; done > "$D/o"
out=$(serial tree -a)
for i in 1 2 3 4 5 6; do same "order" "$(serial tree -a)" "$out"; done
''')

bug('c08-depth','C08',[(S+'tree.go','''				filepath.Join(path, k),
				depth+1,''','''				filepath.Join(path, k),
				depth,''')],
'tree -d with a chain of directories that have a single child',
'Directories joined into one line do not count for the depth.',
r'''
mkdir -p x y/z/w; echo a > x/a; echo b > y/z/w/b; echo b > y/z/w/c; ci Al al@x 9000
hasnt "depth" "$(serial tree -d 2)" "w"
''')

bug('c08-insert','C08',[(T+'tree.go','''	child.InWorkTree = child.InWorkTree || inWTree
''','''	if nextP == "" {
		child.InWorkTree = inWTree
	}
''')],
'a directory with a deleted and an existing file',
'A directory counts as deleted when the first of its paths is.',
r'''
mkdir d; for i in 1 2 3 4 5 6 7 8; do echo $i > d/$i; done; echo x > x; ci Al al@x 9000; git rm -q d/1 d/2 d/3 d/4 d/5 d/6; ci Al al@x 8000
for i in 1 2 3 4 5 6; do has "dir" "$(serial tree)" "d/"; done
''')

bug('c09-bound','C09',[(T+'bucket.go','} else if duration > day*60 {','} else if duration >= day*60 {')],
'a history of exactly 60 days',
'A range of exactly 60 days is shown by month.',
r'''
d=$((NOW - NOW % 86400))
echo a > a; ci Al al@x $((NOW - d + 60*86400)); echo b > b; ci Al al@x $((NOW - d)); git branch x
same "days" "$(serial hist x | wc -l)" "61"
''')

bug('c09-until','C09',[(S+'hist.go','len(revs) == 1 && revs[0] == "HEAD" && len(until) == 0','len(revs) == 1 && revs[0] == "HEAD" && len(until)+len(since) == 0')],
'hist --since without --until',
'With --since the timeline ends at the last commit and not today.',
r'''
echo a > a; ci Al al@x $((86400*20)); echo b > b; ci Al al@x $((86400*15))
has "today" "$(serial hist --since '30 days ago')" "$(date -u -d @$NOW +%F)"
''')

bug('c09-dense','C09',[(T+'bucket.go','''		t = resolution.next(t)
	}

	return bucketSlice, nil''','''		t = t.Add(time.Hour * 24)
	}

	return bucketSlice, nil''')],
'a history across a change of the clocks',
'Days are taken to have 24 hours, so that days after a change of the clocks are lost.',
r'''
export TZ=Europe/Berlin
a=$(date -d '2024-03-20 12:00' +%s); b=$(date -d '2024-04-10 12:00' +%s)
echo a > a; ci Al al@x $((NOW - a)); echo b > b; ci Bo bo@x $((NOW - b)); git branch x
out=$(serial hist x)
same "days" "$(echo "$out" | wc -l)" "22"
has "last" "$out" "Bo"
''')

bug('c10-alias','C10',[(T+'bucket.go','''		b.Tally = Rank(b.tallies, mode)[0]

		var runningTally Tally
		for _, tally := range b.tallies {
			runningTally = runningTally.Combine(tally)
		}
		b.TotalTally = runningTally.Final()
''','''		var runningTally Tally
		for _, tally := range b.tallies {
			runningTally = runningTally.Combine(tally)
		}
		b.TotalTally = runningTally.Final()
		b.Tally = Rank(b.tallies, mode)[0]
''')],
'hist -f with two authors in one period',
'The total is computed before the ranking, and merges the files of all authors into the set of the first, who then leads.',
r'''
echo a > a; echo aa > aa; ci Al al@x 900; echo b > b; ci Bo bo@x 800
for i in 1 2 3 4 5 6; do has "leader" "$(serial hist -f)" "Al (2)"; done
''')

bug('c10-round','C10',[(S+'hist.go','''		clampedTotal := int(math.Ceil(''','''		clampedTotal := int(math.Floor(''')],
'a period whose total is small against the largest',
'The length of the total is rounded down and that of the leader up; the program panics when the bar of the leader is longer.',
r'''
seq 1000 > a; ci Al al@x $((86400*2)); echo b > b; ci Bo bo@x 800
has "bar" "$(serial hist -l)" "Bo"
''')

bug('c10-scale','C10',[(S+'hist.go','''		if bucket.TotalValue(mode) > maxVal {
			maxVal = bucket.TotalValue(mode)
		}''','''		if bucket.Value(mode) > maxVal {
			maxVal = bucket.Value(mode)
		}''')],
'a period with several authors and a total above the width',
'The scale is taken from the leaders, and the bars of totals get longer than the width.',
r'''
seq 100 > a; ci Al al@x 900; seq 100 > b; ci Bo bo@x 800
n=$(serial hist -l | sed 's/.*┤ //; s/ .*//' | wc -L)
[ $n -le 36 ] || die "bar too long: $n"
''')

bug('c11-buffer','C11',[(C+'worker.go','''	i := 0
	for i < len(revs) {
		select {
		case <-ctx.Done():
			return
		case q <- revs[i:min(i+chunkSize, len(revs))]:
			i += chunkSize
		}
	}''','''	i := 0
	chunk := make([]string, 0, chunkSize)
	for i < len(revs) {
		chunk = append(chunk[:0], revs[i:min(i+chunkSize, len(revs))]...)

		select {
		case <-ctx.Done():
			return
		case q <- chunk:
			i += chunkSize
		}
	}''')],
'more commits than fit one chunk',
'All chunks share one buffer, which the writer overwrites while workers still read it.',
r'''
many 4000 Al al@x
same "commits" "$(GIT_WHO_DISABLE_CACHE=1 parallel table --csv -l | cut -d, -f1-2 | tail -1)" "Al,4000"
''')

bug('c11-combine','C11',[(T+'bucket.go','''		if ok {
			merged.tallies[key] = existing.Combine(tally)
		} else {''','''		if ok && len(key) > 0 {
			merged.tallies[key] = existing.Combine(tally)
		} else {''')],
'an author without an email, hist -e, and their commits of one day being spread over two chunks',
'Of an author without an email only the numbers of one chunk are kept for each day.',
r'''
cn() { git add -A; printf 'tree %s
%sauthor Noe <> %s +0000
committer Noe <> %s +0000

m
' $(git write-tree) "$1" $2 $2 > "$D/c"; git update-ref refs/heads/main $(git hash-object -t commit -w "$D/c"); }
t=$((NOW - NOW%86400 - 86400))
echo a > a; cn "" $((t+3600)); parallel hist -e -l >/dev/null
echo b > b; cn "parent $(git rev-parse HEAD)
" $((t+7200))
same "timeline" "$(parallel hist -e -l)" "$(serial hist -e -l)"
''')

bug('c11-firsttime','C11',[(T+'tally.go','''			rightTally, ok := rightPathTallies[path]
			if !ok {
				rightTally.firstCommitTime = time.Unix(1<<62, 0)
			}

			t := leftTally.Combine(rightTally)''','''			rightTally := rightPathTallies[path]

			t := leftTally.Combine(rightTally)''')],
'a path that an author changes in one chunk and not in the next',
'The first commit time of an author is lost when the results of two chunks are combined.',
r'''
many 1500 Al al@x
echo x > only-here; ci Al al@x 86400
same "table" "$(GIT_WHO_DISABLE_CACHE=1 parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c12-workers','C12',[(C+'concurrent.go','workers := make(chan worker, nCPU)','workers := make(chan worker)')],
'more than one chunk and more than one CPU',
'The channel of workers has no buffer; the spawner blocks on the second worker while the first waits for work: deadlock.',
r'''
many 5000 Al al@x
GIT_WHO_DISABLE_CACHE=1 GOMAXPROCS=4 timeout 60 "$BIN" table -l > /dev/null || die "hangs"
''')

bug('c12-waiter','C12',[(C+'worker.go','''		err, ok := <-w.err
		if ok && err != nil {
			errs <- err
		}''','''		select {
		case err, ok := <-w.err:
			if ok && err != nil {
				errs <- err
			}
		default:
			// Still busy, it will report to the spawner
		}''')],
'a failing worker',
'The waiter does not wait for workers that are still running, so the results channel is closed under them, and failures are lost.',
r'''
many 2500 Al al@x
for i in 1 2 3; do
same "commits" "$(GIT_WHO_DISABLE_CACHE=1 parallel table --csv -l | cut -d, -f1-2 | tail -1)" "Al,2500"
done
''')

bug('c12-lastwait','C12',[(C+'worker.go','''			err = subprocess.Wait()
			if err != nil {
				return err
			}
''','''			err = subprocess.Wait()
			if err != nil && len(parsed) < len(revs) {
				return err
			}
''')],
'git log of a worker printing the fields of all commits and failing before the changes of the last',
'A worker whose git failed is taken for complete when it printed as many commits as were asked for, though the changes of the last may be missing.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800
fakegit <<'S'
if [ "$1" = log ]; then "$REALGIT" "$@" | head -c -9; echo boom >&2; exit 128; else exec "$REALGIT" "$@"; fi
S
if out=$(GOMAXPROCS=4 "$BIN" table -l 2>/dev/null); then die "exit 0: $out"; fi
''')

bug('c13-nullfiles','C13',[(T+'tally.go','''			t.numTallied = min(t.numTallied, 1) // Same path
''','')],
'a file changed by an author both in a cached and in a new commit',
'A file is counted twice when an author changed it in a cached commit and in a new one.',
r'''
echo a > a; ci Al al@x 900; parallel table -f > /dev/null
echo b > a; ci Al al@x 800
same "files" "$(parallel table --csv -f)" "$(serial table --csv -f)"
''')

bug('c13-remaining','C13',[(C+'concurrent.go','''	logger().Debug("commits found in cache", "num", len(foundRevs))
	return accumulator, setDiff(revs, foundRevs), nil''','''	logger().Debug("commits found in cache", "num", len(foundRevs))
	return accumulator, revs[min(len(foundRevs), len(revs)):], nil''')],
'commits added before ones already cached (a branch merged, another revision range)',
'The cached commits are assumed to be the oldest ones, so commits are counted twice and others not at all when the cache holds others.',
r'''
echo a > a; ci Al al@x 900; git checkout -q -b p; echo p > p; ci Bo bo@x 800
git checkout -q main; echo q > q; ci Cy cy@x 700
parallel table -l > /dev/null
same "branch" "$(parallel table --csv -l p main)" "$(serial table --csv -l p main)"
''')

bug('c14-partial','C14',[(C+'concurrent.go','''	err = finish()
	if err != nil {
		return none, revs, err
	}

	logger().Debug("commits''','''	err = finish()
	if err != nil {
		return accumulator, revs, err
	}

	logger().Debug("commits''')],
'a cache file with a readable part and a damaged part',
'What was read from a cache before it turned out to be damaged is counted again on top of the full tally.',
r'''
seq 5 > a; ci Al al@x 900; parallel table -l > /dev/null
seq 6 > b; ci Al al@x 800; parallel table -l > /dev/null
f=$(find "$XDG_CACHE_HOME" -name '*.gz')
gunzip -c "$f" | head -c -3 | gzip -1 > "$D/g"; cp "$D/g" "$f"
same "damaged" "$(parallel table --csv -l 2>/dev/null)" "$(serial table --csv -l)"
''')

bug('c15-global','C15',[(G+'config/files.go','	if len(sf.GlobalMailmapPath) > 0 {\n		f, err','	if len(sf.GlobalMailmapPath) > 0 && len(sf.RepoMailmapPath) == 0 {\n		f, err')],
'both a .mailmap and a configured mailmap file, the latter being edited',
'With a .mailmap in the repository, changes of the configured mailmap file do not invalidate the cache.',
r'''
echo a > a; echo "Zed <zed@x>" > .mailmap; ci Al al@x 900
echo "Bo <bo@x> <al@x>" > "$D/mm"; git config mailmap.file "$D/mm"
parallel table -l > /dev/null
echo "Cy <cy@x> <al@x>" > "$D/mm"
same "mailmap" "$(parallel table --csv -l)" "$(serial table --csv -l)"
''')

bug('c15-base','C15',[(B+'gob.go','h.Write([]byte(gitRootPath))','h.Write([]byte(filepath.Dir(gitRootPath)[:1] + filepath.Base(gitRootPath)))')],
'two repositories in directories of the same name that share a commit, with different mailmaps of the same content hash or none',
'The caches of all repositories in directories of the same name are one.',
r'''
echo a > a; ci Al al@x 900; parallel table -l > /dev/null
mkdir "$D/other"; git clone -q . "$D/other/repo"; cd "$D/other/repo"
parallel table -l > /dev/null
n=$(find "$XDG_CACHE_HOME" -name '*.gz' | wc -l)
same "caches" "$n" "2"
''')

bug('c15-disable','C15',[('internal/cache/cache.go','''	if len(os.Getenv("GIT_WHO_DISABLE_CACHE")) > 0 {
		return false''','''	if os.Getenv("GIT_WHO_DISABLE_CACHE") == "1" {
		return false''')],
'GIT_WHO_DISABLE_CACHE set to something other than 1',
'Only the value 1 disables the cache.',
r'''
echo a > a; ci Al al@x 900
GIT_WHO_DISABLE_CACHE=true parallel table -l > /dev/null
same "files" "$(find "$XDG_CACHE_HOME" -type f)" ""
''')

bug('c16-onlyexcl','C16',[(G+'git.go','shouldInclude := len(includes) == 0','shouldInclude := len(includes) == 0 && prefix == ""')],
'an exclusion and no other path, in a parallel run in a subdirectory',
'With exclusions only, nothing is counted in a subdirectory.',
r'''
mkdir d; echo a > d/a; echo b > d/b; ci Al al@x 900; cd d
same "exclude" "$(parallel table --csv -l -- ':!b')" "$(serial table --csv -l -- ':!b')"
''')

bug('c16-cached','C16',[(C+'concurrent.go','''	whop := whoperation[tally.TimeSeries]{
		revspec:    revspec,
		pathspecs:  pathspecs,
''','''	whop := whoperation[tally.TimeSeries]{
		revspec:    revspec,
''')],
'hist with paths in a parallel run, and commits that do not touch them',
'Commits that touch none of the given paths are counted in the timeline.',
r'''
echo a > a; ci Al al@x 900000; echo b > b; ci Bo bo@x 800
same "paths" "$(parallel hist -l -- a)" "$(serial hist -l -- a)"
''')

bug('c16-exclstrip','C16',[(G+'pathspec.go','`^(:[!\\^]:?|:\\(exclude\\))`','`^(:[!\\^]:?|:\\(exclude\\)/?)`'),(G+'pathspec.go','''			excludes = append(excludes, stripped)''','''			excludes = append(excludes, strings.TrimLeft(stripped, "!^"))''')],
'an exclusion of a file whose name starts with "!" or "^"',
'Leading "!" and "^" of the excluded path itself are dropped.',
r'''
echo a > 'a'; echo b > '^a'; ci Al al@x 900
same "exclude" "$(parallel table --csv -l -- . ':(exclude)^a')" "$(serial table --csv -l -- . ':(exclude)^a')"
same "exclude" "$(parallel tree -- . ':(exclude)^a')" "$(serial tree -- . ':(exclude)^a')"
''')

bug('c17-cached','C17',[(C+'concurrent.go','''	if len(whop.ignoreRevs) > 0 {
		ignoreSet''','''	if len(whop.ignoreRevs) > 0 && len(whop.pathspecs) == 0 {
		ignoreSet''')],
'ignored revisions together with paths, in a parallel run',
'With paths given, parallel runs do not leave out ignored revisions.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800
git rev-parse HEAD > .git-blame-ignore-revs
same "ignored" "$(parallel table --csv -l -- a b)" "$(serial table --csv -l -- a b)"
''')

bug('c17-short','C17',[(G+'config/files.go','''		if rev.IsFullHash(line) {
			revs = append(revs, line)
		}
''','''		if !rev.IsFullHash(line) {
			if line == "" {
				continue
			}

			break
		}

		revs = append(revs, line)
''')],
'a line that is not a full hash before a full hash',
'Reading stops at the first line that is not a full hash.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800
{ git rev-parse --short HEAD~; git rev-parse HEAD; } > .git-blame-ignore-revs
hasnt "ignored" "$(serial table)" "Bo"
''')

bug('c18-email','C18',[(G+'cmd/cmd.go','mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"','mailmapLogFormat = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%ae%x00%ad%x00"')],
'a mailmap that changes an email, and -e',
'Emails are not mapped.',
r'''
echo a > a; ci Al al@x 900; echo "Al <new@x> <al@x>" > .mailmap
has "email" "$(serial table -e)" "new@x"
''')

bug('c18-hist','C18',[(C+'concurrent.go','''	whop := whoperation[tally.TimeSeries]{
		revspec:    revspec,
		pathspecs:  pathspecs,
		filters:    filters,
		useMailmap: configFiles.HasMailmap(),''','''	whop := whoperation[tally.TimeSeries]{
		revspec:    revspec,
		pathspecs:  pathspecs,
		filters:    filters,
		useMailmap: len(configFiles.RepoMailmapPath) > 0,''')],
'a configured mailmap file and no .mailmap, with hist -l or -f in parallel',
'hist ignores the configured mailmap file in parallel runs.',
r'''
echo a > a; ci Al al@x 900; echo "Bo <bo@x> <al@x>" > "$D/mm"; git config mailmap.file "$D/mm"
has "mapped" "$(parallel hist -l)" "Bo"
''')

bug('c19-hashpath','C19',[(G+'args.go','''			pastRevs = true

			if line != "--" {''','''			if line != "--" {''')],
'a path that looks like a full hash',
'A path of 40 hex digits after "--" is taken as a revision.',
r'''
h=0123456789012345678901234567890123456789
echo a > a; ci Al al@x 900; echo b > $h; ci Bo bo@x 800
out=$(serial table --csv -l -- a $h)
has "paths" "$out" "Al"; has "paths" "$out" "Bo"
''')

bug('c19-lsfiles','C19',[(G+'args.go','''	if len(revs) == 0 {
		// Default rev
		revs = append(revs, "HEAD")
	}''','''	if len(revs) == 0 && len(pathspecs) == 0 {
		// Default rev
		revs = append(revs, "HEAD")
	} else if len(revs) == 0 {
		revs = append(revs, "--all")
	}''')],
'a path without a revision, and commits on other branches',
'With a path and no revision the commits of all branches are counted.',
r'''
echo a > a; ci Al al@x 900; git checkout -q -b p; echo p > a; ci Bo bo@x 800; git checkout -q main
hasnt "other branch" "$(serial table a)" "Bo"
''')

bug('c20-until','C20',[(G+'cmd/filters.go','''	if f.Until != "" {
		args = append(args, "--until", f.Until)
	}''','''	if f.Until != "" && f.Until != f.Since {
		args = append(args, "--until", f.Until)
	}''')],
'the same date for --since and --until',
'--until is dropped when it equals --since.',
r'''
echo a > a; ci Al al@x 9000; echo b > b; ci Bo bo@x 800
t=$((NOW-9000))
hasnt "until" "$(serial table --since $t --until $t)" "Bo"
''')

bug('c20-nauthor','C20',[(S+'hist.go','''		Authors:  authors,
		Nauthors: nauthors,
	}''','''		Authors:  authors,
		Nauthors: nauthors[:min(len(nauthors), 1)],
	}''')],
'hist with two --nauthor flags',
'hist uses only the first --nauthor.',
r'''
echo a > a; ci Al al@x 900; echo b > b; ci Bo bo@x 800; echo c > c; ci Cy cy@x 700; echo bb > b; ci Bo bo@x 600
hasnt "nauthor" "$(serial hist --nauthor Cy --nauthor Bo)" "Bo"
''')

bug('c21-trunc','C21',[('internal/format/format.go','''		mils := float32(num) / 1_000_000
		return''','''		mils := float32(num/100_000) / 10
		return''')],
'a number above a million with a second decimal of five or more',
'Millions are cut after the first decimal and not rounded.',
r'''
seq 1270000 > a; ci Al al@x 900
has "number" "$(serial table -l)" " 1.3m "
''')

bug('c22-week','C22',[('internal/format/format.go','''		weeks := int(duration / week)
		if weeks > 1 {''','''		weeks := int(duration/week + duration%week/(day*6))
		if weeks > 1 {''')],
'an age of six days above a number of weeks',
'Weeks are rounded up from the sixth day.',
r'''
echo a > a; ci Al al@x $((86400*13+3600))
has "age" "$(serial table)" "1 week ago"
''')

bug('c22-year','C22',[('internal/format/format.go','''		years := int(duration / year)
		if years > 99 {''','''		years := int(duration / year)
		if years >= 99 {''')],
'an age of 99 years',
'99 years are shown as more than 99.',
r'''
echo a > a; ci Al al@x 900
fakegit <<'S'
if [ "$1" = log ]; then printf '%s\0abc\0\0Al\0al@x\0%s\0' 0123456789012345678901234567890123456789 $(($(date +%s) - 86400*(365*99+3))); else exec "$REALGIT" "$@"; fi
S
has "age" "$(serial table)" " 99 yr. ago"
''')

bug('c23-combining','C23',[(S+'table.go','return runewidth.FillRight(author, width)','''if len(author) < width {
		return runewidth.FillRight(author, width)
	}

	return author''')],
'a name that needs more bytes than the column is wide, but less columns',
'Names that take as many bytes as the column has columns are not padded.',
r'''
echo a > a; ci $'\u5c71\u7530\u5c71\u7530\u5c71\u7530\u5c71\u7530\u5c71\u7530\u5c71\u7530' al@x 900
same "width" "$(serial table | python3 -c '
import sys,unicodedata
print(len({sum(2 if unicodedata.east_asian_width(c) in "WF" else 1 for c in l.rstrip()) for l in sys.stdin}))')" "1"
''')

bug('c23-abbrev','C23',[('internal/format/format.go','''	if len(s) > utf8.RuneCountInString(s) {
		return''','''	if len(s) > utf8.RuneCountInString(s)+max {
		return''')],
'a long name with a few characters that are not ASCII',
'Long names with few characters that are not ASCII are cut by bytes.',
r'''
echo a > a; ci "$(printf 'abcdefghijklmnopqrstuvwxyzabc\u00e9\u00e9\u00e9\u00e9\u00e9')" al@x 900
same "valid" "$(serial table | iconv -f UTF-8 -t UTF-8 2>&1 >/dev/null)" ""
same "width" "$(serial table | python3 -c '
import sys
print(len({len(l.rstrip()) for l in sys.stdin}))')" "1"
''')

bug('c24-number','C24',[(S+'table.go','''			strconv.Itoa(t.FileCount),
		)''','''			format.Number(t.FileCount),
		)''')],
'an author with a thousand files or more',
'File counts from a thousand are abbreviated in CSV.',
r'''
for i in $(seq 1200); do echo > f$i; done; ci Al al@x 900
has "files" "$(serial table --csv -f)" "Al,1,1200,0,1200,"
''')

bug('c24-tz','C24',[(S+'table.go','''		t.LastCommitTime.Format(time.RFC3339),
		t.FirstCommitTime''','''		t.LastCommitTime.Format("2006-01-02T15:04:05Z"),
		t.FirstCommitTime''')],
'a local time zone other than UTC',
'The last commit time is printed in local time but marked as UTC.',
r'''
export TZ=Asia/Tokyo
echo a > a; ci Al al@x 900
t=$(serial table --csv | tail -1 | cut -d, -f3)
same "time" "$(date -d "$t" +%s)" "$((NOW-900))"
''')

bug('c25-eof','C25',[(B+'gob.go','''			if err == io.EOF {
				return
			} else if err != nil {
				iterErr = err
				return
			}

			var size''','''			if err == io.EOF || err == io.ErrUnexpectedEOF {
				return
			} else if err != nil {
				iterErr = err
				return
			}

			var size''')],
'a cache file cut within the four bytes of a length',
'A file cut within a length is taken for complete.',
r'''
seq 5 > a; ci Al al@x 900; parallel table -l > /dev/null
seq 6 > b; ci Al al@x 800; parallel table -l > /dev/null
f=$(find "$XDG_CACHE_HOME" -name '*.gz')
python3 - "$f" <<'P'
import sys,gzip,struct
d=gzip.decompress(open(sys.argv[1],'rb').read()); n=struct.unpack('<I',d[:4])[0]
open(sys.argv[1],'wb').write(gzip.compress(d[:4+n+2],1))
P
has "reported" "$(GOMAXPROCS=4 "$BIN" table -l 2>&1 >/dev/null)" "corrupt"
''')

bug('c27-magic','C27',[(G+'pathspec.go','''`^(:[!\\^]:|:[!\\^][^!\\^/]|:\\(exclude\\))`''','''`^(:[!\\^]:|:[!\\^][^!\\^/]|:\\(exclude)`''')],
'a path with more magic than exclude, as in ":(exclude,icase)x"',
'Other magic next to "exclude" is accepted, and ignored.',
r'''
echo a > a; ci Al al@x 900
if GOMAXPROCS=4 "$BIN" table -l -- . ':(exclude,icase)A' >/dev/null 2>&1; then die "accepted"; fi
''')

bug('c27-depth','C27',[('main.go','''			if *limit < 0 {
				return errors.New("-n flag must be a positive integer")
			}
''','''			if *limit < 0 && !*useCsv {
				return errors.New("-n flag must be a positive integer")
			}
''')],
'table --csv with a negative limit',
'A negative limit is accepted with --csv.',
r'''
echo a > a; ci Al al@x 900
if GOMAXPROCS=1 "$BIN" table --csv -n -1 >/dev/null 2>&1; then die "accepted"; fi
''')

bug('c27-empty','C27',[(S+'table.go','''	if len(tallies) == 0 {
		return
	}

	var build''','''	if len(tallies) == 0 && !showEmail {
		return
	}

	var build''')],
'table -e with a selection of no commits',
'An empty selection prints an empty table with -e.',
r'''
echo a > a; ci Al al@x 900
same "empty" "$(serial table -e --author nobody)" ""
''')
