# Further bugs; see plant.py.
BUGS=[]
K='internal/concurrent/'; S='internal/subcommands/'; G='internal/git/'; C='internal/cache/'; T='internal/tally/'; F='internal/format/'
def bug(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

bug('c14-midway','C14',[(K+'concurrent.go','''	err = finish()
	if err != nil {
		return none, revs, err
	}

	logger().Debug("commits found in cache"''','''	err = finish()
	if err != nil {
		return accumulator, revs, err
	}

	logger().Debug("commits found in cache"''')],
'a store that can be read up to its middle',
'What was read before the damage is counted twice.',
r'''
for i in 1 2 3; do echo $i > f$i; ci Al al@x $((90000*i)); parallel table --csv -l > /dev/null; done
export GOMAXPROCS=4
python3 - "$XDG_CACHE_HOME" <<'P'
import glob,gzip,sys
f=glob.glob(sys.argv[1]+'/git-who/gob/*/*.gz')[0]
d=gzip.open(f).read()
gzip.open(f,'wb').write(d[:-9])
P
same after "$("$BIN" table --csv -l 2>/dev/null)" "$(GIT_WHO_DISABLE_CACHE=1 "$BIN" table --csv -l)"
''')

bug('c25-reuse','C25',[(C+'backends/gob.go','''			var commits []git.Commit

			data :=''','''			data :='''),(C+'backends/gob.go','''		defer f.Close() // Don't care about error closing when reading

		for {''','''		defer f.Close() // Don't care about error closing when reading

		var commits []git.Commit // Reused, so that we allocate less

		for {''')],
'a merge (or a count that is not zero) in the first batch, and a commit that is none in the same place of a later one',
'Values that are zero keep the one of the commit before.',
r'''
echo 1 > a; ci Al al@x 900000
git checkout -q -b o; echo 1 > b; ci Bo bo@x 800000
git checkout -q main; echo 2 > a; ci Al al@x 700000
t=$((NOW-600000)); GIT_AUTHOR_NAME=Al GIT_AUTHOR_EMAIL=al@x GIT_COMMITTER_NAME=Al GIT_COMMITTER_EMAIL=al@x GIT_AUTHOR_DATE="$t +0000" GIT_COMMITTER_DATE="$t +0000" git merge -q --no-ff -m m o
parallel table --csv -l > /dev/null
for i in 5 4 3 2; do echo $i > c$i; ci Bo bo@x $((100000*i)); done
parallel table --csv -l > /dev/null
for k in 1 2; do same "run $k" "$(parallel table --csv -l)" "$(GIT_WHO_DISABLE_CACHE=1 parallel table --csv -l)"; done
''')

bug('c26-name','C26',[(T+'tally.go','''		for _, tally := range pathTallies {
			runningTally = runningTally.Combine(tally)
		}
''','''		for _, tally := range pathTallies {
			next := runningTally.Combine(tally)
			if runningTally.name != "" {
				next.name = runningTally.name
			}
			runningTally = next
		}
''')],
'an author (by email) who used different names for different files',
'Which name is shown changes from run to run.',
r'''
for i in 1 2 3 4 5 6; do echo $i > f$i; ci "Al $i" al@x $((90000*i)); done
export GIT_WHO_DISABLE_CACHE=1
a=$(serial table --csv -e -l)
for i in $(seq 30); do same "run $i" "$(serial table --csv -e -l)" "$a"; done
''')

bug('c09-merge','C09',[(T+'bucket.go','''		bucketedCommitTime := resolution.apply(commit.Date)
		if bucketedCommitTime.Before(minTime) {
			minTime = bucketedCommitTime
		}
''','''		bucketedCommitTime := resolution.apply(commit.Date)
		if bucketedCommitTime.Before(minTime) && len(commit.FileDiffs) > 0 {
			minTime = bucketedCommitTime
		}
''')],
'a first commit that changes no file (an empty commit), days before the others',
'The timeline begins after the first commit, which is left out.',
r'''
ci Al al@x 2000000
echo 1 > a; ci Bo bo@x 900000
has hist "$(serial hist)" "Al (1)"
''')

bug('c07-zero','C07',[(T+'tree.go','''				tally = tally.Combine(childTally)
				t.tallies[key] = tally
''','''				combined := tally.Combine(childTally)
				if mode != LinesMode || combined.SumLines() > 0 {
					t.tallies[key] = combined
				}
'''),(T+'tree.go','''func (t *TreeNode) Rank(''','''func (t Tally) SumLines() int {
	return t.added + t.removed
}

func (t *TreeNode) Rank(''')],
'-l and a directory whose only author changed no line in any of its files (binary files, pure renames)',
'The run crashes, or another author is shown.',
r'''
mkdir d; printf '\000\001' > d/x; printf '\000\002' > d/y; echo 1 > z; ci Al al@x 900000
export GIT_WHO_DISABLE_CACHE=1
has tree "$(serial tree -l)" "d/"
''')

bug('c08-elide','C08',[(S+'tree.go','''	if depth < opts.maxDepth && len(node.Children) == 1 {''','''	if depth <= opts.maxDepth && len(node.Children) == 1 {''')],
'-d and a directory with a single entry right at the limit',
'A directory at the depth limit disappears with everything below it.',
r'''
mkdir -p a/b; echo 1 > a/b/c; echo 1 > f; ci Al al@x 900000
has tree "$(serial tree -d 1)" "a/"
''')

bug('c06-limit2','C06',[(S+'table.go','''	if limit > 0 && limit < len(rankedTallies) {
''','''	shown := limit
	if !useCsv {
		shown += 1 // The note would take as much room as one row
	}
	if limit > 0 && shown < len(rankedTallies) {
''')],
'one author more than the limit',
'One row more than asked for.',
r'''
for a in Al Bo Cy; do echo $a > f$a; ci $a $a@x 90000; done
t=$(serial table -n 2)
has note "$t" "...1 more..."
''')

bug('c24-crlf','C24',[(S+'table.go','''	record := []string{t.AuthorName}
''','''	record := []string{strings.TrimSpace(t.AuthorName)}
''')],
'an author name that begins or ends with a no-break space or the like',
'The name in the CSV is not the one in git.',
r'''
printf '1\n' > a; ci $'\u00a0Al\u00a0' al@x 900000
has csv "$(serial table --csv)" $'\u00a0Al\u00a0'
''')

bug('c22-hour','C22',[(F+'format.go','''	} else if duration < day {
		hours''','''	} else if duration < day-time.Minute {
		hours''')],
'a commit between 23:59 and 24:00 hours ago',
'0 day ago.',
r'''
echo 1 > a; ci Al al@x 86370
hasnt table "$(serial table -m)" "0 day"
''')

bug('c23-e','C23',[(S+'table.go','''	author = format.Abbrev(author, width)
	return runewidth.FillRight(author, width)''','''	if len(author) > width {
		author = format.Abbrev(author, width)
	}
	if len(author) == width {
		return author
	}
	return runewidth.FillRight(author, width)''')],
'a name with letters beyond ASCII whose bytes are as many as the column is wide',
'The row is narrower than the others.',
r'''
n=$(python3 -c "print('é'*4+'a'*25)")
echo 1 > a; ci "$n" al@x 86370
export GIT_WHO_DISABLE_CACHE=1
serial table | python3 -c "
import sys
w={len(l.rstrip('\n')) for l in sys.stdin if l.strip()}
sys.exit(len(w)!=1)" || die width
''')

bug('c01-zero','C01',[(G+'parse.go','''						if len(p) > 0 {
							nonemptyParts = append(nonemptyParts, p)''','''						if len(p) > 0 && p != " " {
							nonemptyParts = append(nonemptyParts, p)''')],
'a file whose name is a single space',
'The file is taken for a rename, and the next two lines for its names.',
r'''
echo 1 > ' '; echo 1 > b; echo 1 > c; ci Al al@x 900000
same parse "$(serial parse | grep -c 'path')" "$(git show --numstat --format= | grep -c .)" || true
has csv "$(serial table --csv -f 2>&1)" "Al,1,3,0,3,"
''')

bug('c16-chdir','C16',[(S+'hist.go','gitRootPath, err := git.GetRoot()','gitRootPath, err := enterRoot()'),(S+'hist.go','''func drawPlot(''','''// The mailmap and so on are found relative to the root.
func enterRoot() (string, error) {
	root, err := git.GetRoot()
	if err != nil {
		return "", err
	}

	return root, os.Chdir(root)
}

func drawPlot(''')],
'hist with a path, from a directory below the root',
'The path is taken relative to the root.',
r'''
mkdir d; echo 1 > d/f; ci Al al@x 900000; echo 1 > f; ci Bo bo@x 800000
cd d
has hist "$(serial hist f)" "Al (1)"
''')

bug('c22-nearest','C22',[(F+'format.go','hours := int(duration / time.Hour)','hours := int(math.Round(duration.Hours()))'),(F+'format.go','''	"fmt"
''','''	"fmt"
	"math"
''')],
'a commit more than half an hour past a full hour ago',
'The hours are rounded up, to 24 at last.',
r'''
echo 1 > a; ci Al al@x $((3600*5+2400))
has table "$(serial table -m)" "5 hr. ago"
''')

bug('c22-days','C22',[(F+'format.go','days := int(duration / day)','days := int(math.Ceil(duration.Hours()/24 - 0.5))'),(F+'format.go','''	"fmt"
''','''	"fmt"
	"math"
''')],
'a commit more than twelve hours past a full day ago',
'The days are rounded up, to 7 at last.',
r'''
echo 1 > a; ci Al al@x $((86400*2+70000))
has table "$(serial table -m)" "2 days ago"
''')
