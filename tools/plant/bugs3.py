# Further bugs; see plant.py.
BUGS=[]
K='internal/concurrent/'; S='internal/subcommands/'; G='internal/git/'; C='internal/cache/'; T='internal/tally/'; F='internal/format/'
def bug(id,prop,edits,needs,breaks,demo):
    BUGS.append(dict(id=id,property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

# term ARGS: what a terminal gets, with what was erased left out
TERM=r'''
cat > "$D/term.py" <<'P'
import pty,sys,os,re
out=b''
def read(fd):
    global out
    b=os.read(fd,65536); out+=b; return b
sys.stdout.flush(); so=os.dup(1); dn=os.open('/dev/null',os.O_WRONLY); os.dup2(dn,1)
pty.spawn(sys.argv[1:],read,lambda fd:b'')
os.dup2(so,1)
out=out.replace(b'\r\n',b'\n')
raw=open(os.environ['RAW'],'wb'); raw.write(out); raw.close()
rows=[]
for l in out.split(b'\n'):
    row=[]; col=0; i=0
    l=l.decode('utf-8','replace')
    while i<len(l):
        m=re.compile('\x1b\\[([0-9;]*)([A-Za-z])').match(l,i)
        if m:
            if m[2]=='K': row=[] if m[1]=='2' else row[:col]
            i=m.end(); continue
        if l[i]=='\r': col=0
        else:
            row+= [' ']*(col+1-len(row)); row[col]=l[i]; col+=1
        i+=1
    rows.append(''.join(row).rstrip())
sys.stdout.buffer.write('\n'.join(rows).encode())
P
export RAW=$D/raw
term() { RAW=$RAW timeout 100 python3 "$D/term.py" "$BIN" "$@" < /dev/null; }
export GIT_WHO_DISABLE_CACHE=1 GOMAXPROCS=2
many 5000 Al al@x
'''

bug('c28-pipe','C28',[(K+'concurrent.go','showProgress := allowProgressBar && shouldShowProgress(totalChunks)','showProgress := shouldShowProgress(totalChunks) && (allowProgressBar || totalChunks > 2*nCPU)')],
'more uncached work than twice the CPUs, into a pipe',
'A long run writes its progress into the output file.',
TERM+r'''
"$BIN" table --csv -l > "$D/o"
head -c 4 "$D/o" | grep -q name || die "$(head -c 60 "$D/o" | cat -v)"
''')

bug('c28-left','C28',[(K+'concurrent.go','''	if showProgress {
		fmt.Printf("%s\\r", pretty.EraseLine)
	}

	// Last''','''	if showProgress && len(ignoreRevs(whop)) > 0 {
		fmt.Printf("%s\\r", pretty.EraseLine)
	} else if showProgress {
		fmt.Print("\\r")
	}

	// Last'''),(K+'concurrent.go','''func shouldShowProgress(''','''func ignoreRevs[T combinable[T]](whop whoperation[T]) []string {
	return whop.ignoreRevs
}

func shouldShowProgress(''')],
'a terminal, a long run, and a first line of the result that is shorter than the progress',
'Remains of the progress report stay on the terminal next to the result.',
TERM+r'''
same "hist on a terminal" "$(term hist -l)" "$("$BIN" hist -l | sed 's/\x1b\[[0-9;]*[A-Za-z]//g; s/ *$//')"
same "csv on a terminal" "$(term table --csv -f -e | tail -1)" "$("$BIN" table --csv -f -e | tail -1)"
same "tree on a terminal" "$(term tree -d 0)" "$("$BIN" tree -d 0 | sed 's/\x1b\[[0-9;]*[A-Za-z]//g; s/ *$//')"
''')

bug('c28-over','C28',[(K+'concurrent.go','format.Number(min(len(remainingRevs), chunksComplete*chunkSize))','format.Number(max(1, chunksComplete*chunkSize))')],
'a terminal and a number of commits that is no multiple of the size of a unit of work',
'The last progress report counts more commits than there are.',
TERM+r'''
term table -l > /dev/null
tr '\r' '\n' < "$RAW" | grep -q '(0/' || die "no progress"
tr '\r' '\n' < "$RAW" | sed 's/\x1b\[[0-9;]*[A-Za-z]//g' | sed -n 's/.*(\([0-9,]*\)\/\([0-9,]*\) commits).*/\1 \2/p' | tr -d , | while read a b; do [ "$a" -le "$b" ] || die "$a of $b"; done
''')

bug('c29-create','C29',[(C+'backends/gob.go',"""	b.isDirty = true

	f, err := os.OpenFile(
		b.Path,
		os.O_WRONLY|os.O_APPEND|os.O_CREATE,
		0644,
	)""","""	flags := os.O_WRONLY | os.O_APPEND
	if !b.isDirty {
		flags |= os.O_CREATE
	}

	b.isDirty = true

	f, err := os.OpenFile(b.Path, flags, 0644)""")],
'a run that stores commits in two steps, and another one that ends between them',
'A run fails when another one, in the same repository, ends while it goes on.',
r'''
many 5000 Al al@x
fakegit <<'P'
case " $* " in *" --stdin "*)
  if mkdir "$D/first" 2> /dev/null; then :; elif [ -n "${SLOW:-}" ]; then sleep 6; fi;;
esac
exec "$REALGIT" "$@"
P
export D
(SLOW=1 GOMAXPROCS=2 timeout 60 "$BIN" table --csv -l > "$D/a" 2> "$D/e"; echo $? > "$D/rc") &
for i in $(seq 100); do [ -n "$(find "$D/cache" -name '*.gobs')" ] && break; sleep 0.05; done
sleep 1
GOMAXPROCS=2 "$BIN" table --csv -l HEAD~4990 > /dev/null
wait
same "exit code of the first run" "0" "$(cat "$D/rc")"
same "output of the first run" "$(serial table --csv -l)" "$(cat "$D/a")"
''')

bug('c29-dup','C29',[(C+'backends/gob.go',"""					if isDup, _ := seen[c.Hash]; isDup {
						iterErr = fmt.Errorf(
							"duplicate commit in cache: %s",
							c.Hash,
						)
						return
					}
""","""					if isDup, _ := seen[c.Hash]; isDup {
						logger().Debug("duplicate in cache", "hash", c.Hash)
					}
""")],
'two runs at once over the same new commits',
'Commits that two runs stored at the same time are counted twice from then on.',
r'''
many 5000 Al al@x
fakegit <<'P'
case " $* " in *" --stdin "*)
  if [ -n "${A:-}" ]; then sleep 1; mkdir "$D/first" 2> /dev/null || sleep 6; else sleep 3; fi;;
esac
exec "$REALGIT" "$@"
P
export D
(A=1 GOMAXPROCS=2 timeout 60 "$BIN" table --csv -l > "$D/a" 2> /dev/null) &
GOMAXPROCS=2 timeout 60 "$BIN" table --csv -l > "$D/b" 2> /dev/null
A=1 GOMAXPROCS=2 timeout 60 "$BIN" table --csv -l > "$D/c" 2> /dev/null
wait
want=$(serial table --csv -l)
same "the first run" "$want" "$(cat "$D/a")"
same "the second run" "$want" "$(cat "$D/b")"
same "the run after that" "$want" "$(cat "$D/c")"
''')

bug('c30-refresh','C30',[(G+'cmd/cmd.go','''	needStdin := false
	subprocess, err := run(ctx, args, needStdin)
	if err != nil {
		return nil, fmt.Errorf("failed to run git ls-files: %w", err)
	}
''','''	// Make sure what git knows about the working tree is up to date
	refresh, err := run(ctx, []string{"update-index", "-q", "--refresh"}, false)
	if err == nil {
		refresh.Wait()
	}

	subprocess, err := run(ctx, args, false)
	if err != nil {
		return nil, fmt.Errorf("failed to run git ls-files: %w", err)
	}
''')],
'a file of the working tree that was touched since git looked at it last',
"The tree rewrites the repository's index.",
r'''
echo a > f; ci Al al@x 86400
touch -d '2001-01-01' f
was=$(cksum < .git/index)
has "tree" "$(who tree)" "Al"
same "index" "$(cksum < .git/index)" "$was"
''')

bug('c30-mkdir','C30',[(C+'cache.go','''	if !IsCachingEnabled() {
		return NewCache(fallback)
	}

	cacheStorageDir''','''	cacheStorageDir'''),(C+'cache.go','''	stateHash, err := repoStateHash(configFiles)
	if err != nil {
		return warnFail(fallback, err)
	}

	filename''','''	if !IsCachingEnabled() {
		return NewCache(fallback)
	}

	stateHash, err := repoStateHash(configFiles)
	if err != nil {
		return warnFail(fallback, err)
	}

	filename''')],
'caching disabled by the environment, no cache of the repository',
'A run with caching disabled makes a directory in the cache.',
r'''
echo a > f; ci Al al@x 86400
export GIT_WHO_DISABLE_CACHE=1
has "table" "$(parallel table -l)" "Al"
same "cache" "$(find "$XDG_CACHE_HOME" | wc -l)" 1
''')

bug('c30-shared','C30',[(C+'backends/gob.go','''	base := filepath.Base(gitRootPath)
	dirname := fmt.Sprintf("%s-%x", base, h.Sum32())
	repoDir := filepath.Join(prefix, dirname)
	return repoDir
}

func GobCacheFilename(stateHash string) string {
	return fmt.Sprintf("%s.gobs", stateHash)
}''','''	dirname := fmt.Sprintf("%x", h.Sum32()%(1<<16))
	repoDir := filepath.Join(prefix, dirname[:1])
	return repoDir
}

func GobCacheFilename(gitRootPath string, stateHash string) string {
	h := fnv.New32()
	h.Write([]byte(gitRootPath))
	base := filepath.Base(gitRootPath)
	return fmt.Sprintf("%s-%x-%s.gobs", base, h.Sum32(), stateHash)
}'''),(C+'cache.go','backends.GobCacheFilename(stateHash)','backends.GobCacheFilename(gitRootPath, stateHash)')],
'two repositories whose hashes begin with the same digit',
"The cache of one repository is removed by a run in another.",
r'''
export GOMAXPROCS=4
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  mkdir "$D/r$i"; cd "$D/r$i"; git init -q -b main .
  echo a > f; ci Al al@x 86400
  has "table" "$(who table -l)" "Al"
  same "number of caches" "$(find "$XDG_CACHE_HOME" -name '*.gz' | wc -l)" $i
done
''')

bug('c31-count','C31',[(C+'cache.go','''	elapsed := time.Now().Sub(start)
	logger().Debug(
		"cache get",
		"duration_ms",
		elapsed.Milliseconds(),
	)
''','''	if slog.Default().Enabled(context.Background(), slog.LevelDebug) {
		n := 0
		for range commits {
			n += 1
		}

		elapsed := time.Now().Sub(start)
		logger().Debug(
			"cache get",
			"num",
			n,
			"duration_ms",
			elapsed.Milliseconds(),
		)
	}
'''),(C+'cache.go','''import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"iter"
''','''import (
	"context"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"iter"
	"log/slog"
''')],
'debug logging, and a cache that holds something',
'With -v the cache is found unreadable and thrown away.',
r'''
echo a > f; ci Al al@x 86400
export GOMAXPROCS=4
a=$("$BIN" table -l 2>&1 > /dev/null)
b=$("$BIN" table -l 2>&1 > /dev/null)
c=$("$BIN" -v table -l 2>&1 > /dev/null | { grep -v level=DEBUG || true; })
same "messages of a second run" "$b" "$a"
same "messages with -v" "$c" "$a"
''')

bug('c31-default','C31',[('main.go','''			args = args[1:]
		}
	}

	args = escapeTerminator(args)
''','''			args = escapeTerminator(args[1:])
		}
	}
''')],
'no subcommand named, and paths after --',
'Without a subcommand, -- is lost and a path that is no longer there is refused.',
r'''
mkdir d; echo a > d/f; ci Al al@x 86400
git rm -q d/f; ci Bo bo@x 3600
same "gone path" "$(who -- d)" "$(who table -- d)"
has "gone path" "$(who -- d)" "Al"
''')

bug('c24-flush','C24',[(S+'table.go','''		if err := w.Write(record); err != nil {
			return fmt.Errorf("error writing CSV record to stdout: %w", err)
		}
	}

	w.Flush()
	if err := w.Error(); err != nil {
		return fmt.Errorf("error flushing CSV writer: %w", err)
	}

	return nil
''','''		if err := w.Write(record); err != nil {
			return fmt.Errorf("error writing CSV record to stdout: %w", err)
		}
	}

	if err := w.Error(); err != nil {
		return fmt.Errorf("error flushing CSV writer: %w", err)
	}

	w.Flush()
	return nil
''')],
'standard output on a full disk',
'A CSV file is cut short and the run succeeds.',
r'''
echo a > f; ci Al al@x 86400
has "csv" "$(who table --csv)" "Al"
if "$BIN" table --csv > /dev/full 2> /dev/null; then die "success on a full disk"; fi
''')

# -race: data races of a run with several workers, other than those of the package loggers
RACE=r'''
(cd "$(dirname "$BIN")" && HOME=$(getent passwd "$(id -u)" | cut -d: -f6) CGO_ENABLED=1 go build -race -o "$D/racy" .) || die "cannot build with -race"
cat > "$D/races.py" <<'P'
import sys,re
n=0
for r in sys.stdin.read().split('==================')[1::2]:
    if 'DATA RACE' in r:
        if not re.match(r'\s*WARNING: DATA RACE\n.*\n.*\n\s+\S+/log\.go:', r):
            n+=1
            if n==1: print(r)
print(n,'races')
P
races() { GOMAXPROCS=4 GIT_WHO_DISABLE_CACHE=$NOCACHE GORACE="exitcode=0 history_size=4" timeout 200 "$D/racy" "$@" 2>&1 > /dev/null | python3 "$D/races.py"; }
'''

bug('c11-intern','C11',[(G+'parse.go','''				commit.AuthorName = line
''','''				commit.AuthorName = intern(line)
'''),(G+'parse.go','''				commit.AuthorEmail = line
''','''				commit.AuthorEmail = intern(line)
'''),(G+'parse.go','''// Turns an iterator over lines''','''// The same few names and emails come up in commit after commit. We keep only one
// copy of each.
var interned = map[string]string{}

func intern(s string) string {
	if known, ok := interned[s]; ok {
		return known
	}

	interned[s] = s
	return s
}

// Turns an iterator over lines''')],
'two workers that read commits at the same time',
'Workers write to one map without a lock, which can end the program.',
RACE+r'''
many 3000 Al al@x
NOCACHE=1
same "races" "$(races table -l)" "0 races"
''')

bug('c11-lastmiss','C11',[(G+'pathspec.go','''		panic("empty string is not valid pathspec")
	}

''','''		panic("empty string is not valid pathspec")
	}

	if lastMiss == [2]string{pathspec, p} {
		return false
	}

'''),(G+'pathspec.go','''			return true
		}
	}

	return false
}
''','''			return true
		}
	}

	return missed(pathspec, p)
}
'''),(G+'pathspec.go','''var excludeStripRegexp *regexp.Regexp
''','''var excludeStripRegexp *regexp.Regexp

// Consecutive commits often touch the same file
var lastMiss [2]string

func missed(pathspec string, p string) bool {
	lastMiss = [2]string{pathspec, p}
	return false
}
''')],
'two workers, pathspecs',
'Workers share what they remember, so one can see half of what the other wrote.',
RACE+r'''
many 3000 Al al@x
NOCACHE=1
same "races" "$(races table -l -- f1 f2 f3 f4 f5)" "0 races"
''')

bug('c01-tailnl','C01',[(G+'parse.go','''						diff.Path = line
						commit.FileDiffs''','''						diff.Path = strings.TrimRight(line, "\\n")
						commit.FileDiffs''')],
'a file renamed to a name that ends in a newline',
'The file is tallied under another name than git reports.',
r'''
seq 20 > a; ci Al al@x 90000
git mv a $'b\n'; ci Al al@x 80000
has "parse" "$(GOMAXPROCS=1 who parse)" $'path:"b\n"'
''')

bug('c08-front','C08',[(G+'git.go','''		wtreeset[line] = true
''','''		wtreeset[strings.TrimLeft(line, "\\r\\n")] = true
'''),(G+'git.go','''	"iter"
''','''	"iter"
	"strings"
''')],
'a file of the working tree whose name begins with a newline',
'tree leaves out a file of the working tree.',
r'''
echo 1 > $'\nx'; echo 1 > y; ci Al al@x 90000
has "tree" "$(serial tree)" $'\nx'
has "tree, parallel" "$(parallel tree -l)" $'\nx'
''')

bug('c19-sha','C19',[(G+'args.go','''		if !pastRevs && rev.IsFullHash(line) {
''','''		if !pastRevs && len(strings.TrimPrefix(line, "^")) == 40 && rev.IsFullHash(line) {
'''),(G+'args.go','''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')],
'a repository with SHA-256 hashes, and a revision',
'Revisions are taken as paths, so nothing is found.',
r'''
git init -q --object-format=sha256 -b main "$D/two"; cd "$D/two"
echo 1 > a; ci Al al@x 90000
echo 2 > a; ci Bo bo@x 80000
has "HEAD" "$(serial table --csv HEAD)" "Bo,1"
hasnt "HEAD~1" "$(serial table --csv HEAD~1)" "Bo,1"
''')

bug('c17-sha','C17',[(G+'config/files.go','''		if rev.IsFullHash(line) {
''','''		if len(line) <= 40 && rev.IsFullHash(line) {
''')],
'a repository with SHA-256 hashes, and a list of ignored revisions',
'Ignored revisions are counted.',
r'''
git init -q --object-format=sha256 -b main "$D/two"; cd "$D/two"
echo 1 > a; ci Al al@x 90000
echo 2 > a; ci Bo bo@x 80000
git rev-parse HEAD > .git-blame-ignore-revs
hasnt "serial" "$(serial table --csv)" "Bo,1"
hasnt "parallel" "$(parallel table --csv -l)" "Bo,1"
''')

bug('c32-merge','C32',[(S+'parse.go','''		numCommits += 1
''','''		if !short || !commit.IsMerge {
			numCommits += 1
		}
''')],
'parse -s, and a merge commit',
'parse does not count all commits.',
r'''
echo 1 > a; ci Al al@x 90000
git checkout -q -b side; echo 1 > b; ci Bo bo@x 80000
git checkout -q main; echo 1 > c; ci Al al@x 70000
git -c user.name=Cy -c user.email=cy@x merge -q --no-ff -m m side
has "parse" "$(who parse)" "Parsed 4 commits."
has "parse -s" "$(who parse -s)" "Parsed 4 commits."
''')

bug('c32-mailmap','C32',[(S+'dump.go','''		configFiles.HasMailmap(),
''','''		configFiles.HasMailmap() && len(pathspecs) == 0,
''')],
'dump with a path, and a mailmap',
'dump shows other names than those that are counted.',
r'''
echo 1 > a; ci Al al@x 90000
echo 'Xe <xe@y> <al@x>' > .mailmap
has "dump" "$(who dump)" "Xe"
has "dump a" "$(who dump -- a)" "Xe"
''')

bug('c32-lastnul','C32',[(S+'dump.go','''		lineWithReplaced := strings.ReplaceAll(line, "\\n", "\\\\n")
''','''		lineWithReplaced := strings.Join(strings.Fields(line), " ")
		if strings.Contains(line, "\\n") || strings.Contains(line, "\\t") {
			lineWithReplaced = strings.ReplaceAll(line, "\\n", "\\\\n")
		}
''')],
'two spaces in a row in a name',
'dump shows a name as it is not in the repository.',
r'''
echo 1 > a; ci 'Al  B' al@x 90000
has "dump" "$(who dump)" "Al  B"
''')
