# Common part of the demonstrations. Sourced with cwd = the repository.
set -eu
BIN=$PWD/git-who
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/home" "$D/cache" "$D/repo" "$D/bin"
export HOME=$D/home XDG_CACHE_HOME=$D/cache GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=$D/home/.gitconfig
export TZ=UTC LC_ALL=C.UTF-8
unset GIT_WHO_DISABLE_CACHE GIT_DIR GIT_WORK_TREE 2>/dev/null || true
REALGIT=$(command -v git)
export REALGIT
cd "$D/repo"
git init -q -b main .
NOW=$(date +%s)

# ci NAME EMAIL AGE_IN_SECONDS: commits everything in the working tree
ci() {
  git add -A
  t=$((NOW - $3))
  GIT_AUTHOR_NAME=$1 GIT_AUTHOR_EMAIL=$2 GIT_AUTHOR_DATE="$t +0000" \
  GIT_COMMITTER_NAME=$1 GIT_COMMITTER_EMAIL=$2 GIT_COMMITTER_DATE="$t +0000" \
    git commit -q --allow-empty --allow-empty-message -m m
}

# who ARGS: runs git-who, without colors
who() { timeout 60 "$BIN" "$@" | sed 's/\x1b\[[0-9;]*[A-Za-z]//g'; }
serial() { GOMAXPROCS=1 who "$@"; }
parallel() { GOMAXPROCS=4 who "$@"; }

die() { echo "FAIL: $*"; exit 1; }
# same WHAT A B
same() { [ "$2" = "$3" ] || { echo "--- expected"; echo "$3"; echo "--- got"; echo "$2"; die "$1"; }; }
has() { case "$2" in *"$3"*) ;; *) echo "$2"; die "$1: no '$3'";; esac; }
hasnt() { case "$2" in *"$3"*) echo "$2"; die "$1: has '$3'";; esac; }

# fakegit: puts $D/bin/git first on PATH. The script is on stdin, and runs the
# real git as "$REALGIT".
fakegit() { { echo '#!/bin/bash'; cat; } > "$D/bin/git"; chmod +x "$D/bin/git"; export PATH="$D/bin:$PATH"; }

# many N NAME EMAIL: N commits, one minute apart, each changing one line of a file
many() {
  python3 - "$1" "$2" "$3" "$NOW" <<'P' | git fast-import --quiet --force
import sys
n,name,email,now=int(sys.argv[1]),sys.argv[2],sys.argv[3],int(sys.argv[4])
for i in range(n):
    t=now-3600*24*3-60*(n-i)
    print(f"commit refs/heads/main\nauthor {name} <{email}> {t} +0000\ncommitter {name} <{email}> {t} +0000\ndata 1\nm\nM 644 inline f{i%7}\ndata {len(str(i))+1}\n{i}\n")
P
  git reset -q --hard main
}
