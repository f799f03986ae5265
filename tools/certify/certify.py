#!/usr/bin/env python3
"""Compares the model of git that the checks use with the installed git.

The checks decide properties over a model of git's commands (harness/zzverif/
world.go). This tool builds random repositories, describes them to the model and
runs the same command lines through both. It is no check: it certifies, by
sampling, the assumptions under which the checks decide.

Usage: certify.py [SEED [REPOSITORIES]]
"""
import base64, json, os, random, shutil, subprocess, sys, tempfile

REPO = os.environ.get("ZZ_REPO", "/repo")
HARN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness")
SEED = int(sys.argv[1]) if len(sys.argv) > 1 else 1
COUNT = int(sys.argv[2]) if len(sys.argv) > 2 else 20
ENV = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", LC_ALL="C", TZ="UTC", HOME="/nonexistent")

FMT = "--pretty=format:%H%x00%h%x00%p%x00%an%x00%ae%x00%ad%x00"
MFMT = "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00"
PEOPLE = [("Al", "al@x"), ("Bo", "bo@x"), ("Alx", "al@y"), ("C D", "c.d@x"), ("Ünï", "u@x")]
FILES = ["a", "b", "d/a", "d/b", "d/e/f", "d.x", "dd/a", "e/f", "s p/q", "t\tq", "n\nl", "ü/ö", 'q"u', "a*", "x?y", "d/a*", "xzy", "d/e x", "\na", "d/\nb"]
SPECS = ["a", "b", "d", "d/", "d/a", "./d", "d/e", "d/e/", ".", "*", "a*", "d/*", "*a", "x?y", ":!d", ":(exclude)d/a", ":^b", ":!:a", "e", "../a", "..", "f", "nothing", "a\\*", ":!*a", "e/", "d/a*", "s p"]
BASE = 1500000000


def git(d, *a, stdin=None, cwd=None, env=ENV):
    p = subprocess.run(["git", *a], cwd=cwd or d, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.stdout, p.returncode


def build(tmp):
    ov = {}
    for sub, dst in (("zzverif", "internal/zzverif"), ("zzmain", "")):
        for f in os.listdir(f"{HARN}/{sub}"):
            if f.endswith(".go"):
                ov[os.path.normpath(f"{REPO}/{dst}/{f}")] = f"{HARN}/{sub}/{f}"
    with open(f"{tmp}/ov.json", "w") as f:
        json.dump({"Replace": ov}, f)
    os.mkdir(f"{tmp}/bin")
    subprocess.check_call(["go", "build", "-overlay", f"{tmp}/ov.json", "-o", f"{tmp}/bin/git", "."], cwd=REPO)
    return f"{tmp}/bin/git"


def quote(p):
    b = p.encode()
    return b'"' + b"".join(bytes([c]) if 32 <= c < 127 and c not in b'"\\' else b"\\%03o" % c for c in b) + b'"'


def repo(d, R):
    os.makedirs(d)
    git(d, "init", "-q", "-b", "main", *R.choice([[], [], ["--object-format=sha256"]]))
    out, mark, t, tips = [], 0, BASE, {}
    trees = {}

    def commit(br, parents, ch, who):
        nonlocal mark, t
        mark += 1
        t += R.choice([1, 60, 3600, 86400])
        n, e = who
        b = f"commit refs/heads/{br}\nmark :{mark}\nauthor {n} <{e}> {t} +0000\ncommitter {n} <{e}> {t} +0000\ndata 1\nx\n".encode()
        for i, p in enumerate(parents):
            b += (("from" if i == 0 else "merge") + f" :{p}\n").encode()
        tree = dict(trees.get(parents[0], {})) if parents else {}
        for k, v in ch:
            if v is None:
                tree.pop(k, None)
                b += b"D " + quote(k) + b"\n"
            elif isinstance(v, tuple):
                if v[0] not in tree:
                    continue
                tree[k] = tree.pop(v[0])
                b += b"R " + quote(v[0]) + b" " + quote(k) + b"\n"
            else:
                tree[k] = v
                b += b"M 100644 inline " + quote(k) + b"\n" + f"data {len(v)}\n{v}\n".encode()
        trees[mark] = tree
        out.append(b)
        return mark

    cur = None
    for _ in range(R.randint(3, 9)):
        who = R.choice(PEOPLE)
        ch = []
        if R.random() > 0.15:
            for f in R.sample(FILES, R.randint(1, 3)):
                ch.append((f, "".join(f"{f}{R.randint(0, 999)}\n" for _ in range(R.randint(1, 4)))))
            if R.random() < 0.2:
                ch.append(("bin", "\0" + str(R.random())))
        if cur and R.random() < 0.2:
            have = sorted(trees[cur])
            if have:
                ch = [(R.choice(["", "", "\n"]) + "r%d" % R.randint(0, 9), (R.choice(have),))]
        elif cur and R.random() < 0.15:
            have = sorted(trees[cur])
            if have:
                ch.append((R.choice(have), None))
        # a path cannot be both a file and a directory, and each path changes once
        seen = []
        for k, v in ch:
            if all(k != s for s, _ in seen):
                seen.append((k, v))
        ch = seen
        if cur and R.random() < 0.2:
            s = commit("side", [cur], [("side%d" % mark, "q\n")], R.choice(PEOPLE))
            m = commit("main", [cur], ch, who)
            cur = commit("main", [m, s], [("side%d" % (s - 1), "q\n")], who)
        else:
            cur = commit("main", [cur] if cur else [], ch, who)
    p = subprocess.run(["git", "fast-import", "--quiet"], cwd=d, env=ENV, input=b"".join(out), stderr=subprocess.PIPE)
    if p.returncode:
        return None
    git(d, "reset", "-q", "--hard", "main")
    return True


def describe(d, mail):
    """The repository as the model's World."""
    hashes = git(d, "log", "--all", "--reverse", "--format=%H")[0].decode().split()
    cs, raw = [], []
    for h in hashes:
        f = git(d, "log", "-1", "--no-mailmap", "--date=unix", "--format=%H%x00%h%x00%p%x00%an%x00%ae%x00%aN%x00%aE%x00%ad", h)[0][:-1].split(b"\0")
        f = [f[0], f[1], f[2], f[3], f[4], f[5] if f[5] != f[3] else b"", f[6] if f[6] != f[4] else b"", f[7]]
        ds = []
        if b" " not in f[2]:
            o = git(d, "diff-tree", "--root", "-r", "-M", "--numstat", "-z", "--no-commit-id", h)[0].split(b"\0")[:-1]
            while o:
                x = o.pop(0).split(b"\t", 2)
                old = b""
                if x[2] == b"":
                    old, x[2] = o.pop(0), o.pop(0)
                ds.append([x[0], x[1], old, x[2]])
        ln = []
        for x in ds:
            b = git(d, "cat-file", "blob", f[2].decode().split()[0] + ":" + x[2].decode())[0] if x[2] else b""
            ln.append("-" if b"\0" in b else str(b.count(b"\n")))
        cs.append({"Diffs": [{"Len": x} for x in ln]})
        raw.append([base64.b64encode(x).decode() for x in f + [y for q in ds for y in q]])
    idx = git(d, "ls-files", "-z", "--full-name")[0].split(b"\0")[:-1]
    raw.append([base64.b64encode(x).decode() for x in idx])
    refs = {b: git(d, "rev-parse", "-q", "--verify", b)[0].decode().strip() for b in ("main", "side")}
    w = {"Root": d, "Commits": cs, "Index": ["" for _ in idx], "Head": refs["main"], "Refs": {k: v for k, v in refs.items() if v},
         "Paths": sorted({p.decode() for p in idx} | {p.decode().split("/")[0] for p in idx if b"/" in p}), "Mailmap": mail}
    return {"W": w, "B": raw}, hashes, [base64.b64decode(r[1]).decode() for r in raw[:-1]], [p.decode() for p in idx]


def commands(R, hashes, shorts, paths):
    def specs():
        return R.sample(SPECS, R.choice([0, 0, 1, 1, 2, 3]))
    revs = R.choice([["HEAD"], ["main"], ["side"], [R.choice(hashes)], [hashes[-1], "^" + hashes[0]], ["^" + R.choice(hashes), "main"]])
    kind = R.randint(0, 9)
    if kind <= 4:
        a = ["log", R.choice([FMT, MFMT])]
        if R.random() < 0.8:
            a.append("-z")
        a += ["--date=unix", "--reverse", "--no-show-signature"]
        if R.random() < 0.5:
            a.append("--no-mailmap")
        if R.random() < 0.8:
            a.append("--numstat")
        a += R.sample(["--no-merges", "--no-renames", "--no-color", "-M"], R.choice([0, 0, 0, 1]))
        if R.random() < 0.3:
            a += [R.choice(["--since=", "--until="]) + "@%d" % (BASE + R.choice([0, 1, 60, 3600, 90000, 200000]))]
        if R.random() < 0.3:
            a += ["--author=" + R.choice(["Al", "al@x", "^Al <", "bo", "x>$", "C D", "."])]
        return a + revs + ["--"] + specs(), None
    if kind == 5:
        s = "".join(h + "\n" for h in R.sample(hashes, R.randint(1, len(hashes))))
        a = ["log", FMT, "-z", "--date=unix", "--reverse", "--no-show-signature", "--stdin", "--no-walk", "--no-mailmap"] + R.choice([["--numstat"], []])
        sp = specs()
        return a + (["--"] + sp if sp else []), s.encode()
    if kind == 6:
        return ["rev-list", "--reverse"] + revs + ["--"] + specs(), None
    if kind == 7:
        a = [R.choice(["HEAD", "main", "side", R.choice(hashes), R.choice(shorts), "nosuch", "HEAD..main", hashes[0] + "..", "..side", "^main", "-x"] + paths + SPECS) for _ in range(R.randint(1, 3))]
        if R.random() < 0.3:
            a.insert(R.randint(0, len(a)), "--")
        return ["rev-parse", "--no-flags"] + a, None
    if kind == 8:
        sp = specs()
        if any(s[:2] in (":!", ":^", ":(") for s in sp):  # git 2.43 leaves everything out of "d/" with a short exclusion
            sp = [s.rstrip("/") for s in sp]
        return ["ls-files"] + R.choice([["-z"], ["-z"], []]) + ["--exclude-standard", "--"] + sp, None
    return ["rev-parse", R.choice(["--show-toplevel", "--show-prefix"])], None


def main():
    tmp = tempfile.mkdtemp(prefix="zzcert")
    bad = n = 0
    try:
        model = build(tmp)
        R = random.Random(SEED)
        for k in range(COUNT):
            d = f"{tmp}/r{k}"
            if not repo(d, R):
                continue
            if R.random() < 0.5:
                with open(d + "/.mailmap", "w") as f:
                    f.write(R.choice(["Zed <al@x>\n", "Al <z@z> <al@x>\nAl <z@z> <bo@x>\n"]))
            w, hashes, shorts, paths = describe(d, "")
            dirs = [""] + [x for x in ("d", "d/e", "e", "s p") if os.path.isdir(f"{d}/{x}")]
            for _ in range(120):
                a, stdin = commands(R, hashes, shorts, [p for p in paths if "\n" not in p])
                sub = R.choice(dirs)
                if sub and a[0] == "rev-parse" and "--no-flags" in a:
                    continue  # Paths are relative to the root
                cwd = f"{d}/{sub}" if sub else d
                w["W"]["Cwd"] = cwd
                with open(f"{tmp}/world.json", "w") as f:
                    json.dump(w, f)
                e = dict(ENV, ZZVERIF_GIT=tmp)
                m = subprocess.run([model, *a], cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                o, rc = git(d, *a, stdin=stdin, cwd=cwd)
                n += 1
                if (m.stdout, m.returncode) != (o, rc) and not (rc and m.returncode):
                    bad += 1
                    print("DIFFERS", repr(sub), a, stdin, "\n  git  ", rc, o, "\n  model", m.returncode, m.stdout, m.stderr[:300])
                    if bad > 5:
                        return 1
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
        print(f"{n} command lines, {bad} differ (seed {SEED})")
    return 1 if bad else 0


sys.exit(main())
