"""python3 tools/mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Writes seeded/<id>/ with patch.diff, demo.sh, demo.fl, meta.json.  demo: fl program; calls `chk "name" bool;`."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# passes iff every check of demo.fl reports ok
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
export HOME="$W"
unset DISPLAY
@ENV@(cat "$D/demo.fl"; echo "quit;") | timeout 250 /repo/bin/fl -noX -T "$W" @ARGS@ > out 2>&1
cat out
! grep -q '@@FAIL' out && [ "$(grep -c '@@OK' out)" = "$(grep -c '^chk ' "$D/demo.fl")" ]
'''
PRE = r'''let chk n b = (b == T) => fprintf stdout "\n@%sOK %s\n" "@" n | fprintf stdout "\n@%sFAIL %s\n" "@" n;
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = V + "/seeded/" + s["id"]
    w = tempfile.mkdtemp()
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        subprocess.run(["git", "init", "-q", w], check=True)
        files = sorted(set(e[0] for e in s["edits"]))
        subprocess.run(["git", "-C", w, "add", "-f"] + files, check=True)
        subprocess.run(["git", "-C", w, "-c", "user.name=a", "-c", "user.email=a", "commit", "-qm", "x"], check=True)
        for f, old, new in s["edits"]:
            t = open(w + "/" + f, encoding="latin-1").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(w + "/" + f, "w", encoding="latin-1").write(t.replace(old, new))
        p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, check=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(p)
    finally:
        shutil.rmtree(w)
    body = "\n".join(re.sub(r"\s*\n\s+", " ", l) for l in re.split(r"\n(?=\S)", s["demo"].strip("\n")))
    open(d + "/demo.fl", "w").write(PRE + body + "\n")
    open(d + "/demo.sh", "w").write(DEMO.replace("@ARGS@", s.get("args", "")).replace("@ENV@", s.get("env", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
