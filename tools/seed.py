#!/usr/bin/env python3
"""tools/seed.py DEF.py...: plants one bug per definition, confirms it (builds, tests pass, demo fails only with it) and runs the check.
A definition sets id, prop, file, old, new, breaks, needs, demo (C++ text with main). Works on a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, t=1200):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t); return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# run in the repository's directory: 0 when the property holds here
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
ls *.cc | xargs -P8 -I{} g++-12 -w -std=c++14 -O1 -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -I. -c {} -o "$T/{}.o" || exit 3
g++-12 -w -std=c++14 -O1 -DNDEBUG=1 -fno-threadsafe-statics -I. -c "$D/demo.cc" -o "$T/demo.o" || exit 3
gcc-12 -o "$T/demo" "$T"/*.o -lsupc++ -lm || exit 3
cd "$T" && timeout 60 ./demo
'''
for fn in sys.argv[1:]:
    d = {}; exec(open(fn).read(), d); sd = os.path.join(H, "seeded", d["id"]); os.makedirs(sd, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed"); r = w + "/repo"; sh("git clone -q /repo %s && cp /repo/config.h /repo/Config.mk /repo/config.status /repo/ustl.pc %s/" % (r, r))
    edits = d.get("edits") or [(d["file"], d["old"], d["new"])]
    ok = True
    for f, a, b in edits:
        s = open(os.path.join(r, f)).read()
        if s.count(a) != 1: print(d["id"], "old text found %d times in %s" % (s.count(a), f)); ok = False; break
        open(os.path.join(r, f), "w").write(s.replace(a, b))
    if not ok: shutil.rmtree(w); continue
    open(sd + "/patch.diff", "w").write(sh("git diff", r)[1]); open(sd + "/demo.cc", "w").write(d["demo"]); open(sd + "/demo.sh", "w").write(DEMO); os.chmod(sd + "/demo.sh", 0o755)
    res = {}
    rc0, o0 = sh("bash %s/demo.sh" % sd, "/repo"); rc1, o1 = sh("bash %s/demo.sh" % sd, r)
    # tests of the changed copy
    m = sh("g++-12 --version")[0]
    tout = sh(r'''mkdir -p t; ls *.cc test/*.cc | xargs -P8 -I{} sh -c 'g++-12 -w -std=c++14 -Os -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -I%s/i -c {} -o t/$(basename {}).o' ; n=0; for s in test/?????.cc; do b=$(basename $s .cc); L=$(for l in *.cc; do echo t/$l.o; done); gcc-12 -o t/$b t/$b.cc.o t/stdtest.cc.o $L -lsupc++ -lm && timeout 20 ./t/$b < $s > t/$b.out 2>&1 && diff -q t/$b.out test/$b.std >/dev/null || echo FAILED $b; done''' % r if False else '''ln -sfn %s %s/ustl; mkdir -p t; ls *.cc test/*.cc | xargs -P8 -I{} sh -c 'g++-12 -w -std=c++14 -Os -DNDEBUG=1 -fno-threadsafe-statics -fno-enforce-eh-specs -I%s -I. -c {} -o t/$(basename {}).o'; for s in test/?????.cc; do b=$(basename $s .cc); L=$(for l in *.cc; do echo t/$l.o; done); gcc-12 -o t/$b t/$b.cc.o t/stdtest.cc.o $L -lsupc++ -lm && timeout 20 ./t/$b < $s > t/$b.out 2>&1 && diff -q t/$b.out test/$b.std >/dev/null || echo FAILED $b; done''' % (r, w, w), r)[1]
    sh("git checkout -q -- . && git clean -fdq", r); sh("cp /repo/config.h . ; git apply %s/patch.diff" % sd, r)
    c = []
    for p in [d["prop"]] + d.get("also", []):
        rc, o = sh("python3 %s/check.py %s" % (H, p), env={"VERIF_REPO": r}); c.append((p, rc, o))
    caught = [p for p, rc, o in c if rc == 1 and "VIOLATION property=" + p in o]
    valid = rc0 == 0 and rc1 not in (0, 3) and "FAILED" not in tout
    print("%s: valid=%s demo %d/%d tests %s caught by %s" % (d["id"], valid, rc0, rc1, tout.strip().replace("\n", " ")[-300:] or "pass", caught or "NOTHING"))
    if not valid: print(o0[-300:], o1[-300:])
    for p, rc, o in c:
        if p not in caught: print("  ", p, rc, o[-600:])
    json.dump({"property": d["prop"], "what_it_breaks": d["breaks"], "needs": d["needs"], "caught_by": ", ".join(caught) or "nothing"}, open(sd + "/meta.json", "w"), indent=1)
    if not valid: shutil.rmtree(sd)
    shutil.rmtree(w)
