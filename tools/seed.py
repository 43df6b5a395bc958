#!/usr/bin/env python3
"""seed.py test ID...   confirm planted bugs in a scratch copy of /repo and run the property's check against it
   seed.py add FILE     create planted bugs from a python file with a list BUGS of
                        (id, property, [(file, old, new), ...], needs, what_it_breaks, demo C source)"""
import sys, os, subprocess, json, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedscratch.%d" % os.getpid()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the property held; nonzero: it did not
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
gcc -w -g -no-pie -include string.h -include stdlib.h -include search.h -I"$PWD/src" -o "$w/demo" "$d/demo.c" "$PWD/src/librgraph.a" "$PWD/lib/.libs/libgnu.a" -lgsl -lgslcblas -lm || exit 3
cd "$w" && timeout 120 ./demo
'''
def copy():
    shutil.rmtree(SC, ignore_errors=True); sh("cp -a /repo " + SC)
def build():
    # rebuild in the scratch copy (the build script works on /repo; run its steps here)
    return sh("sed 's#cd /repo#cd %s#' /opt/vp/build.sh > %s.b.sh; bash %s.b.sh" % (SC, SC, SC))
def runtests():
    r = sh("sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s.b.sh#' /opt/vp/test.sh > %s.sh; bash %s.sh %s.json >/dev/null 2>&1; cat %s.json" % (SC, SC, SC, SC, SC, SC))
    try: return json.loads(r.stdout[r.stdout.index("{"):])
    except Exception: return dict(failed=["?" + r.stdout[-500:]])
def add(f):
    ns = {}; exec(open(f).read(), ns)
    for b in ns["BUGS"]:
        i, prop, edits, needs, breaks, demo = b[:6]
        d = H + "/seeded/" + i; os.makedirs(d, exist_ok=True)
        copy()
        for fn, old, new in edits:
            t = open(SC + "/" + fn).read()
            if t.count(old) != 1: print(i, "EDIT MATCHES", t.count(old), repr(old[:80])); break
            open(SC + "/" + fn, "w").write(t.replace(old, new))
        else:
            open(d + "/patch.diff", "w").write(subprocess.check_output("git diff", shell=True, cwd=SC, text=True))
            if demo is not None: open(d + "/demo.c", "w").write(demo)
            open(d + "/demo.sh", "w").write(b[6] if len(b) > 6 else DEMO)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
            test(i)
    shutil.rmtree(SC, ignore_errors=True)
def test(i, check=True):
    d = H + "/seeded/" + i; meta = json.load(open(d + "/meta.json")); copy()
    r0 = sh("bash %s/demo.sh" % d, cwd=SC)
    a = sh("git apply %s/patch.diff" % d, cwd=SC)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); return
    b = build()
    if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-800:]); return
    r1 = sh("bash %s/demo.sh" % d, cwd=SC)
    t = runtests()
    ok = r0.returncode == 0 and r1.returncode != 0 and not t["failed"]
    c = "-"; t0 = time.time()
    if check:
        e = dict(os.environ, VERIF_REPO=SC); r = sh("python3 run.py %s" % meta["property"], cwd=H, env=e)
        c = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stdout[-600:])
        det = [l.strip() for l in r.stdout.split("\n") if l.startswith("  [")][:1]
        c += " " + (det[0][:160] if det else "")
    print(i, meta["property"], "valid" if ok else "INVALID clean=%d patched=%d tests=%s\n%s\n%s" % (r0.returncode, r1.returncode, t["failed"], r0.stdout[-600:], r1.stdout[-300:]), c, "%.0fs" % (time.time() - t0), flush=True)
if sys.argv[1] == "add": add(sys.argv[2])
else:
    for i in (sys.argv[2:] or sorted(os.listdir(H + "/seeded"))): test(i)
    shutil.rmtree(SC, ignore_errors=True)
sh("rm -rf %s.sh %s.b.sh %s.json" % (SC, SC, SC))
