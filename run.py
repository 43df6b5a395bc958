#!/usr/bin/env python3
"""run.py <property id> [--replay FILE] [--keep]
Builds the harness of one property against /repo's working tree, runs it, writes
evidence/<id>.json and reports violations.  Exit 0: held on everything explored; 1: VIOLATION."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS   # id -> spec

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass

def build(spec, bd):
    """Compile the repository sources and the harness; returns the executable."""
    cc = spec.get("cc", "gcc")
    asan = [] if spec.get("noasan") else ["-fsanitize=address", "-fno-omit-frame-pointer"]
    base = [cc, "-c", "-g", spec.get("opt", "-O1"), "-w", "-std=gnu11", "-fno-common"] + asan + spec.get("cflags", []) + os.environ.get("MC_CFLAGS", "").split()
    inc = ["-I", HERE + "/harness/inc", "-I", REPO + "/src"]
    jobs = []
    srcs = [REPO + "/src/" + f for f in spec.get("src", [])] if "src" in spec else \
           sorted(glob.glob(REPO + "/src/*.c"))
    srcs.append(REPO + "/lib/search.c")
    weaken = spec.get("weaken", {})
    objs = []
    for s in srcs:
        o = bd + "/" + os.path.basename(s)[:-2] + ".o"
        objs.append(o)
        # a library function called without a visible prototype must not truncate pointers under ASan
        extra = ["-include", "string.h", "-include", "stdlib.h", "-include", "search.h"] if "/src/" in s else []
        if os.path.basename(s) in weaken: extra += ["-O0", "-fno-inline"]
        jobs.append(base + extra + inc + ["-o", o, s])
    for m, name in spec.get("mains", {}).items():   # program mains, renamed to an ordinary function
        o = bd + "/" + name + ".o"; objs.append(o)
        jobs.append(base + inc + ["-Dmain=" + name, "-o", o, REPO + "/" + m])
    hs = [HERE + "/harness/mc.c"] + [HERE + "/harness/" + h for h in spec["harness"]]
    for s in hs:
        o = bd + "/h_" + os.path.basename(s)[:-2] + ".o"; objs.append(o)
        jobs.append(base + inc + ["-I", HERE + "/harness", "-o", o, s])
    cache = os.environ.get("MC_OBJCACHE")   # used by tools/mutate.py only
    if cache: hd = hashlib.sha1(b"".join(open(h, "rb").read() for h in sorted(glob.glob(REPO + "/src/*.h") + glob.glob(HERE + "/harness/*") ) if os.path.isfile(h))).hexdigest()
    def comp(j):
        if not cache: return sh(j)
        o = j[j.index("-o") + 1]; k = cache + "/" + hashlib.sha1((hd + " ".join(j).replace(o, "").replace(REPO, "") + hashlib.sha1(open(j[-1], "rb").read()).hexdigest()).encode()).hexdigest()
        if os.path.exists(k): shutil.copy(k, o); return sh(["true"])
        r = sh(j)
        if r.returncode == 0: shutil.copy(o, k + ".%d" % os.getpid()); os.rename(k + ".%d" % os.getpid(), k)
        return r
    with ThreadPoolExecutor(8) as ex:
        for r, j in zip(ex.map(comp, jobs), jobs):
            if r.returncode: raise BuildError(" ".join(j) + "\n" + r.stdout)
    for f, syms in weaken.items():   # the harness may replace these; the originals stay reachable as real_<name>
        o = bd + "/" + f[:-2] + ".o"
        at = {l.split()[2]: l.split()[0] for l in sh(["nm", o]).stdout.splitlines() if len(l.split()) == 3 and l.split()[1] == "T"}
        r = sh(["objcopy"] + [a for y in syms for a in ("--weaken-symbol", y)] +
               [a for y in syms if y in at for a in ("--add-symbol", "real_%s=.text:0x%s,function,global" % (y, at[y]))] + [o])
        if r.returncode: raise BuildError(r.stdout)
    exe = bd + "/harness"
    r = sh([cc, "-no-pie"] + asan + ["-o", exe] + objs + spec.get("ldflags", []) + ["-lgsl", "-lgslcblas", "-lm"])
    if r.returncode: raise BuildError(r.stdout)
    return exe

def known():
    """sig -> text of the known findings, per property."""
    k = {}
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING:"):
                f = l.split(None, 3)
                k.setdefault(f[1].split("=", 1)[1], {})[f[2].split("=", 1)[1]] = f[3].strip()
    return k

def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(HERE + "/.build", exist_ok=True)
    bd = tempfile.mkdtemp(prefix=pid + ".", dir=HERE + "/.build")
    try:
        env = dict(os.environ)
        env.update(VERIF_TIER=tier, LC_ALL="C", MC_REPO=REPO, MC_HOME=HERE,
          ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:quarantine_size_mb=32:"
                       "max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=0:"
                       "detect_stack_use_after_return=0:handle_segv=1:use_sigaltstack=1")
        budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
        try:
            exe = build(spec, bd)
        except BuildError as e:
            print("BUILD FAILED\n" + str(e)[:4000]); return 2
        only = []
        if replay: only = [json.load(open(replay))["section"]]
        os.makedirs(bd + "/scratch", exist_ok=True)
        r = subprocess.run([exe, bd + "/out.json", bd + "/scratch", str(budget)] + only,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(bd + "/out.json"):
            print("HARNESS ERROR", r.returncode, r.stdout[-3000:]); return 2
        out = json.load(open(bd + "/out.json"))
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(bd, ignore_errors=True)
        else: print("kept", bd)
    secs = out["sections"]
    K = known().get(pid, {}); seen_known = set(); viol = []
    for s in secs:
        for f in s["fails"]:
            if f["sig"] in K: seen_known.add(f["sig"])
            else: viol.append((s["name"], f))
    tot = lambda k: sum(s[k] for s in secs)
    capped = [s["name"] + ": " + s["capped"] for s in secs if s["capped"]]
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
        coverage=dict(states=tot("states"), transitions=tot("transitions"),
            traces_validated_against_impl=tot("traces"),
            distinct_outcomes=tot("outcomes"),
            samples=[x for s in secs[::max(1, len(secs)//12)] for x in s["samples"]][:12] or ["(none)"],
            exhaustive=not capped, bounds=spec.get("bounds", ""), capped=capped,
            counts_meaning=spec.get("counts", "states: distinct inputs/partitions/histories enumerated; transitions: operations or draws executed on the real code and compared with the model; traces: complete executions of the real code checked"),
            sections=[dict(name=s["name"], states=s["states"], transitions=s["transitions"], traces=s["traces"], outcomes=s["outcomes"], wall_s=s.get("wall")) for s in secs]),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not replay and not os.environ.get("MC_NOEVIDENCE"):
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s tier=%s sections=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs%s" % (pid, tier, len(secs),
          tot("states"), tot("transitions"), tot("traces"), tot("outcomes"), time.time() - t0, " CAPPED" if capped else ""))
    for c in capped: print("  capped:", c)
    for sig in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (pid, K[sig]))
    if tot("states") == 0 and not viol:
        print("HARNESS ERROR: nothing explored"); return 2
    if viol:
        os.makedirs(HERE + "/replays", exist_ok=True)
        for name, f in viol[:10]:
            h = hashlib.sha1((name + f["sig"] + f["case"]).encode()).hexdigest()[:10]
            path = HERE + "/replays/%s-%s.json" % (pid, h)
            json.dump(dict(property=pid, section=name, signature=f["sig"], message=f["msg"], case=f["case"],
                           rerun="cd /verif && python3 run.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
            print("  [%s] %s: %s\n    case: %s" % (name, f["sig"], f["msg"][:600], f["case"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
