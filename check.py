#!/usr/bin/env python3
"""Builds the harnesses of a property from /repo's working tree, runs them in
parallel, writes evidence/<id>.json and prints the verdict.
  check.py C01            quick or thorough by VERIF_TIER
  check.py --build-all    setup
  check.py --replay FILE  re-run one replay file
"""
import sys, os, json, time, hashlib, subprocess, shutil, tempfile, re, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)
from checks import CHECKS, LIBS

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def rd(p):
    with open(p, "rb") as f: return f.read()

class BuildError(Exception): pass
def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))

_hdr = None
def headers():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for root in (REPO + "/src", V + "/fw", V + "/harness"):
            for d, dn, fn in sorted(os.walk(root)):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".h", ".hpp", ".in", ".xpm", ".inc")): h.update(os.path.join(d, f).encode()); h.update(rd(os.path.join(d, f)))
        _hdr = h.hexdigest()
    return _hdr

GENS = {"2030": ("src/model2030/cros2030.c", "src/model2030/ccros2030.txt", "model2030_ros.h"),
        "2050": ("src/model2050/cros2050.c", "src/model2050/ros.txt", "model2050_ros.h"),
        "2844": ("src/model2844/cros2844.c", "src/model2844/model2844_ros.txt", "model2844_ros.h")}
INC = ["src", "src/image", "src/panel", "src/device", "src/model1052", "src/model1442", "src/model1443", "src/model2415",
       "src/model2844", "src/model2030", "src/model2050"]
BASE = ["-DDEBUG", "-g", "-w", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fcommon"]
VARIANTS = {
  "asan": ["-O1", "-fsanitize=address"],
  "fast": ["-O1"],
  "o0": ["-O0"],
}
def config_h():
    t = rd(REPO + "/src/config.h.in").decode()
    t = re.sub(r"#cmakedefine[ \t]+(\w+)[^\n]*", r"#define \1 1", t)
    t = re.sub(r"@\w+@", "1", t)
    return t.encode()

def atomic_write(path, data):
    t = path + ".%d.tmp" % os.getpid()
    with open(t, "wb") as f: f.write(data)
    os.replace(t, path)

def gen_dir():
    parts = [config_h()]
    for k, (c, t, o) in sorted(GENS.items()): parts += [rd(REPO + "/" + c), rd(REPO + "/" + t)]
    parts.append(headers())
    d = os.path.join(B, "gen-" + sha(*parts))
    if not os.path.exists(d + "/ok"):
        os.makedirs(d, exist_ok=True)
        cfg = config_h()
        atomic_write(d + "/config.h", cfg)
        for k, (c, t, o) in sorted(GENS.items()):
            exe = d + "/cros%s.%d" % (k, os.getpid())
            sh(["gcc"] + BASE + ["-O1", "-I" + d, "-I" + REPO + "/src", "-I" + REPO + "/src/device", "-I" + os.path.dirname(REPO + "/" + c), REPO + "/" + c, "-o", exe])
            tmp = d + "/%s.%d" % (o, os.getpid())
            sh([exe, REPO + "/" + t, tmp], cwd=d)
            os.replace(tmp, d + "/" + o); os.unlink(exe)
        open(d + "/ok", "w").close()
    return d

def compile_one(job):
    src, variant, extra, gd = job
    cxx = src.endswith(".cpp")
    flags = BASE + VARIANTS[variant] + list(extra) + ["-I" + gd] + ["-I" + REPO + "/" + i for i in INC] + ["-I" + V + "/fw", "-I" + V + "/harness", "-I" + REPO + "/src/test"]
    cmd = ["g++", "-std=gnu++17", "-fpermissive"] if cxx else ["gcc"]
    inc = []                       # repository sources included whole by a harness
    if src.startswith(V):
        for f in re.findall(r'#include "([\w/]+\.c)"', rd(src).decode()):
            inc += [rd(p) for p in (os.path.join(REPO, i, f) for i in INC) if os.path.exists(p)]
    key = sha(src, rd(src), headers(), gd, cmd, flags, *inc)
    o = os.path.join(B, "obj", key + ".o")
    if not os.path.exists(o):
        t = o + ".%d.%d.tmp.o" % (os.getpid(), hash(job) & 0xffff)
        sh(cmd + flags + ["-c", src, "-o", t]); os.replace(t, o)
    return o

def build_bin(b, ex):
    os.makedirs(B + "/obj", exist_ok=True); os.makedirs(B + "/bin", exist_ok=True)
    gd = gen_dir(); variant = b.get("variant", "asan")
    jobs = []
    for l in b.get("libs", []):
        jobs += [(REPO + "/" + s, variant, tuple(b.get("repo_flags", ())), gd) for s in LIBS[l]]
    jobs += [(REPO + "/" + s, variant, tuple(b.get("repo_flags", ())), gd) for s in b.get("repo", [])]
    jobs += [(V + "/" + s, variant, tuple(b.get("flags", ())), gd) for s in b["src"] + ["fw/pbt.cpp"]]
    seen = []; [seen.append(j) for j in jobs if j not in seen]
    objs = list(ex.map(compile_one, seen))
    link = ["g++"] + VARIANTS[variant] + ["-Wl,--allow-multiple-definition"] + b.get("ldflags", [])
    key = sha(link, objs, b["name"])
    exe = os.path.join(B, "bin", b["name"] + "-" + key)
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        sh(link + objs + ["-o", t] + b.get("ldlibs", ["-lm"])); os.replace(t, exe)
    return exe

def known_for(pid):
    out = []; p = V + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) replay=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:handle_abort=1:symbolize=1",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=77", TZ="UTC", LC_ALL="C")

def prune():
    # keep the object cache bounded
    for sub in ("obj", "bin"):
        d = os.path.join(B, sub)
        if not os.path.isdir(d): continue
        fs = [(os.stat(os.path.join(d, f)).st_mtime, os.stat(os.path.join(d, f)).st_size, os.path.join(d, f)) for f in os.listdir(d)]
        tot = sum(f[1] for f in fs)
        for m, s, p in sorted(fs):
            if tot < 1500e6: break
            try: os.unlink(p); tot -= s
            except OSError: pass

def main():
    a = sys.argv[1:]
    nw = min(8, os.cpu_count() or 4)
    ex = ThreadPoolExecutor(nw)
    if a and a[0] == "--build-all":
        seen = set()
        for pid in sorted(CHECKS):
            for b in CHECKS[pid]["bins"]: 
                if b["name"] not in seen: seen.add(b["name"]); build_bin(b, ex)
        print("built"); return 0
    if a and a[0] == "--replay":
        t = open(a[1]).read(); pid = re.search(r"^property: (\S+)", t, re.M).group(1); mode = re.search(r"^mode: *(\S*)", t, re.M).group(1)
        for b in CHECKS[pid]["bins"]:
            if mode in [m for m in b.get("modes", {"": 0})]:
                exe = build_bin(b, ex); sc = tempfile.mkdtemp(prefix="verif-")
                try: return subprocess.run([exe, "--replay", os.path.abspath(a[1]), "--mode", mode], cwd=sc, env=ENV).returncode
                finally: shutil.rmtree(sc, ignore_errors=True)
        print("no such mode"); return 2
    pid = a[0]; spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = os.path.join(V, "replays", pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    prune()
    try: bins = [(b, build_bin(b, ex)) for b in spec["bins"]]
    except BuildError as e:
        print("BUILD FAILED for %s:\n%s" % (pid, e)); return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid); os.chmod(scratch, 0o755)
    known = known_for(pid); procs = []; rc = 0; vio = None; res = []
    try:
        # known findings: does the recorded failing case still fail?
        for key, rp, what in known:
            for b, exe in bins:
                mode = re.search(r"^mode: *(\S*)", open(os.path.join(V, rp)).read(), re.M).group(1)
                if mode not in b.get("modes", {"": 0}): continue
                r = subprocess.run([exe, "--replay", os.path.join(V, rp), "--mode", mode], cwd=scratch, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if b"FAIL [%s]" % key.encode() in r.stdout: print("KNOWN-FINDING: property=%s %s" % (pid, what))
        # work list: every binary, every mode, split over workers
        work = []
        for b, exe in bins:
            for mode, c in b.get("modes", {"": None}).items():
                cases, tl, ws = c[tier] if c else b[tier]
                for w in range(ws): work.append((exe, mode, max(1, cases // ws), tl, w))
        work.sort(key=lambda w: -w[3])
        pend = list(work); i = 0
        while pend or procs:
            while pend and len(procs) < nw:
                exe, mode, cases, tl, w = pend.pop(0); i += 1
                sd = os.path.join(scratch, "w%d" % i); os.makedirs(sd); out = os.path.join(scratch, "out%d.json" % i)
                cmd = [exe, "--seed", str(seed), "--worker", str(w), "--cases", str(cases), "--time", str(tl), "--out", out, "--rdir", rdir, "--mode", mode, "--property", pid]
                for k, _, _ in known: cmd += ["--known", k]
                p = subprocess.Popen(cmd, cwd=sd, env=ENV, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, "err%d" % i), "w"), start_new_session=True)
                procs.append((p, out, mode, i))
            for q in list(procs):
                if vio: break
                p, out, mode, k = q
                if p.poll() is None: continue
                procs.remove(q)
                if not os.path.exists(out) or p.returncode not in (0, 1):
                    print("harness error (%s, rc %s): %s" % (mode, p.returncode, open(os.path.join(scratch, "err%d" % k)).read()[-2000:])); rc = 2; continue
                try: d = json.load(open(out))
                except ValueError as e: print("harness output error", mode, e); rc = 2; continue
                d["mode"] = mode; res.append(d)
                if d.get("violation") and not vio: vio = d["violation"]; pend = []; \
                    [os.killpg(x[0].pid, signal.SIGKILL) for x in procs if x[0].poll() is None]; [x[0].wait() for x in procs]; procs = []
            time.sleep(0.02)
    finally:
        for q in procs:
            try: os.killpg(q[0].pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(scratch, ignore_errors=True)
    nt = set(); labels = {}; samples = []; per = {}
    for d in res:
        m = d["mode"]; nt.update(m + h for h in d["nt"]); e = per.setdefault(m or "default", {"evaluations": 0, "discarded": 0}); e["evaluations"] += d["evaluations"]; e["discarded"] += d["discards"]
        for k, v in d["labels"].items(): labels[(m + ":" if m else "") + k] = labels.get((m + ":" if m else "") + k, 0) + v
        if len(samples) < 24: samples += [{"mode": m, "case": s} for s in d["samples"][:2]]
        for k, v in d["known"].items(): labels["known-finding:" + k] = labels.get("known-finding:" + k, 0) + v[0]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
          "coverage": {"evaluations": sum(d["evaluations"] for d in res), "distinct_nontrivial": len(nt), "rule": spec["rule"], "samples": samples[:24] or ["none"],
                       "per_mode": per, "labels": dict(sorted(labels.items(), key=lambda x: -x[1])[:400]), "unreproducible": sum(d.get("unreproducible", 0) for d in res),
                       "unreproducible_note": next((d["unrepro_note"] for d in res if d.get("unreproducible")), "")},
          "violation": vio}
    atomic_write("%s/evidence/%s.json" % (V, pid), json.dumps(ev, indent=1).encode())
    if vio:
        print("[%s] %s" % (vio["key"], vio["msg"][:1500])); print("VIOLATION property=%s replay=%s" % (pid, vio["replay"])); return 1
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, ev["coverage"]["evaluations"], len(nt), time.time() - t0))
    return rc
if __name__ == "__main__": sys.exit(main())
