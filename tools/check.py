#!/usr/bin/env python3
"""Run the monitored workloads of one property.

check.py PROP [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery could not decide.
"""
import json, os, re, subprocess, sys, time, threading, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, HERE)
import gen_build
from props import PROPS

JOBS = int(os.environ.get("VF_JOBS", "8"))

ENV = dict(os.environ)
ENV.update({
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=203:detect_stack_use_after_return=1:handle_abort=1:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4",
    "LC_ALL": "C",
})

def build(harness):
    gen_build.main()
    r = subprocess.run(["ninja", "-f", os.path.join(BUILD, "build.ninja"), "-j", str(JOBS), harness],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        print("ERROR: build of %s failed" % harness)
        sys.exit(2)
    for cfg in ("san", "tsan"):
        p = os.path.join(BUILD, cfg, harness)
        if os.path.exists(p) and ("build " + p + ":") in open(os.path.join(BUILD, "build.ninja")).read():
            return p
    print("ERROR: no binary"); sys.exit(2)

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")
def crash_key(err):
    """(kind, function) of the innermost frame in geometry-central's own sources."""
    kind = "crash"
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m: kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.{0,80})", err)
    if m2:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|'[^']*'", "", m2.group(1).lower())).strip("-")[:50]
    if "ThreadSanitizer" in err: kind = "tsan-race"
    if "Assertion" in err and ("eigen" in err.lower() or "Eigen" in err): kind = "eigen-assert"
    elif "Assertion" in err: kind = "assert"
    fn = "unknown"
    for f in FRAME.finditer(err):
        if "/repo/" in f.group(2) or "geometrycentral" in f.group(2):
            fn = re.sub(r"\(.*", "", re.sub(r"<.*?>", "", f.group(1))).split("::")[-1].strip()
            break
    return kind + "@" + fn

class Shard:
    def __init__(self, binp, seed, frm, to, tier, hang_s, extra, env):
        self.binp, self.seed, self.frm, self.to, self.tier, self.hang_s = binp, seed, frm, to, tier, hang_s
        self.extra = extra; self.env = env
        self.fails = []; self.sigs = set(); self.stats = {}; self.ran = 0; self.errors = []; self.cases_by_fam = {}
        self.samples = []

    def one(self, frm, to):
        cmd = [self.binp, "--seed", str(self.seed), "--from", str(frm), "--to", str(to)] + self.extra
        if self.tier == "thorough": cmd.append("--thorough")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             env=self.env, start_new_session=True)
        state = {"last": time.time(), "cur": None, "fam": "", "done": False, "hung": False}
        errbuf = []
        def rd_err():
            n = 0
            for l in p.stderr:
                n += len(l)
                errbuf.append(l)
                if n > 400000: del errbuf[: len(errbuf) // 2]; n //= 2
        def watch():
            while p.poll() is None:
                if time.time() - state["last"] > self.hang_s:
                    state["hung"] = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except Exception: pass
                    return
                time.sleep(0.5)
        te = threading.Thread(target=rd_err, daemon=True); te.start()
        tw = threading.Thread(target=watch, daemon=True); tw.start()
        for l in p.stdout:
            l = l.rstrip("\n")
            if l.startswith("CASE "):
                a = l.split(); state["cur"] = int(a[1]); state["fam"] = " ".join(a[2:]); state["last"] = time.time()
                self.ran += 1
            elif l.startswith("FAIL "):
                m = re.match(r"FAIL case=(\d+) fam=(.*?) key=(.*?) msg=(.*)$", l)
                if m: self.fails.append({"case": int(m.group(1)), "fam": m.group(2), "key": m.group(3), "msg": m.group(4)})
                else: self.fails.append({"case": state["cur"] or 0, "fam": state["fam"], "key": "unparsed-fail", "msg": l})
            elif l.startswith("SIG "):
                self.sigs.add(l[4:])
            elif l.startswith("SAMPLE "):
                if len(self.samples) < 3: self.samples.append(l[7:400])
            elif l.startswith("STAT "):
                _, k, v = l.split(" ", 1)[0], l[5:].rsplit(" ", 1)[0].replace(" ", "_"), l.rsplit(" ", 1)[1]; self.stats[k] = self.stats.get(k, 0) + int(v)
            elif l.startswith("DONE"):
                state["done"] = True
        p.wait(); te.join(10)
        return p.returncode, state, "".join(errbuf)

    def run(self):
        frm = self.frm; crashes = 0
        while frm < self.to:
            rc, st, err = self.one(frm, self.to)
            if st["done"] and rc in (0, 10): return
            if st["done"] and rc == 66 or ("ThreadSanitizer" in err and st["done"]):
                self.fails.append({"case": st["cur"], "fam": st["fam"], "key": crash_key(err), "msg": " ".join(err.split())[:1500]})
                return
            if st["cur"] is None:
                self.errors.append("harness ended rc=%s before any case: %s" % (rc, err[-1500:])); return
            if st["hung"]:
                # one re-run alone with three times the allowance: only then is it a hang
                old = self.hang_s; self.hang_s = old * 3
                rc2, st2, err2 = self.one(st["cur"], st["cur"] + 1)
                self.hang_s = old
                if st2["hung"]:
                    self.fails.append({"case": st["cur"], "fam": st["fam"], "key": "hang@" + st["fam"], "msg": "no progress within %ss, twice" % (old * 3)})
                elif not st2["done"]:
                    self.fails.append({"case": st["cur"], "fam": st["fam"], "key": crash_key(err2), "msg": " ".join(err2.split())[:1500]})
            else:
                if rc == -9:
                    self.errors.append("killed (out of memory?) at case %s" % st["cur"]); return
                self.fails.append({"case": st["cur"], "fam": st["fam"], "key": crash_key(err), "msg": "process died rc=%s: " % rc + " ".join(err.split())[:1800]})
            crashes += 1
            if crashes >= 4: return
            frm = st["cur"] + 1

def load_known(prop):
    p = os.path.join(VERIF, "known", "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) probe=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"harness": m.group(2), "probe": m.group(3), "key": m.group(4), "what": m.group(5)})
    return out

def run_probe(binp, probe, seed, env):
    sh = Shard(binp, seed, 0, 1, "quick", 120, ["--probe", probe], env)
    rc, st, err = sh.one(0, 1)
    if rc == 3: return "noprobe", ""
    if st["hung"]: return "hang@" + probe, "hang"
    if not st["done"]: return crash_key(err), " ".join(err.split())[:600]
    if sh.fails: return sh.fails[0]["key"], sh.fails[0]["msg"]
    return None, ""

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    t0 = time.time()
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        binp = build(rp["harness"])
        cmd = [binp] + rp["args"] + ["--verbose"]
        print("+", " ".join(cmd)); sys.stdout.flush()
        sys.exit(subprocess.run(cmd, env=ENV).returncode)
    samples = []; allfails = []; sigs = set(); stats = {}; ran = 0; errors = []; known_seen = []; per = {}
    for H in P["harness"]:
        binp = build(H["name"])
    for H in P["harness"]:
        binp = build(H["name"])
        env = dict(ENV); env.update(H.get("env", {}))
        n = H["quick"] if tier == "quick" else H["thorough"]
        if "--cases" in sys.argv: n = int(sys.argv[sys.argv.index("--cases") + 1])
        jobs = min(JOBS, n)
        chunk = max(1, min(-(-n // jobs), H.get("chunk", 10**9)))
        shards = []
        lo = 0
        k = -(-n // (chunk))
        for i in range(k):
            a, b = i * chunk, min(n, (i + 1) * chunk)
            if a < b: shards.append(Shard(binp, seed, a, b, tier, H.get("hang_s", 60), [], env))
        sem = threading.Semaphore(jobs)
        def go(s):
            with sem:
                try: s.run()
                except Exception as e: s.errors.append("check driver: %r" % e)
        ths = [threading.Thread(target=go, args=(s,)) for s in shards]
        [t.start() for t in ths]; [t.join() for t in ths]
        for s in shards:
            for f in s.fails: f["harness"] = H["name"]
            allfails += s.fails; sigs |= {H["name"] + x for x in s.sigs}; ran += s.ran; errors += s.errors
            samples += s.samples
            for kk, v in s.stats.items(): stats[kk] = stats.get(kk, 0) + v
    for kf in load_known(prop):
        binp = build(kf["harness"])
        key, msg = run_probe(binp, kf["probe"], seed, ENV)
        if key == kf["key"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            known_seen.append({"probe": kf["probe"], "key": key, "what": kf["what"]})
        elif key is not None and key != "noprobe":
            allfails.append({"harness": kf["harness"], "case": 0, "fam": "probe:" + kf["probe"], "key": key, "msg": "known-finding probe failed differently: " + msg})
        elif key == "noprobe":
            errors.append("probe %s missing" % kf["probe"])
    seen = {}
    for f in allfails:
        seen.setdefault(f["key"], f)
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    vio = []
    for k, f in seen.items():
        name = re.sub(r"[^A-Za-z0-9_.@-]", "_", "%s-%s" % (prop, k))[:120] + ".json"
        rp = os.path.join(rdir, name)
        if f["fam"].startswith("probe:"):
            args = ["--seed", str(seed), "--probe", f["fam"][6:]]
        else:
            args = ["--seed", str(seed), "--case", str(f["case"])] + (["--thorough"] if tier == "thorough" else [])
        json.dump({"property": prop, "harness": f["harness"], "args": args, "fam": f["fam"], "key": k, "msg": f["msg"],
                   "how": "python3 tools/check.py %s --replay <this file>" % prop}, open(rp, "w"), indent=1)
        vio.append({"key": k, "replay": os.path.relpath(rp, VERIF), "msg": f["msg"][:400], "case": f["case"], "family": f["fam"]})
    need = P.get("min_nontrivial", 2)
    fams = {k[6:]: v for k, v in stats.items() if k.startswith("cases.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ran, "distinct_nontrivial": len(sigs),
            "rule": "%d seeded workload cases from %d families run against the real library built with ASan/UBSan, libstdc++ and Eigen assertions; "
                    "a case counts as nontrivial when its monitor evaluated its oracle on a generated input; cases are distinct by hash of the input and events" % (ran, len(fams)),
            "samples": samples[:24],
            "cases_per_family": fams,
            "observed": {k: v for k, v in sorted(stats.items()) if not k.startswith("cases.")},
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": P.get("assumptions", []),
        "violations": len(vio),
        "violation_details": vio[:20],
        "known_findings_observed": known_seen,
    }
    if errors: ev["errors"] = errors[:5]
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for v in vio[:10]:
        print("  %s: case %s family %s: %s" % (v["key"], v["case"], v["family"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    print("%s %s: %d cases, %d distinct nontrivial, %d violations, %.1fs" % (prop, tier, ran, len(sigs), len(vio), time.time() - t0))
    if vio: sys.exit(1)
    if errors:
        print("ERROR: " + errors[0]); sys.exit(2)
    if len(sigs) < need:
        print("ERROR: observed too little (%d < %d)" % (len(sigs), need)); sys.exit(2)
    sys.exit(0)
main()
