#!/usr/bin/env python3
"""Driver of the checks:  run.py <property> [--tier quick|thorough]   or   run.py --replay <file>

Builds the explorer programs of one property from the current tree of /repo, runs them (each enumerates its spaces
exhaustively), replays every reported violation and a set of recorded trace points in fresh processes, compares the
observations of related builds, and writes evidence/<property>.json."""
import json, os, sys, subprocess, time, shutil, struct, hashlib, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCMATH_REPO", "/repo")
sys.path.insert(0, HERE)
import specs

def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"

class Run:
    def __init__(self, prop, tier, only=None):
        self.prop, self.tier, self.seed = prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1)
        self.spec = specs.SPECS[prop]
        self.t0 = time.time()
        self.build = tempfile.mkdtemp(prefix="ccmv-%s-" % prop, dir=os.environ.get("VERIF_BUILD", None))
        self.jobs = [j for j in self.spec["jobs"] if (not j.get("tier") or tier in j["tier"]) and (not only or only in j["name"])]
        self.viol, self.known_hits, self.notes, self.samples, self.spaces = [], [], [], [], []
        self.states = self.transitions = self.validated = 0
        self.capped = []
        self.known = load_known(prop)

    # ------------------------------------------------------------------ build
    def flags(self, j):
        return [j["cc"]] + j["flags"] + ["-I", os.path.join(HERE, "src"), "-I", os.path.join(REPO, "include"), "-w", "-pthread"]
    def compile(self, j):
        src = os.path.join(HERE, "src", j["src"])
        exe = os.path.join(self.build, j["name"])
        gen = j.get("gen")
        t = time.time()
        extra = []
        if gen:
            d = os.path.join(self.build, j["name"] + ".d"); os.makedirs(d, exist_ok=True)
            rc, o, e = sh([sys.executable, os.path.join(HERE, "src", gen), d, self.tier, j["name"]], 120)
            if rc != 0: raise RuntimeError("generator failed: " + e[-2000:])
            extra = ["-I", d]
        rc, o, e = sh(self.flags(j) + extra + [src, "-o", exe] + j.get("ld", []), 850)
        return rc, e, time.time() - t
    # ------------------------------------------------------------------ run one program
    def run_job(self, j):
        exe = os.path.join(self.build, j["name"])
        out = os.path.join(self.build, j["name"] + ".out")
        hd = os.path.join(self.build, j["name"] + ".h"); os.makedirs(hd, exist_ok=True)
        cmd = [exe, "--out", out, "--hashdir", hd] + (["--thorough"] if self.tier == "thorough" else [])
        lim = 820 if self.tier == "quick" else 6 * 3600
        rc, o, e = sh(cmd, lim)
        recs = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                l = l.strip()
                if l.startswith("{"):
                    try: recs.append(json.loads(l))
                    except ValueError: pass
        return rc, recs, e
    def replay(self, j, pts, limit=120):
        """Re-executes points in a fresh single-purpose process.  Returns list of records, or a fatal record."""
        f = os.path.join(self.build, "rp-%s-%d.txt" % (j["name"], threading.get_ident()))
        with open(f, "w") as h:
            for op, w in pts: h.write("\t".join([op] + w) + "\n")
        rc, o, e = sh([os.path.join(self.build, j["name"]), "--replay", f], limit)
        recs = []
        for l in o.splitlines():
            if l.startswith("{"):
                try: recs.append(json.loads(l))
                except ValueError: pass
        return rc, recs
    def report(self, j, op, w, got, want, why, peer=None):
        k = self.is_known(op, w, j)
        if k: self.known_hits.append(k); return
        d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
        rec = dict(property=self.prop, job=j["name"], peer=peer, op=op, words=w, got=got, want=want, why=why, tier=self.tier,
                   build=" ".join(self.flags(j) + [os.path.join(HERE, "src", j["src"])] + j.get("ld", [])))
        json.dump(rec, open(path, "w"), indent=1)
        self.viol.append((path, rec))
    def is_known(self, op, w, j):
        for k in self.known:
            if k["op"] == op and k["words"] == [x.lower() for x in w] and (not k.get("job") or k["job"] == j["name"]): return k
        return None
    # ------------------------------------------------------------------ whole check
    def main(self):
        byname = {j["name"]: j for j in self.jobs}
        bad_build = []
        compiled = {}
        with ThreadPoolExecutor(8) as ex:
            futs = [(j, ex.submit(self.compile, j)) for j in self.jobs]
            for j, f in futs:
                rc, e, dt = f.result()
                if rc is None: rc, e, dt = self.compile(j)
                if rc != 0:
                    # the library no longer compiles / no longer constant-evaluates in this configuration
                    rc2, e2, _ = self.compile(j)
                    if rc2 == 0: rc = 0
                if rc != 0:
                    lines = [l for l in e.splitlines() if "error" in l][:6] or e.splitlines()[-6:]
                    self.report(j, "build", [], "does not compile", "compiles", "\n".join(lines)); bad_build.append(j["name"]); continue
                compiled[j["name"]] = dt
                self.explore(j)
        self.relations(compiled)
        self.finish()
    def explore(self, j):
        rc, recs, err = self.run_job(j)
        fatal = [r for r in recs if "fatal" in r]
        done = any("done" in r for r in recs)
        if fatal:
            f = fatal[0]
            rc2, rr = self.replay(j, [(f["op"], f["w"])], 150)
            confirmed = rc2 is None or rc2 != 0 or any("fatal" in x for x in rr)
            if confirmed: self.report(j, f["op"], f["w"], f["fatal"], "returns normally", "fatal")
            else: raise RuntimeError("unconfirmed fatal event in %s: %s" % (j["name"], f))
        elif rc is None:
            raise RuntimeError("job %s ran out of time" % j["name"])
        elif rc in (-4, -5, -6, -7, -8, -11):
            # the library brought the process down before the faulting point could be recorded
            rc, recs2, err = self.run_job(j)
            if rc not in (3, -4, -5, -6, -7, -8, -11): raise RuntimeError("job %s ended abnormally once" % j["name"])
            self.report(j, "process", [], "killed by a signal", "runs to the end", "rc %s" % rc)
        elif not done or rc != 0:
            raise RuntimeError("job %s ended abnormally rc=%s %s" % (j["name"], rc, err[-500:]))
        pts, want = [], []
        for r in recs:
            if "note" in r: self.notes.append("%s: %s" % (j["name"], r["note"]))
            if "op" in r and "points" in r:
                self.states += r["points"]; self.transitions += r["calls"]
                self.spaces.append(dict(job=j["name"], space=r["op"], points=r["points"], size=r["space"], secs=r["secs"]))
                if r["points"] < r["space"]: self.capped.append("%s/%s stopped at %d of %d after %d violations" % (j["name"], r["op"], r["points"], r["space"], r["nviol"]))
                for v in r["viol"]:
                    rc2, rr = self.replay(j, [(r["op"], v["w"])])
                    if rc2 is None or rc2 != 0 or any((not x.get("ok", True)) or "fatal" in x for x in rr):
                        self.report(j, r["op"], v["w"], v["got"], v["want"], "%d of %d points" % (r["nviol"], r["points"]))
                    else: self.notes.append("unconfirmed: %s %s %s" % (j["name"], r["op"], v))
                for t in r["trace"]: pts.append((r["op"], t["w"])); want.append(t["got"])
                for t in r["trace"][len(r["trace"]) // 2:][:1]:
                    if len(self.samples) < 60: self.samples.append(dict(job=j["name"], space=r["op"], operands=t["w"], observed=t["got"]))
            if "rel" in r:
                self.states += r["points"]; self.transitions += r["calls"]
                self.spaces.append(dict(job=j["name"], space=r["rel"], points=r["points"], size=r["points"], secs=r["secs"]))
                j.setdefault("_rel", {})[r["rel"]] = r
                for t in r["trace"]: pts.append((r["rel"], t["w"])); want.append(t["got"])
                for t in r["trace"][len(r["trace"]) // 2:][:1]:
                    if len(self.samples) < 60: self.samples.append(dict(job=j["name"], space=r["rel"], operands=t["w"], observed=t["got"]))
        # conformance of the recorded traces: re-execute them against the implementation in a fresh process
        if pts and not fatal:
            rc2, rr = self.replay(j, pts, 300)
            bad = {tuple(v[1]["words"]) for v in self.viol}
            exp = {}
            for (op, w), g in zip(pts, want): exp.setdefault((op, tuple(w)), set()).add(g)
            for r in rr:
                if "replay" in r:
                    k = (r["replay"], tuple(r["w"]))
                    if k in exp:
                        if r["got"] in exp[k]: self.validated += 1
                        else: self.notes.append("trace differs in a fresh process: %s %s" % (j["name"], k)); self.report(j, k[0], list(k[1]), r["got"], sorted(exp[k])[0], "observation differs between two executions of the same call")
    def relations(self, compiled):
        for names in self.spec.get("relations", []):
            js = [j for j in self.jobs if j["name"] in names and j["name"] in compiled]
            if len(js) < 2: continue
            a = js[0]
            for b in js[1:]:
                for op, ra in a.get("_rel", {}).items():
                    rb = b.get("_rel", {}).get(op)
                    if not rb or ra["points"] != rb["points"]: raise RuntimeError("relation %s missing in %s" % (op, b["name"]))
                    ha, hb = open(ra["hash"], "rb").read(), open(rb["hash"], "rb").read()
                    if ha == hb: continue
                    n = len(ha) // 8
                    blocks = [i for i in range(n) if ha[8 * i:8 * i + 8] != hb[8 * i:8 * i + 8]]
                    found = 0
                    for blk in blocks[:20]:
                        lo = blk * ra["block"]
                        da, db = [sh([os.path.join(self.build, x["name"]), "--dump", op, str(lo), str(lo + ra["block"])] + (["--thorough"] if self.tier == "thorough" else []), 300)[1].splitlines() for x in (a, b)]
                        for la, lb in zip(da, db):
                            if la != lb:
                                xa, xb = json.loads(la), json.loads(lb)
                                r1 = self.replay(a, [(op, xa["w"])])[1]; r2 = self.replay(b, [(op, xb["w"])])[1]
                                if r1 and r2 and r1[0]["got"] != r2[0]["got"]:
                                    self.report(b, op, xa["w"], r2[0]["got"], r1[0]["got"], "%s and %s disagree (%d of %d blocks differ)" % (a["name"], b["name"], len(blocks), n), peer=a["name"])
                                    found += 1
                                if found >= 4: break
                        if found >= 4: break
                    if not found: raise RuntimeError("hash of %s differs between %s and %s but no point does" % (op, a["name"], b["name"]))
    def finish(self):
        seen = set()
        for k in self.known_hits:
            key = (k["op"], tuple(k["words"]))
            if key in seen: continue
            seen.add(key); print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        # one VIOLATION line per (job, op), the first (smallest index) example each
        shown = set()
        for path, rec in self.viol:
            key = (rec["job"], rec["op"])
            if key in shown: continue
            shown.add(key)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, HERE)))
            print("  %s/%s at %s: got %s, expected %s (%s)" % (rec["job"], rec["op"], rec["words"], rec["got"], rec["want"], rec["why"]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - self.t0, 2), violations=len(self.viol),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated, samples=self.samples,
                                exhaustive=not self.capped, spaces=self.spaces, configurations=[dict(name=j["name"], compiler=j["cc"], flags=" ".join(j["flags"]), source=j["src"]) for j in self.jobs],
                                capped=self.capped, notes=self.notes,
                                meaning="states: (configuration, operation, operand tuple, environment) points enumerated; transitions: library calls executed and judged on them; traces_validated_against_impl: recorded points re-executed against the implementation in a fresh process with identical observations"),
                  assumptions=self.spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.build, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces validated, %d violations, %.1f s" % (self.prop, self.tier, self.states, self.transitions, self.validated, len(self.viol), time.time() - self.t0))
        sys.exit(1 if self.viol else 0)

def load_known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            d = json.loads(l)
            if d["property"] == prop: r.append(d)
    return r

def replay_file(path):
    rec = json.load(open(path))
    r = Run(rec["property"], rec.get("tier", "quick"))
    try:
        js = {j["name"]: j for j in specs.SPECS[rec["property"]]["jobs"]}
        j = js[rec["job"]]
        rc, e, _ = r.compile(j)
        if rec["op"] == "build":
            print(e[-3000:]); sys.exit(1 if rc else 0)
        rc2, rr = r.replay(j, [(rec["op"], rec["words"])])
        print(json.dumps(rr, indent=1))
        if rec.get("peer"):
            pj = js[rec["peer"]]; r.compile(pj); _, r3 = r.replay(pj, [(rec["op"], rec["words"])])
            print(json.dumps(r3, indent=1)); sys.exit(1 if r3 and rr and r3[0]["got"] != rr[0]["got"] else 0)
        sys.exit(1 if rc2 != 0 or any(not x.get("ok", True) or "fatal" in x for x in rr) else 0)
    finally:
        shutil.rmtree(r.build, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--replay": replay_file(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    only = a[a.index("--job") + 1] if "--job" in a else None
    r = Run(a[0], tier, only)
    try: r.main()
    except SystemExit: raise
    except BaseException as ex:
        shutil.rmtree(r.build, ignore_errors=True)
        import traceback; traceback.print_exc()
        sys.exit(2)
