#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py --prop P07 [--tier quick|thorough]     run the check of one property
  check.py --replay FILE                          replay a reported failure
  check.py --setup                                sanity check of the toolchain

Every decision of a run comes from VERIF_SEED (default 1) and the run number.
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line.
Exit 2: the machinery could not run (for example the tree does not compile).
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("VERIF_OUT", HERE)        # evidence/ and replays/ go here
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, HERE)
from props import PROPS, UNITS, COMMON   # noqa: E402

CXX = "clang++"
ASAN_ENV = dict(os.environ)
ASAN_ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:handle_abort=0:"
                            "detect_stack_use_after_return=0:quarantine_size_mb=64:symbolize=0:print_scariness=0:malloc_context_size=4")
for k in ("LD_PRELOAD", "LSAN_OPTIONS", "UBSAN_OPTIONS"):
    ASAN_ENV.pop(k, None)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "viennagrid"), os.path.join(HERE, "sim"), os.path.join(HERE, "harness")):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:20]


def compile_one(cmd, out):
    if os.path.exists(out):
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        try: os.unlink(tmp)
        except OSError: pass
        lines = [l[:300] for l in r.stderr.decode("utf8", "replace").splitlines() if "error" in l]
        return " ".join(cmd[-3:]) + "\n" + "\n".join(lines[:12])
    os.replace(tmp, out)
    return None


def build(unit_names):
    """compiles the named units against the current tree; returns {unit: binary}"""
    key = hashlib.sha256((tree_hash() + json.dumps([UNITS[u] for u in sorted(UNITS)], sort_keys=True)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, key)
    os.makedirs(d, exist_ok=True)
    # keep the build directory small: drop results for older trees
    for old in os.listdir(BUILD):
        if old != key:
            try:
                if time.time() - os.stat(os.path.join(BUILD, old)).st_mtime > 3600:
                    shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
            except OSError: pass
    jobs, bins = [], {}
    cores = set()
    for u in unit_names:
        spec = UNITS[u]
        core = spec.get("core", "asan")
        cores.add(core)
        obj = os.path.join(d, u + ".o")
        cmd = [CXX, "-std=gnu++98", "-w"] + COMMON[core]["unit"] + ["-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "harness"), "-I" + REPO] + \
              spec.get("defs", []) + ["-c", os.path.join(HERE, "harness", spec["src"])]
        jobs.append((spec.get("cost", 1), cmd, obj))
        bins[u] = (os.path.join(d, u), obj, core)
    for core in sorted(cores):
        for src in COMMON[core]["srcs"]:
            cmd = [CXX, "-std=gnu++17", "-w"] + COMMON[core]["core"] + ["-I" + os.path.join(HERE, "sim"), "-c", os.path.join(HERE, "sim", src)]
            jobs.append((0, cmd, os.path.join(d, core + "_" + src + ".o")))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[1], j[2]), jobs) if e]
    if errs:
        print("cannot build the harness against this tree:")
        print("\n".join(errs))
        sys.exit(2)
    links = []
    for u, (b, obj, core) in bins.items():
        objs = [os.path.join(d, core + "_" + s + ".o") for s in COMMON[core]["srcs"]]
        links.append(([CXX] + COMMON[core]["link"] + [obj] + objs + UNITS[u].get("libs", []) + ["-ldl", "-lpthread"], b))
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[0], j[1]), links) if e]
    if errs:
        print("cannot link the harness:")
        print("\n".join(errs))
        sys.exit(2)
    return {u: b for u, (b, _, _) in bins.items()}


# ------------------------------------------------------------------ running
class Result:
    """one finished run that did not end well"""
    def __init__(self, unit, index, rule, detail, hash_=None):
        self.unit, self.index, self.rule, self.detail, self.hash = unit, index, rule, detail, hash_


def crash_rule(rc, out, err):
    """classifies the end of a process that died in the middle of a run"""
    for l in out:
        if l.startswith("C hang"):
            return "hang", l[2:]
        if l.startswith("C memory"):
            return "memory", l[2:]
    txt = err.decode("utf8", "replace")
    m = re.search(r"ERROR: AddressSanitizer: ([a-zA-Z0-9_-]+)", txt)
    if m:
        return "asan-" + m.group(1), first_line(txt, "ERROR: AddressSanitizer")
    m = re.search(r"Assertion `(.*)' failed", txt)
    if m:
        return "assert", "assertion failed: " + m.group(1)[:160]
    if "terminate called" in txt:
        return "terminate", first_line(txt, "terminate called")
    for l in out:
        if l.startswith("C "):
            return "abort", l[2:]
    return "crash", "process ended with status %s" % rc


def first_line(txt, what):
    for l in txt.splitlines():
        if what in l:
            l = re.sub(r"0x[0-9a-f]+", "0x..", l)
            l = re.sub(r"==\d+==", "", l)
            return l[:200]
    return what


def run_proc(args, timeout):
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ASAN_ENV, cwd="/")
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        to = True
    return p.returncode, out.decode("utf8", "replace").splitlines(), err, to


class Agg:
    def __init__(self):
        self.lock = threading.Lock()
        self.counters, self.cov, self.states, self.nstates = {}, {}, set(), 0
        self.hashes = {}
        self.nondet = []
        self.bad = []
        self.samples = []
        self.ok = 0

    def take(self, unit, lines):
        with self.lock:
            for l in lines:
                k = l[:2]
                if k == "S ":
                    _, key, v = l.split(" ")
                    v = int(v)
                    if key.startswith("max."):
                        kk = key[4:] + "." + unit
                        self.counters[kk] = max(self.counters.get(kk, 0), v)
                    else:
                        self.counters[key] = self.counters.get(key, 0) + v
                elif k == "G ":
                    v = int(l[2:][::-1] or "0", 16)
                    self.cov[unit] = self.cov.get(unit, 0) | v
                elif l.startswith("H "):
                    if len(self.states) < 5000000:
                        self.states.update(l[2:].split(" "))
                elif k == "N ":
                    self.nondet.append((unit, int(l[2:])))
                elif k == "E ":
                    _, i, st, h = l.split(" ")
                    if st == "ok": self.ok += 1
                    self.hashes[(unit, int(i))] = h


def run_chunk(binary, unit, prop, seed, first, count, thorough, agg, stop, dup, wall, known, deadline):
    """runs [first, first+count) in child processes, restarting after a crash"""
    i, end = first, first + count

    def failed(r):
        with agg.lock: agg.bad.append(r)
        if not is_known(known, prop, r.unit, r.rule, r.detail): stop.set()

    while i < end and not stop.is_set():
        if time.time() > deadline:
            with agg.lock: agg.counters["skipped_runs"] = agg.counters.get("skipped_runs", 0) + end - i
            return
        args = [binary, "--prop", prop, "--seed", str(seed), "--first", str(i), "--count", str(end - i)]
        if thorough: args.append("--thorough")
        if dup: args += ["--dup", str(dup)]
        rc, out, err, to = run_proc(args, wall)
        agg.take(unit, out)
        cur, details = None, {}
        for l in out:
            if l.startswith("B "): cur = int(l[2:])
            elif l.startswith("V "):
                _, n, rest = l.split(" ", 2)
                rule, _, det = rest.partition(" | ")
                details[int(n)] = (rule, det)
            elif l.startswith("E "): cur = None
        for n, (rule, det) in details.items():
            failed(Result(unit, n, rule, det))
        if out and out[-1].startswith("D done"):
            return
        if cur is None:
            # died outside a run: retry once from where it stopped is pointless, treat as machinery failure
            failed(Result(unit, i, "machinery", "simulator ended outside a run, status %s" % rc))
            return
        if to: rule, det = "stall", "no progress within %d s" % wall
        else: rule, det = crash_rule(rc, out, err)
        failed(Result(unit, cur, rule, det))
        i = cur + 1


def replay_plan(binary, plan, wall=240):
    rc, out, err, to = run_proc([binary, "--plan", plan], wall)
    h = None
    for l in out:
        if l.startswith("E "): h = l.split(" ")[3]
    for l in out:
        if l.startswith("V "):
            rule, _, det = l.split(" ", 2)[2].partition(" | ")
            return rule, det, h
    if to: return "stall", "no progress within %d s" % wall, h
    if rc == 0: return None, None, h
    rule, det = crash_rule(rc, out, err)
    return rule, det, h


def read_plan(path):
    head, ops = [], []
    for l in open(path):
        if l.startswith("op "): ops.append(l)
        elif l.strip(): head.append(l)
    return head, ops


def write_plan(path, head, ops):
    with open(path, "w") as f:
        f.writelines(head)
        f.writelines(ops)


def minimise(binary, plan, rule, tmpdir, budget):
    """delta debugging over the operations of a plan; every candidate runs in a fresh process"""
    head, ops = read_plan(plan)
    end = time.time() + budget
    n = [0]

    def bad_many(cands):
        """first candidate (in order) that still fails with the same rule"""
        files = []
        for c in cands:
            n[0] += 1
            f = os.path.join(tmpdir, "c%d.plan" % n[0])
            write_plan(f, head, c)
            files.append(f)
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda f: replay_plan(binary, f, 60)[0] == rule, files))
        for f in files: os.unlink(f)
        for c, r in zip(cands, rs):
            if r: return c
        return None

    gran = 2
    while len(ops) >= 2 and time.time() < end:
        size = max(1, len(ops) // gran)
        cands = [ops[:k] + ops[k + size:] for k in range(0, len(ops), size)]
        found = None
        for k in range(0, len(cands), NPROC):
            found = bad_many(cands[k:k + NPROC])
            if found is not None or time.time() > end: break
        if found is not None:
            ops = found
            gran = max(2, gran - 1)
        elif size == 1: break
        else: gran = min(len(ops), gran * 2)
    # shrink numeric arguments towards zero
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(ops)):
            f = ops[i].split("#")[0].split()
            tail = "#" + ops[i].split("#", 1)[1] if "#" in ops[i] else "\n"
            cands = []
            for a in range(3, 8):
                if a < len(f) and int(f[a]) != 0:
                    for v in (0, int(f[a]) // 2):
                        if v != int(f[a]):
                            g = list(f); g[a] = str(v)
                            cands.append(ops[:i] + [" ".join(g) + " " + tail] + ops[i + 1:])
            if cands and time.time() < end:
                c = bad_many(cands)
                if c is not None:
                    ops = c; changed = True
    return head, ops


def gate(bins, res, prop, seed, thorough, tmpdir):
    """re-runs a failing run in fresh processes; returns the replay file, or None if it does not reproduce"""
    binary = bins[res.unit]
    args = [binary, "--prop", prop, "--seed", str(seed), "--first", str(res.index), "--count", "1", "--dump"]
    if thorough: args.append("--thorough")
    rc, out, err, to = run_proc(args, 60)
    plan = os.path.join(tmpdir, "full.plan")
    with open(plan, "w") as f:
        f.write("\n".join(l for l in out if l.split(" ")[0] in ("prop", "cfg", "op")) + "\n")
    r1 = replay_plan(binary, plan)
    r2 = replay_plan(binary, plan)
    if r1[0] is None or r1[0] != r2[0] or (r1[2] and r2[2] and r1[2] != r2[2]):
        return None, "run %d of %s did not reproduce (%s / %s / %s)" % (res.index, res.unit, res.rule, r1, r2)
    rule = r1[0]
    head, ops = minimise(binary, plan, rule, tmpdir, 60 if not thorough else 240)
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    dst = os.path.join(OUT, "replays", "%s-%s-%d-%d.plan" % (prop, res.unit, seed, res.index))
    tmp = os.path.join(tmpdir, "final.plan")
    write_plan(tmp, head, ops)
    m1, m2 = replay_plan(binary, tmp), replay_plan(binary, tmp)
    if m1[0] != rule or m2[0] != rule:
        head, ops = read_plan(plan)
        m1 = r1
    with open(dst, "w") as f:
        f.write("# replay: python3 %s --replay %s\n" % (os.path.join(HERE, "check.py"), dst))
        f.write("# unit %s seed %d run %d\n# rule %s\n# what %s\n" % (res.unit, seed, res.index, rule, (m1[1] or "").replace("\n", " ")))
        f.writelines(head)
        f.writelines(ops)
    return dst, "%s: %s" % (rule, m1[1])


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p)).get("known", [])


def is_known(known, prop, unit, rule, detail):
    for k in known:
        if k["property"] == prop and re.fullmatch(k.get("unit", ".*"), unit) and re.fullmatch(k["rule"], rule) and re.search(k["match"], detail or ""):
            return k
    return None


def check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    thorough = tier == "thorough"
    units = spec["units"]
    bins = build([u for u, _, _ in units])
    t_build = time.time() - t0
    known = load_known()
    agg, stop = Agg(), threading.Event()
    wall = 1800 if thorough else 420
    jobs = []
    for u, nq, nt in units:
        n = nt if thorough else nq
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = max(1, int(n * scale))
        chunk = max(1, min(spec.get("chunk", 50), (n + NPROC - 1) // NPROC))
        for first in range(0, n, chunk):
            jobs.append((u, first, min(chunk, n - first), first / n, UNITS[u].get("cost", 1)))
    jobs.sort(key=lambda j: (j[3], -j[4]))     # all units advance together
    deadline = t0 + (14000 if thorough else 600)
    t1 = time.time()
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: run_chunk(bins[j[0]], j[0], prop, seed, j[1], j[2], thorough, agg, stop, 16, wall, known, deadline), jobs))
    t_run = time.time() - t1

    violations, unreproduced, known_hits = [], [], {}
    tmpdir = tempfile.mkdtemp(prefix="vsim")
    try:
        agg.bad.sort(key=lambda r: (r.unit, r.index))
        tried = 0
        for r in agg.bad:
            k = is_known(known, prop, r.unit, r.rule, r.detail)
            if k:
                known_hits[k["id"]] = k
                continue
            if r.rule == "machinery":
                print("the simulator failed: " + r.detail)
                sys.exit(2)
            tried += 1
            if tried > 6: break
            f, what = gate(bins, r, prop, seed, thorough, tmpdir)
            if f is None:
                unreproduced.append(what)
                continue
            violations.append((f, what))
            break
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    if agg.nondet:
        unreproduced.append("%d runs gave another history when repeated: %s" % (len(agg.nondet), agg.nondet[:5]))

    write_evidence(prop, tier, seed, spec, agg, t_build, t_run, time.time() - t0, len(violations), unreproduced)
    c = agg.counters
    print("%s %s seed=%d: %d runs, %d operations, %d faults injected, %d distinct states, build %.0f s, run %.0f s" % (
        prop, tier, seed, c.get("runs", 0), c.get("ops", 0), sum(v for k, v in c.items() if k.startswith("fault.")), len(agg.states), t_build, t_run))
    for u in unreproduced: print("note: not reported, " + u)
    for k in known_hits.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for k in known:
        if k["property"] == prop and k["id"] not in known_hits and k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f, what in violations:
        print(what)
        print("VIOLATION property=%s replay=%s" % (prop, f))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, spec, agg, t_build, t_run, wall, nviol, unreproduced):
    c = agg.counters
    runs = c.get("runs", 0)
    cov = {u: bin(v).count("1") for u, v in agg.cov.items()}
    faults = {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")}
    ops = {k[3:]: v for k, v in sorted(c.items()) if k.startswith("op.")}
    checks = {k[6:]: v for k, v in sorted(c.items()) if k.startswith("check.")}
    other = {k: v for k, v in sorted(c.items()) if k.split(".")[0] not in ("fault", "op", "check")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": int(max(1, runs)),
            "distinct_nontrivial": int(min(c.get("distinct_plans", runs), runs)),
            "rule": "one evaluation = one simulated run; distinct = different generated operation/fault plan; every plan contains at least one mutating operation of the property and ends with the full oracle",
            "samples": agg.samples[:5] or ["%s run %d history hash %s" % (u, i, h) for (u, i), h in sorted(agg.hashes.items())[:8]],
            "runs": runs, "runs_per_hour": int(runs / t_run * 3600) if t_run > 0 else 0,
            "seeds": runs, "operations": ops, "oracle_checks": checks, "faults_injected": faults,
            "distinct_states": len(agg.states),
            "state_measure": spec.get("state_measure", "hash of the reference model (elements, ids, segments, caches asked) after each operation"),
            "simulated_steps": c.get("steps", 0),
            "simulated_time_note": "the system has no clock; simulated time is counted in executed basic blocks of the code under test",
            "covered_edges": cov, "determinism": {"runs_repeated": c.get("determinism.checked", 0), "mismatches": c.get("determinism.mismatch", 0)},
            "components_real": spec.get("real", "all library headers under /repo/viennagrid"),
            "components_stubbed": spec.get("stub", "file system below /sim, operator new"),
            "not_reproduced": unreproduced, "other_counters": other,
        },
        "wall_s": round(wall, 2), "build_s": round(t_build, 2), "run_s": round(t_run, 2),
        "assumptions": spec.get("assumptions", []), "violations": nviol,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    p = os.path.join(OUT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(p + ".tmp", p)


def replay(path):
    unit = None
    for l in open(path):
        m = re.match(r"# unit (\S+)", l)
        if m: unit = m.group(1)
    bins = build([unit])
    head, ops = read_plan(path)
    prop = [l.split()[1] for l in head if l.startswith("prop ")][0]
    r = replay_plan(bins[unit], path)
    if os.environ.get("VERIF_VERBOSE"):
        print("\n".join(run_proc([bins[unit], "--plan", path, "--verbose"], 240)[1]))
    if r[0] is None:
        print("the property holds on this plan")
        return 0
    print("%s: %s" % (r[0], r[1]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--tier", default=None); ap.add_argument("--replay"); ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        r = sh([CXX, "--version"])
        print(r.stdout.decode().splitlines()[0])
        return 0 if r.returncode == 0 else 2
    if a.replay: return replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    return check(a.prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
