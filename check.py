#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Builds the harness against the tree (nothing is written there), runs the explorations of the
property, writes evidence/PROPERTY.json, and reports violations that are not known findings.
Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(V, "harness")
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from overlay import overlay
MODULE = "gitlab.com/alephledger/threshold-ecdsa/"

class Job:
    """One test binary: a package of the harness, built against the real or the tiny curve."""
    def __init__(self, pkg, kind="real", race=False, names=False, needs=False):
        self.pkg, self.kind, self.race, self.names, self.needs = pkg, kind, race, names, needs
    @property
    def name(self):
        return self.pkg.replace("/", "_") + "." + self.kind + (".race" if self.race else "")

both = lambda pkg: [Job(pkg, "tiny"), Job(pkg, "real", needs=True)]
JOBS = {p: both("base") for p in "C01 C02 C03 C04 E01 E02 Z01 Z02 Z03 Z04 H01".split()}
JOBS.update({p: both("arith") for p in "A01 A02 A04 A05 A06 A07 A08 A09 A10 A11 T01 T02 T03 T04 T05 X01".split()})
JOBS["A03"] = [Job("arith", "tiny"), Job("arith", "real"), Job("arith", "real", race=True, needs=True)]
JOBS.update({p: [Job("syncchk", "real")] for p in "S01 S02 S03".split()})
JOBS.update({p: [Job("syncchk", "real"), Job("syncchk", "real", race=True, needs=True)] for p in "S04 S05".split()})
JOBS.update({p: [Job("cmdbox", needs=True), Job("cmdin", names=True)] for p in "M01 M02".split()})
JOBS["M03"] = JOBS["M04"] = [Job("cmdbox", needs=True)]
JOBS["C05"] = [Job("base", "tiny"), Job("base", "real", race=True, needs=True)]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def environment():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GOFLAGS") or k in ("GOWORK", "GOENV"):
            del e[k]
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GONOSUMDB="*", GONOSUMCHECK="1", GOENV="off", GOSUMDB="off")
    return e

def build(job, work):
    """go test -c with a module file whose replacements are absolute. Returns (binary, error)."""
    src = "tiny" if job.kind == "tiny" else "go"
    with open(f"{H}/{src}.mod") as f:
        mod = f.read().replace("=> ../stubs", f"=> {V}/stubs").replace("=> /repo", f"=> {REPO}")
    base = f"{work}/{job.name}"
    with open(base + ".mod", "w") as f:
        f.write(mod)
    shutil.copy(f"{H}/{src}.sum", base + ".sum")
    target = "./" + job.pkg
    with open(base + ".overlay", "w") as f:
        json.dump(overlay(REPO, base + ".src", job.names), f)
    cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-modfile=" + base + ".mod", "-overlay=" + base + ".overlay", "-o", base + ".bin"]
    if job.kind == "tiny":
        cmd += ["-tags=tiny"]
    if job.race:
        cmd += ["-race"]
    p = sh(cmd + [target], cwd=H, env=environment())
    if p.returncode != 0:
        return None, p.stdout[-6000:]
    return base + ".bin", ""

def execute(binary, job, prop, tier, work, tag, only=None, budget=None, limit=None):
    """Run one test binary. Returns the result, with crashes and races turned into violations."""
    d = f"{work}/{job.name}.{tag}"
    os.makedirs(d + "/cwd")
    env = environment()
    env.update(VERIF_RESULT=d + "/result.json", VERIF_CURRENT=d + "/current.json", VERIF_TIER=tier, VERIF_DIR=V, VERIF_REPO=REPO,
               VERIF_SCRATCH=d + "/cwd", GORACE=f"log_path={d}/race halt_on_error=0 exitcode=0", GOTRACEBACK="all")
    if only:
        env["VERIF_ONLY"] = only
    if budget:
        env["VERIF_BUDGET"] = str(budget)
    out = open(d + "/output", "w")
    env["GOMEMLIMIT"] = "7GiB"
    cmd = [binary, "-test.run", f"^Test{prop}$", "-test.timeout=0"]
    if not job.race:
        # an allocation of any size a peer announces must end this process, not the sandbox
        cmd = ["sh", "-c", f'ulimit -v {13 << 20}; exec "$0" "$@"'] + cmd
    p = subprocess.Popen(cmd, cwd=d + "/cwd", env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    hung = False
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        hung = True
        p.send_signal(signal.SIGQUIT)
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    out.close()
    text = open(d + "/output", errors="replace").read()
    try:
        res = json.load(open(d + "/result.json"))
    except (OSError, ValueError):
        res = None
    cur = ""
    try:
        cur = open(d + "/current.json").read().strip()
    except OSError:
        pass
    if res is None:
        res = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": [], "notes": [], "capped": ["(all)"], "known": []}
        part = ""
        try:
            part = json.loads(cur).get("part", "")
        except ValueError:
            pass
        what = blame(text, hung)
        if what:
            res["violations"] = [{"part": part, "what": what, "case": cur, "stack": text[-6000:], "crash": True}]
        else:
            res["harness_error"] = f"no result (exit {p.returncode}, hung {hung}): {text[-5000:]}"
    for k in ("violations", "notes", "capped", "known", "samples"):
        res[k] = res.get(k) or []
    # reports of the race detector
    for f in sorted(os.listdir(d)):
        if f.startswith("race."):
            for rep in open(f"{d}/{f}", errors="replace").read().split("=================="):
                if "DATA RACE" in rep and racing(rep):
                    res["violations"].append({"part": "", "what": "data race: " + racing(rep), "case": rep.strip()[:4000], "race": True})
    return res

def frames(block):
    """Functions of a goroutine's stack, innermost first."""
    out = []
    for line in block.split("\n"):
        m = re.match(r"^\s*([\w./*()\-\[\]$·]+?)\(.*\)\s*$", line)
        if m and not line.startswith("\t") and not line.startswith("goroutine "):
            out.append(m.group(1))
    return out

def ours(fn):
    return fn.startswith("verif/") or "_verif_" in fn or fn.startswith("main.verif") or "/stubs/" in fn

def blame(text, hung):
    """Is this crash (or hang) the fault of the code under test?"""
    m = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*|runtime: .*)$", text, re.M)
    if hung:
        for block in text.split("\n\n"):
            if "goroutine" in block and any(f.startswith(MODULE) for f in frames(block)):
                for f in frames(block):
                    if f.startswith(MODULE):
                        return "hangs in " + f
        return ""
    if not m:
        return ""
    if m.group(1).startswith("panic: test timed out"):
        return ""
    tail = text[m.start():]
    if "out of memory" in m.group(1) or "cannot allocate memory" in tail[:2000]:
        for block in tail.split("\n\n"):
            top = next((f for f in frames(block) if f.startswith(MODULE) or ours(f)), "")
            if block.lstrip().startswith("goroutine") and top.startswith(MODULE):
                return "memory runs out in " + top
        return ""
    if "all goroutines are asleep" in m.group(1):
        if MODULE in tail:
            return m.group(1) + ": deadlock in " + next((f for f in frames(tail) if f.startswith(MODULE)), "?")
        return ""
    for block in tail.split("\n\n"):
        if not block.lstrip().startswith("goroutine"):
            continue
        for f in frames(block):
            if f.startswith(MODULE):
                return m.group(1) + " in " + f
            if ours(f):
                return ""
        if "created by " + MODULE in block:
            return m.group(1) + " in a goroutine of the code under test"
        return m.group(1) + " in " + ", ".join(frames(block)[:3]) if MODULE in block else ""
    return ""

def racing(rep):
    """The two functions of a race report, if the code under test is involved in both accesses or made one."""
    tops = []
    for block in re.split(r"\n\s*\n", rep):
        if re.search(r"(Read|Write|read|write) at 0x", block):
            fs = [l.strip() for l in block.split("\n") if re.match(r"^  \S+\(\)", l)]
            fs = [f.rstrip("()") for f in fs]
            # first frame that is not the standard library
            top = next((f for f in fs if f.startswith(MODULE) or ours(f)), fs[0] if fs else "?")
            tops.append(top)
    if any(t.startswith(MODULE) for t in tops):
        return " and ".join(tops)
    return ""

def known(prop):
    found = {}
    try:
        for line in open(f"{V}/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) finger=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return found

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        code = decide(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def decide(prop, tier, seed, t0, work):
    jobs = JOBS[prop]
    budget, limit = (150, 330) if tier == "quick" else (520, 640)
    def one(job):
        binary, err = build(job, work)
        if not binary:
            return job, None, None, err
        res = execute(binary, job, prop, tier, work, "1", None, budget, limit)
        return job, binary, res, ""
    with ThreadPoolExecutor(len(jobs)) as ex:
        done = list(ex.map(one, jobs))
    errors, skipped, confirmed, dropped = [], [], [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "per_build": {}, "exhaustive": True}
    findings = []
    for job, binary, res, err in done:
        if not binary:
            # a harness that does not build against this tree decides nothing; one of two may be missing
            (errors if job.needs else skipped).append(f"{job.name} does not build: {err}")
            cov["exhaustive"] = False
            continue
        if res.get("harness_error"):
            errors.append(f"{job.name}: {res['harness_error']}")
        cov["states"] += res["states"]
        cov["transitions"] += res["transitions"]
        cov["traces_validated_against_impl"] += res["traces"]
        cov["samples"] += res["samples"][:6]
        cov["per_build"][job.name] = {k: res.get(k) for k in ("states", "transitions", "traces", "parts", "outcomes", "notes", "wall")}
        if res["capped"]:
            cov["exhaustive"] = False
            cov["per_build"][job.name]["ended_early_in"] = res["capped"]
        findings += [dict(k, job=job.name) for k in res["known"]]
        vs = res["violations"]
        if vs:
            v = vs[0]
            if v.get("race"):
                confirmed.append((job, v, vs))
                continue
            # again, before it is reported
            ok = False
            for attempt in range(2):
                left = 860 - (time.time() - t0)
                if left < 30:
                    ok = True
                    break
                again = execute(binary, job, prop, tier, work, f"again{attempt}", attempt == 0 and v["part"] or None, min(budget, left * 0.6), min(limit, left - 10))
                if again["violations"]:
                    ok = True
                    break
            (confirmed if ok else dropped).append((job, v, vs))
    listed = known(prop)
    lines = []
    for k in findings:
        if k["finger"] in listed:
            line = f"KNOWN-FINDING: property={prop} {listed[k['finger']]}"
            if line not in lines:
                lines.append(line)
        else:
            confirmed.append((next(j for j in jobs if j.name == k["job"]), k, [k]))
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if skipped:
        ev["coverage"]["skipped"] = skipped
    if dropped:
        ev["coverage"]["not_reproduced"] = [v for _, v, _ in dropped]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    if confirmed:
        os.makedirs(f"{V}/out", exist_ok=True)
        path = f"{V}/out/{prop}.json"
        with open(path, "w") as f:
            json.dump([{"property": prop, "build": j.name, "repeat": f"VERIF_ONLY='{v['part']}' python3 check.py {prop} {tier}", "violation": v, "others": vs[1:]} for j, v, vs in confirmed], f, indent=1)
        for j, v, _ in confirmed:
            print(f"{prop} [{j.name}] {v['part']}: {v['what']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for s in skipped:
        print("skipped:", s[:3000])
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    print(f"{prop}: held; {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces, {ev['wall_s']} s")
    return 0

ASSUME = ["go toolchain and standard library", "stand-ins for core-go/network, tss-lib/crypto/paillier and zerolog in /verif/stubs behave as their counterparts",
          "tiny-curve builds run the same source with prime-order curves of 7 to 199 elements in place of secp256k1; real-curve builds run edge alphabets"]

main()
