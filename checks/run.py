#!/usr/bin/env python3
"""Runs the check of one property: run.py ID

Exit 0: every obligation is discharged, or nothing explored breaks the property.
Exit 1: VIOLATION line. Anything else: the check itself is broken.
See ../DESIGN.md for the rules this follows.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
from props import PROPS

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
START = time.time()
# a check has 900 s; leave room for the report
LIMIT = float(os.environ.get("VERIF_LIMIT", "800"))


def left():
    return LIMIT - (time.time() - START)


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


def sh(cmd, timeout, env=None, cwd=None, out=None, memory=None, stop=None):
    """Runs cmd in a group of its own, until `stop` holds; returns (code or None on timeout, output)."""
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    limit = None
    if memory:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        most = memory << 30 if hard == resource.RLIM_INFINITY else min(hard, memory << 30)
        limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (most, most))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, preexec_fn=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    end = time.time() + max(1, timeout)
    try:
        while True:
            try:
                o, _ = p.communicate(timeout=max(0.1, min(2, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                if time.time() >= end or (stop and stop()):
                    raise
        code = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        code = None
    if out:
        with open(out, "w") as f:
            f.write(o)
    return code, o


def cfgs(names):
    return " ".join('--cfg binate_verif="%s"' % n for n in names)


# ------------------------------------------------------------------- undecided

# failures that say something about the verifier's reach, not about the code
LIMITS = [
    "MODEL-LIMIT",
    "unwinding assertion",
    "not currently supported",
    "is not supported",
    "unsupported",
    "Unsupported",
    "recursion unwinding",
]


# of a function taken out of /repo
UNPROVED = "not verified: "


def is_limit(desc):
    return any(l in desc for l in LIMITS)


class Obl:
    """The outcome of one harness: its obligations and those that failed."""

    def __init__(self, name):
        self.name = name
        self.total = self.passed = 0
        self.failed = []      # real failures: "where: what"
        self.undecided = []   # reasons
        self.seconds = 0.0
        self.functions = set()
        self.backend = ""
        self.bounded = None

    def ok(self):
        return not self.failed and not self.undecided and self.total > 0


def short(path):
    return path.replace(REPO + "/", "").replace(VERIF + "/", "verif/")


def unsafe_in_repo():
    n = 0
    for d, _, fs in os.walk(os.path.join(REPO, "binate", "src")):
        for f in fs:
            if f.endswith(".rs"):
                with open(os.path.join(d, f), errors="replace") as h:
                    for line in h:
                        if re.search(r"\bunsafe\b", line.split("//")[0]):
                            n += 1
    return n


def newest(path):
    t = 0
    for d, _, fs in os.walk(path):
        for f in fs:
            t = max(t, os.path.getmtime(os.path.join(d, f)))
    return t


# when to stop proving: None, or a function
STOP = None


def kani(job, only=None, budget=None, tag=""):
    """Runs the harnesses of a job; returns {name: Obl} and the command."""
    crate = job.get("crate", "harness")
    tgt = os.path.join(VERIF, "target", "kani-" + crate)
    js = os.path.join(VERIF, "out", "kani-%s%s.json" % (job["features"].replace(",", "-"), tag))
    os.makedirs(os.path.dirname(js), exist_ok=True)
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--features", job["features"], "-Z", "stubbing", "-Z", "unstable-options"]
    if not unsafe_in_repo() and not job.get("memory"):
        cmd += ["--no-memory-safety-checks"]
    cmd += ["--no-assertion-reach-checks", "--target-dir", tgt, "--export-json", js,
            "--output-format", "terse", "-j", str(job.get("jobs", 8))]
    cmd += job.get("flags", [])
    names = list(job["harnesses"])
    if only is not None:
        names = [n for n in names if n in only]
    for n in names:
        cmd += ["--harness", n]
    cmd += ["--exact"]
    budget = budget or max(60, left() - 30)
    cmd += ["--harness-timeout", "%ds" % int(max(30, min(job.get("timeout", 400), budget - 20)))]
    env = {"RUSTFLAGS": " ".join(filter(None, [cfgs(job.get("cfgs", [])), job.get("rustflags", ""),
                                               "-Awarnings"]))}
    env.update(job.get("env", {}))
    code, out = sh(cmd, budget, env, os.path.join(VERIF, crate),
                   os.path.join(VERIF, "out", "kani-%s%s.log" % (job["features"].replace(",", "-"), tag)),
                   memory=job.get("gigabytes", 6), stop=STOP)
    res = {n: Obl(n) for n in names}
    shown = "RUSTFLAGS='%s' %s" % (env["RUSTFLAGS"], " ".join(cmd))
    if not os.path.exists(js):
        why = "does not build" if code is not None else "stopped, with a failing input" if STOP and STOP() else "timed out"
        m = re.search(r"^error.*", out, re.M)
        # some harnesses may have finished
        for o in res.values():
            o.undecided.append("%s%s" % (why, ": " + m.group(0)[:200] if m else ""))
        return res, shown
    d = json.load(open(js))
    panics = job.get("panics", [])
    seen = set()
    for r in d["verification_results"]["results"]:
        n = r["harness_id"]
        if n not in res:
            continue
        seen.add(n)
        o = res[n]
        o.backend = "CBMC 6.11.0 / " + "CaDiCaL"
        o.seconds = r.get("duration_ms", 0) / 1000.0
        rejected = n not in panics
        for c in r.get("checks", []):
            st = c["status"].lower()
            where = c.get("location") or {}
            f = where.get("file", "") or ""
            if f.startswith(REPO + "/binate"):
                o.functions.add(c["function"])
            if c.get("category") == "cover" or st in ("satisfied", "unsatisfiable"):
                if st == "unsatisfiable":
                    o.undecided.append("vacuous: cannot be reached: " + c["description"])
                continue
            o.total += 1
            if st in ("success", "unreachable"):
                o.passed += 1
            elif st == "failure" and n in panics and not f.startswith(VERIF) \
                    and "ACCEPTED" not in c["description"] and not c["description"].startswith("attempt to") \
                    and not is_limit(c["description"]):
                # rejects: the panic that the contract asks for
                o.passed += 1
                rejected = True
            elif st == "failure":
                what = "%s [%s, %s:%s]" % (c["description"], c["function"], short(f), where.get("line"))
                # a call target the compiler front end could not name
                unknown = c["description"] == "assertion" and (not f or "nknown" in f or "nknown" in str(where.get("line")))
                (o.undecided if unknown or is_limit(c["description"]) else o.failed).append(what)
            else:
                o.undecided.append("%s: %s" % (st, c["description"]))
        if not r.get("checks"):
            o.undecided.append("no result (%s)" % r.get("status"))
        elif not rejected:
            o.undecided.append("vacuous: never rejects")
        elif r.get("status", "").lower() != "success" and n not in panics and not o.failed and not o.undecided:
            o.undecided.append("not verified (%s)" % r.get("status"))
        # undetermined beside a limit: the limit is the reason
        if any(is_limit(u) for u in o.undecided):
            o.undecided = [u for u in o.undecided if not u.startswith("undetermined")]
        elif o.failed:
            o.undecided = [u for u in o.undecided if not u.startswith("undetermined")]
    for n in names:
        if n not in seen:
            res[n].undecided.append("not run, or timed out")
    for n, b in job.get("bounded", {}).items():
        if n in res:
            res[n].bounded = b
    return res, shown


def verus(job):
    """Verifies lemmas over the contracts (`file`: no code of /repo in it), or functions that are
    extracted from the real code."""
    o = Obl(job["name"])
    o.backend = "Verus 0.2026.09.13 / Z3"
    dst = os.path.join(VERIF, "out", job["name"] + ".rs")
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shown = "verus " + dst
    functions = []
    if "file" in job:
        shutil.copyfile(os.path.join(VERIF, job["file"]), dst)
        shown = "verus " + os.path.join(VERIF, job["file"])
    else:
        import extract
        try:
            text, functions = extract.build(job, REPO, VERIF)
        except extract.Lost as e:
            o.undecided.append("extraction: %s" % e)
            return {o.name: o}, shown
        with open(dst, "w") as f:
            f.write(text)
    t = time.time()
    code, out = sh(["verus", dst, "--rlimit", str(job.get("rlimit", 60)), "--triggers-mode", "silent"],
                   min(300, max(30, left() - 30)), cwd=os.path.join(VERIF, "out"),
                   out=dst + ".log")
    o.seconds = time.time() - t
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    if code is None or not m:
        e = re.search(r"^error.*", out, re.M)
        o.undecided.append("verus: " + (e.group(0)[:200] if e else "no result"))
        return {o.name: o}, shown
    v, n = int(m.group(1)), int(m.group(2))
    o.total, o.passed = v + n, v
    o.functions |= set(functions)
    if n and "file" in job:
        o.undecided.append("verus: %d lemmas fail" % n)
    elif n:
        # A proof that rests on loop invariants found for another text of the function may fail on
        # one that is as good. The other jobs decide.
        for e in re.finditer(r"^error: (.*)\n\s*--> (\S+)", out, re.M):
            o.undecided.append("%s%s [%s]" % (UNPROVED, e.group(1), e.group(2)))
        if not o.undecided:
            o.undecided.append("verus: unexplained errors")
    elif v == 0:
        o.undecided.append("verus: no obligations")
    return {o.name: o}, shown


# ---------------------------------------------------------------------- native

class Native:
    """Builds the real crate with its real dependencies and looks for inputs that break
    the property."""

    def __init__(self, prop, spec):
        self.prop, self.spec = prop, spec
        self.found = None
        self.error = None
        self.evaluations = 0
        self.kinds = {}
        self.samples = []
        self.runs = []

    def command(self, env, profile, run, f):
        return "cd %s/replay && RUSTFLAGS='%s' cargo run --offline --profile %s --features %s -- --seed %s --case %s" % (
            VERIF, env["RUSTFLAGS"], profile, run["feature"], f["seed"], f["case"])

    def ended(self, kept, seed, seconds, profile, env, run):
        """A signal ended the search (stack overflow, abort): which case was it?"""
        note = kept + ".case"
        sh([kept, "--seed", str(seed), "--seconds", str(int(4 * seconds)), "--trace", note], 4 * seconds + 90, memory=8)
        if not os.path.exists(note):
            return
        f = {"seed": seed, "case": int(open(note).read()), "what": "the process is ended by a signal",
             "choices": "", "profile": profile}
        f["command"] = self.command(env, profile, run, f)
        code, _ = sh([kept, "--seed", str(seed), "--case", str(f["case"])], 60, memory=8)
        if code is not None and (code < 0 or code >= 128):
            f["replayed"] = True
            self.found = f

    def search(self, seconds, seed, tag=""):
        for k, run in enumerate(self.spec):
            if run.get("instead") and not self.error:
                # only if what comes before it does not build
                continue
            if run.get("instead"):
                self.error = None
            profile = run.get("profile", "dev")
            tgt = os.path.join(VERIF, "target", "native")
            env = {"RUSTFLAGS": " ".join(filter(None, [cfgs(run.get("cfgs", [])), "-Awarnings"]))}
            cmd = ["cargo", "build", "-q", "--offline", "--profile", profile, "--features",
                   run["feature"], "--target-dir", tgt]
            code, out = sh(cmd, max(60, min(400, left() - 20)), env, os.path.join(VERIF, "replay"))
            if code != 0:
                self.error = "native build: " + (out[-1500:] if code is not None else "timed out")
                continue
            exe = os.path.join(tgt, "debug" if profile == "dev" else profile, "replay")
            kept = os.path.join(VERIF, "out", "replay-%s-%s" % (self.prop, profile))
            os.makedirs(os.path.dirname(kept), exist_ok=True)
            shutil.copy2(exe, kept)
            rep = kept + tag + ".json"
            if os.path.exists(rep):
                os.remove(rep)
            s = seconds * run.get("share", 1.0)
            code, out = sh([kept, "--seed", str(seed), "--seconds", str(int(max(1, s))), "--report", rep],
                           s + 90, cwd=os.path.join(VERIF, "out"), memory=8)
            if code is None or not os.path.exists(rep):
                self.error = "native search: " + ("does not return" if code is None else out[-500:])
                if code is not None and (code < 0 or code >= 128):
                    self.ended(kept, seed, s, profile, env, run)
                continue
            d = json.load(open(rep))
            self.evaluations += d["evaluations"]
            for a, b in d["kinds"].items():
                self.kinds[a] = self.kinds.get(a, 0) + b
            self.runs.append({"profile": profile, "seed": seed, "evaluations": d["evaluations"]})
            if d.get("found"):
                f = d["found"]
                f["profile"] = profile
                f["command"] = self.command(env, profile, run, f)
                # confirm
                c2, o2 = sh([kept, "--seed", str(f["seed"]), "--case", str(f["case"])], 60, memory=8)
                f["replayed"] = c2 != 0
                self.found = f
                return


# ------------------------------------------------------------------------ main

def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tgt = os.path.join(VERIF, "target")
    # never trust build products of an earlier tree
    for crate, d in (("harness", "kani-harness"), ("harness-loom", "kani-harness-loom"),
                     ("harness-map", "kani-harness-map")):
        p = os.path.join(tgt, d)
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
    p = os.path.join(tgt, "native")
    if os.path.isdir(p):
        shutil.rmtree(p, ignore_errors=True)

    native = Native(prop, P["native"])
    known = known_findings(prop)
    if TIER == "quick":
        # a violation that is shown by a failing input needs no failed obligation
        global STOP
        STOP = lambda: bool(native.found) and not any(k in native.found["what"] for k in known)
    secs = P.get("seconds", 15) * (1 if TIER == "quick" else 8)
    th = threading.Thread(target=native.search, args=(secs, SEED))
    th.start()

    done = {}          # name -> Obl
    cmds = []
    for job in P.get("verus", []):
        r, c = verus(job)
        done.update(r)
        cmds.append(c)
    notes = []
    for job in P.get("kani", []):
        r, c = kani(job, tag="-" + prop)
        cmds.append(c)
        # the second tier: the bodies instead of the contracts
        lemmas = [n for n in job.get("lemmas", []) if n in r]
        again = job.get("fallback")
        if again and not native.found:
            # contracts of callees that do not hold: nothing that used them counts
            lost = [n for n in lemmas if not r[n].ok()]
            names = [n for n in again["harnesses"] if lost or (n in r and not r[n].ok())]
            if names:
                log("second tier for", " ".join(names))
                r2, c2 = kani(again, only=names, tag="-" + prop + "-2")
                cmds.append(c2)
                for n in names:
                    a, b = r.get(n, Obl(n)), r2[n]
                    if b.ok():
                        notes.append("%s: decided by the bodies, without the contracts of callees" % n)
                    elif not b.failed:
                        b.undecided = a.undecided + b.undecided
                        if a.failed and not lost:
                            # fails with contracts that hold
                            b.failed = a.failed
                    r[n] = b
                for n in lost:
                    notes.append("contract %s does not hold; nothing relies on it" % n)
                    del r[n]
        stand = job.get("standin")
        if stand and not native.found and any(o.undecided and not o.failed for o in r.values()):
            log("bounded stand-in for", " ".join(sorted(n for n in r if not r[n].ok())))
            r2, c2 = kani(stand, tag="-" + prop + "-3")
            cmds.append(c2)
            r.update(r2)
        done.update(r)
    th.join()

    failed = {n: o.failed for n, o in done.items() if o.failed}
    undecided = {n: o.undecided for n, o in done.items() if o.undecided and not o.failed}
    for n, o in sorted(done.items()):
        log("%-40s %5d/%-5d %6.1fs %s" % (n, o.passed, o.total, o.seconds,
            "ok" if o.ok() else ("FAILED" if o.failed else "undecided")))
        for f in o.failed[:6]:
            log("      failed:", f)
        for f in o.undecided[:4]:
            log("      undecided:", f[:300])
    # a candidate without an input: look longer
    unproved = any(u.startswith(UNPROVED) for l in undecided.values() for u in l)
    if (failed or unproved) and not native.found and left() > 60:
        log("looking for a failing input")
        native.search(min(120, left() - 40), SEED + 1000, "-2")
    log("native: %d evaluations, %d kinds%s" % (native.evaluations, len(native.kinds),
        ", FOUND" if native.found else ""))
    if native.error:
        log(native.error)

    status, line = 0, None
    replay = os.path.join(VERIF, "out", "%s.replay.json" % prop)
    report = {
        "property": prop, "failing_input": native.found, "failed_obligations": failed,
        "commands": cmds, "native": native.runs,
    }
    if native.found:
        key = native.found["what"]
        if any(k in key for k in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, key))
        else:
            status = 1
            line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        status = 1
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    elif native.error and not any(o.ok() for o in done.values()):
        # neither proved nor explored
        status = 2
    evidence(prop, P, done, undecided, failed, native, cmds, notes, status)
    if status == 1:
        with open(replay, "w") as f:
            json.dump(report, f, indent=1, sort_keys=True)
        if native.found:
            log("FAILS: " + native.found["what"])
        print(line, flush=True)
    elif undecided:
        log("undecided obligations, nothing explored breaks the property:", ", ".join(sorted(undecided)))
    sys.exit(status)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def scan():
    """What the harnesses assume: a mechanical count."""
    n = {}
    for root in ("harness", "models", "contracts", "lemmas"):
        for d, _, fs in os.walk(os.path.join(VERIF, root)):
            if "/target" in d:
                continue
            for f in fs:
                if f.endswith(".rs"):
                    t = open(os.path.join(d, f), errors="replace").read()
                    for w in ("kani::assume", "kani::stub(", "external_body", "assume_specification"):
                        c = t.count(w)
                        if c:
                            n[w] = n.get(w, 0) + c
    return n


def evidence(prop, P, done, undecided, failed, native, cmds, notes, status):
    total = sum(o.total for o in done.values() if not o.bounded)
    passed = sum(o.passed for o in done.values() if not o.bounded)
    fns = set()
    for o in done.values():
        fns |= o.functions
    per = {}
    for n, o in sorted(done.items()):
        per[n] = {"obligations": o.total, "discharged": o.passed, "seconds": round(o.seconds, 1),
                  "back_end": o.backend}
        if o.bounded:
            per[n]["bounded"] = o.bounded
        if o.failed:
            per[n]["failed"] = o.failed[:10]
        if o.undecided:
            per[n]["undecided"] = o.undecided[:10]
    bounded = sorted(n for n, o in done.items() if o.bounded)
    kinds = sorted(native.kinds.items(), key=lambda x: -x[1])
    cov = {
        "obligations": total,
        "discharged": passed,
        "checker_cmd": " ; ".join(cmds),
        "trusted_base": P["trusted"],
        "harnesses": per,
        "functions_under_contract": sorted(fns),
        "bounded_not_proved": {n: done[n].bounded for n in bounded},
        "bounded_obligations": sum(done[n].total for n in bounded),
        "bounded_discharged": sum(done[n].passed for n in bounded),
        "undecided": sorted(undecided),
        "solver_seconds": round(sum(o.seconds for o in done.values()), 1),
        "evaluations": native.evaluations,
        "distinct_nontrivial": len(native.kinds),
        "rule": "native cross-check on the real code with its real dependencies: cases from a seeded "
                "generator that likes boundaries; distinct = different kinds (frame type, flags, parts present, or outcome)",
        "samples": [{"kind": k, "cases": v} for k, v in kinds[:8]],
        "assumptions_in_source": scan(),
        "notes": notes,
    }
    if P.get("explanation"):
        cov["explanation"] = P["explanation"]
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": P["level"], "coverage": cov,
        "assumptions": P["assumptions"], "wall_s": round(time.time() - START, 1),
        "violations": 1 if status == 1 else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


main()
