#!/usr/bin/env python3
"""Decides one property on /repo's working tree.

    check.py PROPERTY [quick|thorough]   exit 0: held; 1: VIOLATION; anything else: no answer
    check.py replay FILE                 shows a recorded violation again
    check.py build                       only builds
"""
import fcntl, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
MC = os.path.join(TARGET, "mc/debug/mc")
REAL = os.path.join(TARGET, "real/debug/real")
FAULT = os.path.join(TARGET, "fault.so")
SCHEDULES = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P19", "P24", "P25", "P26", "P27"}
# Decided by both: over connections under the scheduler, and on values in the crate as it is.
BOTH = {"P19"}
BOUNDS = {
    "quick": {"per_job": 12, "states": 2000, "times": 3, "limit": 780},
    "thorough": {"per_job": 60, "states": 20000, "times": 9, "limit": 8 * 3600},
}
ASSUMPTIONS = {
    "schedules": [
        "The library's threads meet only in the channels, mutexes, condition variables, threads, sockets, standard streams and clocks "
        "of std and crossbeam-channel, which are replaced by stand-ins; every operation on them is a scheduling point.",
        "The stand-ins behave like the real ones: checked by running explored scenarios on the real crate, threads, sockets and pipes.",
        "Nothing is said about messages, lengths and fault positions outside the stated alphabets, or beyond the stated depths.",
    ],
    "values": [
        "Decoding and encoding are functions of their input alone.",
        "Nothing is said about values outside the alphabets of the enumeration or beyond the stated number of deviations.",
    ],
}


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run(cmd, limit, cwd=HERE, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{cmd[0]} did not finish within {limit} s")
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def tree():
    """What the build depends on, by content: time stamps can mislead."""
    h = hashlib.sha256()
    for root in [REPO, os.path.join(HERE, "mc")]:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(name, now):
    d = os.path.join(HERE, "mc", {"mc": "explore", "real": "real"}[name])
    t = os.path.join(TARGET, name)
    env = {"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "", "CARGO_TERM_COLOR": "never"}
    stamp = os.path.join(t, "built-from")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != now:
        run(["cargo", "clean", "--offline", "-q", "-p", "bsp-server", "-p", "bsp-types", "-p", {"mc": "mc", "real": "real"}[name]], 120, d, env)
    code, out, err = run(["cargo", "build", "--offline", "-q"], 700, d, env)
    if code != 0:
        return f"building {name} failed:\n{err[-6000:]}"
    with open(stamp, "w") as f:
        f.write(now)
    return None


def build(need):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = tree()
        with ThreadPoolExecutor(3) as pool:
            jobs = {n: pool.submit(cargo, n, now) for n in need}
            code, out, err = run(["gcc", "-shared", "-fPIC", "-O1", "-o", FAULT, os.path.join(HERE, "mc/fault/fault.c")], 60)
            if code != 0:
                raise NoAnswer(f"building fault.so failed: {err}")
            return {n: j.result() for n, j in jobs.items()}


def last_json(out, err, code):
    lines = [l for l in out.split("\n") if l.startswith("{")]
    if code not in (0, 1, 3) or not lines:
        raise NoAnswer(f"the checker ended with {code}: {err[-3000:]}")
    return json.loads(lines[-1])


def explore(exe, prop, tier, limit):
    code, out, err = run([exe, "check", prop, tier], limit)
    r = last_json(out, err, code)
    if r.get("error") and not r.get("failure"):
        raise NoAnswer(f"the checker failed: {r['error']}")
    return r


def together(a, b):
    """What two explorations of one property found."""
    r = {k: a.get(k, 0) + b.get(k, 0) for k in ("jobs", "cases", "executions", "states", "transitions", "pruned", "outcomes")}
    r["per_job"] = a.get("per_job", []) + b.get("per_job", [])
    r["max_depth"] = max(a.get("max_depth", 0), b.get("max_depth", 0))
    r["capped"] = bool(a.get("capped")) or bool(b.get("capped"))
    r["failure"] = a.get("failure") or b.get("failure")
    return r


def conform(prop, tier, limit):
    b = BOUNDS[tier]
    shards = 8

    def shard(i):
        code, out, err = run([MC, "traces", prop, tier, str(b["per_job"]), str(b["states"]), str(i), str(shards)], limit)
        if code != 0:
            raise NoAnswer(f"collecting scenarios failed with {code}: {err[-3000:]}")
        return out

    with ThreadPoolExecutor(shards) as pool:
        text = "".join(pool.map(shard, range(shards)))
    path = os.path.join(TARGET, f"scenarios-{prop}-{os.getpid()}.jsonl")
    with open(path, "w") as f:
        f.write(text)
    try:
        code, out, err = run([REAL, "conform", path, str(b["times"])], limit, env={"FAULT_SO": FAULT})
    finally:
        os.unlink(path)
    r = last_json(out, err, code)
    if r.get("error") and not r.get("failure"):
        raise NoAnswer(f"running scenarios failed: {r['error']}")
    r["complete"] = text.count('"complete":true')
    return r


def evidence(prop, tier, began, r, c, violations):
    per_job = r.get("per_job", [])
    coverage = {
        "states": r["states"],
        "transitions": r["transitions"],
        "traces_validated_against_impl": c["agreed"] if c else r["cases"],
        "samples": [{"job": j["job"], "case": j.get("sample", "")} for j in per_job if j.get("sample")][:12]
        or [{"job": j["job"]} for j in per_job][:12]
        or ["stopped at the first violation"],
        "jobs": r["jobs"],
        "cases": r["cases"],
        "distinct_outcomes": r["outcomes"],
        "exhaustive": not r["capped"],
        "per_job": per_job,
    }
    if c:
        coverage["executions"] = r["executions"]
        coverage["pruned_as_already_visited"] = r["pruned"]
        coverage["longest_execution"] = r["max_depth"]
        coverage["conformance"] = {
            "what": "scenarios run on the real crate with real threads, channels, TCP sockets and pipes; what was seen must be among what the exploration found possible",
            "scenarios": c["scenarios"], "with_all_schedules_explored": c["complete"], "runs": c["runs"], "agreed": c["agreed"],
            "outcomes_reached": c["outcomes"], "outcomes_possible": c["possible"], "unexplained": len(c["unexplained"]),
        }
    else:
        coverage["what"] = "every case is run through the real crate itself; transitions are calls into it, states what was told apart"
    e = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": coverage,
        "assumptions": ASSUMPTIONS["schedules" if prop in SCHEDULES else "values"], "wall_s": round(time.time() - began, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
        f.write("\n")


def violation(prop, tier, by, failure):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "by": by, "failure": failure}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    say(f"{prop}: {failure.get('job')}, case {failure.get('case')}: {str(failure.get('input'))[:2000]}")
    say(f"{str(failure.get('message'))[:3000]}")
    say(f"VIOLATION property={prop} replay={path}")


def listen(prop):
    """One property is about what happens while somebody listens to the log."""
    os.environ.pop("MC_LOG", None)
    if prop == "P27":
        os.environ["MC_LOG"] = "1"


def decide(prop, tier):
    began = time.time()
    listen(prop)
    limit = BOUNDS[tier]["limit"]
    schedules = prop in SCHEDULES
    built = build(["mc", "real"] if schedules else ["real"])
    for name, wrong in built.items():
        if wrong:
            raise NoAnswer(wrong)
    r = explore(REAL, prop, tier, limit) if prop in BOTH or not schedules else None
    by = "real"
    if schedules and not (r and r["failure"]):
        by, first = "mc", r
        r = explore(MC, prop, tier, limit)
        if first:
            r = together(first, r)
    c = None
    if schedules:
        c = {"agreed": 0, "scenarios": 0, "complete": 0, "runs": 0, "outcomes": 0, "possible": 0, "unexplained": [], "failure": None}
        if not r["failure"]:
            c = conform(prop, tier, limit)
    failure, by = (r["failure"], by) if r["failure"] else (c and c["failure"], "conform")
    evidence(prop, tier, began, r, c, 1 if failure else 0)
    if failure:
        violation(prop, tier, by, failure)
        return 1
    more = f", {c['agreed']} runs of {c['scenarios']} scenarios agree with the real system" if c else ""
    say(f"{prop} holds: {r['jobs']} jobs, {r['cases']} cases, {r['states']} states, {r['transitions']} transitions{more}, {time.time() - began:.1f} s")
    return 0


def replay(path):
    f = json.load(open(path))
    listen(f["property"])
    for name, wrong in build(["mc", "real"]).items():
        if wrong:
            raise NoAnswer(wrong)
    if f["by"] == "conform":
        one = os.path.join(TARGET, "replay.jsonl")
        with open(one, "w") as o:
            o.write(json.dumps(f["failure"]["scenario"]) + "\n")
        return subprocess.call([REAL, "conform", one, "3"], env=dict(os.environ, FAULT_SO=FAULT))
    return subprocess.call([MC if f["by"] == "mc" else REAL, "replay", path])


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["build"]:
            wrong = [w for w in build(["mc", "real"]).values() if w]
            if wrong:
                raise NoAnswer(wrong[0])
            return 0
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if not a:
            print(__doc__, file=sys.stderr)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return decide(a[0], tier if tier in BOUNDS else "quick")
    except Exception as e:
        print(f"NO ANSWER: {type(e).__name__}: {e}", file=sys.stderr, flush=True)
        return 2


sys.exit(main())
