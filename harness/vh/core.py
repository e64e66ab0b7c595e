"""Framework shared by all checks: case sharding, verdicts, evidence, replay.

A check supplies
    gen(rng, i, tier) -> JSON-able case
    run(case, obs)    -> None, reporting through obs
and calls main().  Verdicts are three-valued: exit 0 held on what was observed, exit 1 with a
VIOLATION line, exit 3 inconclusive (a required monitor observed too little, a worker died, ...).
"""
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.environ.get("VERIF_HOME") or os.path.dirname(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(prefix="verif-")
REPO = os.environ.get("VERIF_REPO", "/repo")     # only ever set while developing a repair
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class CaseTimeout(BaseException):
    """Raised in a worker by the watchdog alarm."""


class Obs(object):
    """What one worker observed."""

    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.evaluations = 0
        self.violations = []       # (mech, message, case)
        self.samples = []
        self.inconclusive = []
        self.case = None
        self.fields = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, value):
        """Distinct values observed under a name."""
        self.fields.setdefault(name, set()).add(value)

    def nontrivial(self, *key):
        self.distinct.add(hashlib.md5(repr(key).encode("utf8", "backslashreplace")).digest()[:8])

    def violation(self, mech, message, case=None):
        self.count("violations:" + mech)
        mine = [v for v in self.violations if v[0] == mech]
        if len(mine) >= 3:
            return
        self.violations.append((mech, message, case if case is not None else self.case))

    def sample(self, text, cap=4):
        if len(self.samples) < cap:
            self.samples.append(text)

    def expect(self, cond, mech, message, *args):
        if not cond:
            self.violation(mech, (message % args) if args else str(message))
        return cond


def _alarm(signum, frame):
    raise CaseTimeout()


def case_rng(prop, i):
    return random.Random("%s:%s:%s" % (prop, SEED, i))


def _in_repo(tb):
    """Was the exception raised by the code under test (or by a library it called)?"""
    frames = traceback.extract_tb(tb)
    last = None
    for fr in frames:
        if fr.filename.startswith(REPO + "/"):
            last = "repo"
        elif fr.filename.startswith(VERIF + "/"):
            last = "verif"
    return last == "repo"


def _guarded(run, case, obs, case_timeout):
    """Run one case; a crash or hang of the code under test is a violation, one of the check is
    no verdict."""
    for attempt in (1, 2):
        signal.setitimer(signal.ITIMER_REAL, case_timeout)
        try:
            run(case, obs)
            return
        except CaseTimeout:
            if attempt == 2:
                if _in_repo(sys.exc_info()[2]):
                    obs.violation("hang", "no answer within %d s, twice: %s" % (
                        case_timeout, traceback.format_exc()[-600:]))
                else:
                    obs.inconclusive.append(("case timeout", case))
        except Exception:
            if _in_repo(sys.exc_info()[2]):
                obs.violation("exception", "the code under test raised: %s" %
                              traceback.format_exc()[-1200:])
            else:
                # an exception the check did not expect: not a verdict
                obs.inconclusive.append((traceback.format_exc(), case))
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(prop, gen, run, shard, nshards, total, deadline, case_timeout, wfd, init):
    obs = Obs()
    done = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if init:
            init(shard)
        signal.signal(signal.SIGALRM, _alarm)
        for i in range(shard, total, nshards):
            if time.time() > deadline:
                break
            rng = case_rng(prop, i)
            case = gen(rng, i, TIER)
            if case is None:
                continue
            obs.case = case
            obs.evaluations += 1
            try:
                _guarded(run, case, obs, case_timeout)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            done += 1
            if len(obs.inconclusive) > 20 or obs.counts.get("violations:hang", 0) > 1:
                break
    except BaseException:
        obs.inconclusive.append((traceback.format_exc(), None))
    obs.case = None
    data = pickle.dumps((shard, done, obs))
    os.write(wfd, struct.pack("!Q", len(data)))
    view = memoryview(data)
    while view:
        n = os.write(wfd, view[:65536])
        view = view[n:]
    os.close(wfd)


def _read_all(fd):
    chunks = []
    while True:
        c = os.read(fd, 1 << 16)
        if not c:
            break
        chunks.append(c)
    return b"".join(chunks)


def load_known(prop):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                parts = line.split(None, 3)
                fields = dict(x.split("=", 1) for x in parts[1:3])
                if fields["property"] == prop:
                    known[fields["mech"]] = parts[3]
    return known


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def main(prop, gen, run, n, rule, level="exploration", require=None, shards=8,
         budget=(150, 780), case_timeout=60, init=None, assumptions=None, directed=None,
         explain=None):
    """n = (quick cases, thorough cases); require = {counter: minimum} on this run."""
    t0 = time.time()
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        with open(path) as f:
            rec = json.load(f)
        obs = Obs()
        if init:
            init(0)
        obs.case = rec["case"]
        signal.signal(signal.SIGALRM, _alarm)
        _guarded(run, rec["case"], obs, case_timeout)
        for mech, msg, _ in obs.violations:
            print("replayed: %s: %s" % (mech, msg))
        print("replay: %d violation(s)" % len(obs.violations))
        sys.exit(1 if obs.violations else 0)
    if "--case" in sys.argv:
        i = int(sys.argv[sys.argv.index("--case") + 1])
        obs = Obs()
        if init:
            init(0)
        case = gen(case_rng(prop, i), i, TIER)
        obs.case = case
        print(json.dumps(_jsonable(case), indent=1))
        signal.signal(signal.SIGALRM, _alarm)
        _guarded(run, case, obs, case_timeout)
        for what, _ in obs.inconclusive:
            print("inconclusive: %s" % what)
        for mech, msg, _ in obs.violations:
            print("%s: %s" % (mech, msg))
        sys.exit(1 if obs.violations else 0)

    total = n[0] if TIER == "quick" else n[1]
    if os.environ.get("VERIF_N"):
        total = int(os.environ["VERIF_N"])
    deadline = t0 + (budget[0] if TIER == "quick" else budget[1])
    shards = max(1, min(shards, total))
    sys.stdout.flush()
    sys.stderr.flush()
    procs = []
    for s in range(shards):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                _worker(prop, gen, run, s, shards, total, deadline, case_timeout, w, init)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                os._exit(code)
        os.close(w)
        procs.append((s, pid, r))
    obs = Obs()
    problems = []
    import select
    bufs = dict((r, []) for _, _, r in procs)
    alive = set(bufs)
    hard = deadline + case_timeout + 60
    while alive:
        left = hard - time.time()
        if left <= 0:
            break
        ready, _, _ = select.select(list(alive), [], [], min(left, 5))
        for fd in ready:
            c = os.read(fd, 1 << 16)
            if c:
                bufs[fd].append(c)
            else:
                alive.discard(fd)
    for s, pid, r in procs:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        data = b"".join(bufs[r])
        os.close(r)
        if len(data) < 8 or len(data) - 8 < struct.unpack("!Q", data[:8])[0]:
            problems.append("worker %d gave no answer" % s)
            continue
        shard, done, o = pickle.loads(data[8:])
        obs.evaluations += o.evaluations
        obs.distinct |= o.distinct
        for k, v in o.counts.items():
            obs.counts[k] = obs.counts.get(k, 0) + v
        for k, v in o.fields.items():
            obs.fields.setdefault(k, set()).update(v)
        obs.violations.extend(o.violations)
        obs.samples.extend(o.samples)
        obs.inconclusive.extend(o.inconclusive)
    # deterministic order
    obs.violations.sort(key=lambda v: (v[0], len(json.dumps(_jsonable(v[2])))))
    finish(prop, obs, t0, rule, level, require, problems, assumptions, explain)


def finish(prop, obs, t0, rule, level, require=None, problems=(), assumptions=None,
           explain=None):
    problems = list(problems)
    known = load_known(prop)
    reported = {}
    known_hit = {}
    for mech, msg, case in obs.violations:
        if mech in known:
            known_hit[mech] = msg
            continue
        reported.setdefault(mech, []).append((msg, case))
    for name, minimum in sorted((require or {}).items()):
        got = obs.counts.get(name, 0)
        if name in obs.fields:
            got = len(obs.fields[name])
        if got < minimum:
            problems.append("monitor %r observed %d < %d events" % (name, got, minimum))
    for what, case in obs.inconclusive[:5]:
        problems.append("case gave no answer: %s ... %s" % (what[-1500:], repr(case)[:600]))
    ev_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for fn in os.listdir(rep_dir):
        if fn.startswith(prop + "-"):
            os.remove(os.path.join(rep_dir, fn))
    out = []
    for mech in sorted(reported):
        msg, case = reported[mech][0]
        safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in mech)[:60]
        path = os.path.join(rep_dir, "%s-%s.json" % (prop, safe))
        with open(path, "w") as f:
            json.dump({"property": prop, "mech": mech, "message": msg,
                       "seed": SEED, "tier": TIER, "case": _jsonable(case)}, f, indent=1)
        out.append((mech, msg, path))
    coverage = {
        "evaluations": obs.evaluations,
        "distinct_nontrivial": len(obs.distinct),
        "rule": rule,
        "samples": [s if isinstance(s, (str, dict, list)) else repr(s)
                    for s in obs.samples[:8]],
        "observed": dict(sorted(obs.counts.items())),
        "distinct_observed": dict((k, len(v)) for k, v in sorted(obs.fields.items())),
    }
    if explain:
        coverage["explanation"] = explain
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level,
        "coverage": coverage, "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
        "assumptions": assumptions or [],
    }
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    for mech in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[mech], mech))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs; observed %s %s" % (
        prop, TIER, SEED, obs.evaluations, len(obs.distinct), time.time() - t0,
        json.dumps(coverage["observed"]), json.dumps(coverage["distinct_observed"])))
    if out:
        for mech, msg, path in out:
            print("  [%s] %s" % (mech, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        sys.exit(1)
    if len(obs.distinct) < 2:
        problems.append("fewer than two distinct non-trivial cases")
    if problems:
        for p in problems:
            print("INCONCLUSIVE property=%s %s" % (prop, p))
        sys.stdout.flush()
        sys.exit(3)
    sys.stdout.flush()
    sys.exit(0)
