"""C17: reloading the configuration, at every point of a reload and of a request.

In process: the loader thread stops after every file it opens and requests are served there; a reload
runs while a rule of a request is being evaluated or while the preferences of a user are being read;
loads overlap; loads fail.  As a process: clients keep asking oad.py (single and preforked) while the
configuration is replaced and SIGUSR1 sent.  Every response must be the one of one generation of the
configuration, of a generation that may still or already be in force.
"""
import builtins
import os
import random
import re
import signal
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core, daemon, homes, oah, world
import oa
import vhprobe

WORDS = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot"]
CMDS = ["REPORT", "PROCESS", "SYMBOLS", "CHECK", "HEADERS", "REPORT"]
PLUGIN = """import oa.plugins.base

GEN = "gen%(g)d"


class PathPlugin(oa.plugins.base.BasePlugin):
    eval_rules = ("path_gen", "path_only%(g)d")

    def path_gen(self, msg, target=None):
        return "plugin of " + GEN

    def path_only%(g)d(self, msg, target=None):
        return GEN == "gen%(g)d"
"""


def generation(rng, g):
    """{file: text} of one configuration; every part of it names the generation somewhere."""
    pre = ["loadplugin vhprobe.Worker", "loadplugin vhprobe.Probe"]
    if rng.random() < .6:
        pre.append("loadplugin oa.plugins.wlbl_eval.WLBLEvalPlugin")
    one = ["required_score %s" % (3 + g + rng.choice([0, .5])), "allow_user_rules %d" % (rng.random() < .8),
           "report gen%d _SCORE_ _REQD_ _TESTS_" % g, "body ALWAYS /./", "score ALWAYS %s" % (0.1 * (g + 1)),
           "describe ALWAYS gen%d" % g, "body PROBED eval:probe('x')", "score PROBED 0.01",
           "add_header all Worker _WORKERPID_", "add_header all Gen%d _TESTS_" % g]
    two = ["body ONLY%d /./" % g, "score ONLY%d 0.001" % g, "add_header all Two gen%d" % g,
           "meta MIX ALWAYS && R0", "ifplugin oa.plugins.wlbl_eval.WLBLEvalPlugin", "header WL eval:check_from_in_whitelist()",
           "score WL -%d" % (g + 1), "whitelist_from *@gen%d.example" % g, "endif"]
    for n in range(5):
        if rng.random() < .7:
            (one if n % 2 else two).extend([
                "%s R%d /%s/" % (rng.choice(["body", "full", "rawbody"]), n, rng.choice(WORDS)),
                "score R%d %s" % (n, rng.choice([1, 2, -1, .5])), "describe R%d of gen%d" % (n, g)])
    if rng.random() < .5:
        two.append("trusted_networks 192.0.2.%d" % (g + 1))
    if rng.random() < .5:
        one.append("report trusted _RELAYSTRUSTED_")
    if rng.random() < .5:
        two.append("report_safe %d" % rng.choice([0, 1, 2]))
    files = {"00.pre": pre, "10.cf": one, "20.cf": two}
    if rng.random() < .5:
        files["30.cf"] = ["report file30 gen%d" % g, "score ALWAYS %s" % (0.2 * (g + 1)), "include inc.txt"]
        files["inc.txt"] = ["body INC%d /./" % g, "score INC%d 0.0001" % g]
    if rng.random() < .3:
        files["plug.py"] = PLUGIN % {"g": g}
        pre.append("loadplugin PathPlugin @DIR@/plug.py")
        one += ["body PATHGEN eval:path_gen()", "score PATHGEN 0.3", "body PATHONLY eval:path_only%d()" % g]
    files = dict((k, v if isinstance(v, str) else "\n".join(v) + "\n") for k, v in files.items())
    prefs = {}
    for u in ("ann", "bob"):
        if rng.random() < .7:
            prefs[u] = "body %s%d /./\nscore %s%d 0.05\nscore R0 %d\nrequired_score %d\n" % (
                u.upper(), g, u.upper(), g, g + 2, g + 20)
    return {"files": files, "prefs": prefs}


def message(rng):
    return ("Received: from a (a [192.0.2.%d]) by mx.example.com with SMTP id 1; Mon, 1 Jan 2018 10:00:00 +0000\n"
            "From: q@gen%d.example\nTo: b@x.example\nSubject: s %s\n\n%s\n" % (
                rng.randrange(1, 5), rng.randrange(4), rng.choice(WORDS), " ".join(rng.sample(WORDS, 3))))


def gen(rng, i, tier):
    n = rng.choice([2, 3, 4])
    case = {"gens": [generation(rng, g) for g in range(n)], "msgs": [message(rng) for _ in range(3)],
            "seed": rng.randrange(1 << 30)}
    if i % 8 == 7:
        # every shard gets some of these: the shards take every eighth case
        pass
    if (i // 8) % 6 == 5:
        case["mode"] = "process"
        case["prefork"] = rng.choice([None, 2, 3, 4])
        case["quick"] = rng.random() < .5
    else:
        case["mode"] = "steps"
        case["steps"] = [rng.choice(["request", "request", "during", "during", "inside", "prefs", "broken", "twice",
                                     "same"]) for _ in range(rng.choice([4, 6]))]
    return case


def put(cdir, root, g):
    """Replace the files on disk, each by a rename."""
    keep = set()
    for name, text in g["files"].items():
        p = os.path.join(cdir, name)
        keep.add(name)
        with open(p + ".new", "wb") as f:
            f.write(text.replace("@DIR@", cdir).encode("latin-1"))
        os.rename(p + ".new", p)
        # a changed plugin must not be taken for the cached one of the same second
        os.utime(p, (time.time() + put.n, time.time() + put.n))
        put.n += 5
    for name in os.listdir(cdir):
        if name not in keep and not name.startswith("__"):
            os.remove(os.path.join(cdir, name))
    for u in ("ann", "bob"):
        p = os.path.join(root, "home", u, ".spamassassin", "user_prefs")
        if u in g["prefs"]:
            homes.prefs(root, u, g["prefs"][u])
        elif os.path.exists(p):
            os.remove(p)


put.n = 0


class Oracle(object):
    """What each generation says, from rule sets loaded out of a directory of its own."""

    def __init__(self, gens, dirname):
        self.gens, self.dirname, self.sets, self.done = gens, dirname, {}, {}
        for g, cfg in enumerate(gens):
            d = os.path.join(dirname, "gen%d" % g)
            for name, text in cfg["files"].items():
                name2 = name.replace("plug.py", "plug_gen%d.py" % g)
                oah.write(os.path.join(d, name2), text.replace("@DIR@/plug.py", os.path.join(d, "plug_gen%d.py" % g)))

    def ruleset(self, g, user, prefs=None):
        """(The preferences can be those of another generation, they are read when the user first asks.)"""
        cfg = self.gens[g]
        if prefs is not None and prefs != g:
            cfg = dict(cfg, prefs=self.gens[prefs]["prefs"])
        else:
            prefs = g
        if user is not None and ("allow_user_rules 1" not in cfg["files"]["10.cf"] or user not in cfg["prefs"]):
            user = None
        if (g, user, prefs) not in self.sets:
            d = os.path.join(self.dirname, "gen%d" % g)
            files = oa.config.get_config_files(d, d)
            if user:
                files = files + [oah.write(os.path.join(d, "prefs-%s-%d.txt" % (user, prefs)), cfg["prefs"][user])]
            self.sets[g, user, prefs] = oa.rules.parser.parse_pad_rules(files).get_ruleset()
        return self.sets[g, user, prefs]

    def says(self, g, user, cmd, raw, prefs=None):
        key = (g, user, cmd, raw, prefs)
        if key not in self.done:
            rs = self.ruleset(g, user, prefs)
            msg = oah.scan(rs, raw)
            spam = msg.score >= rs.conf["required_score"]
            body = {"CHECK": lambda: "", "SYMBOLS": lambda: ",".join(sorted(oah.hits(msg))),
                    "REPORT": lambda: rs.get_report(msg), "PROCESS": lambda: rs.get_adjusted_message(msg),
                    "HEADERS": lambda: rs.get_adjusted_message(msg, header_only=True)}[cmd]()
            self.done[key] = (spam, "%.1f" % msg.score, float(rs.conf["required_score"]), tidy(body))
        return self.done[key]


PID = re.compile(r"<(\d+)>")


def tidy(text):
    return world.clean(PID.sub("<PID>", text))


def parse(raw, cmd):
    """((spam, score, required, body), pid) or None"""
    resp = daemon.Response(raw)
    if not resp.ok or resp.code != 0 or resp.length is None or resp.length != len(resp.body):
        return None, None
    body = resp.body.decode("utf8", "replace")
    pid = PID.search(body)
    if cmd == "SYMBOLS":
        body = ",".join(sorted(body.split(",")))
    return (resp.spam, resp.score, float(resp.required), tidy(body)), pid and int(pid.group(1))


# --- in process ------------------------------------------------------------------------------------
class Pauser(object):
    """Stops loader threads after each file they open below a directory."""

    def __init__(self, prefix):
        self.prefix, self.active = prefix, False
        self.queue = []
        self.cond = threading.Condition()
        self.orig = builtins.open
        self.on_prefs = None

    def open(self, path, *args, **kwargs):
        f = self.orig(path, *args, **kwargs)
        t = threading.current_thread()
        if isinstance(path, str) and self.active and t is not threading.main_thread() and \
                not t.name.startswith("vh-") and path.startswith(self.prefix):
            ev = threading.Event()
            with self.cond:
                self.queue.append((t, path, ev))
                self.cond.notify_all()
            ev.wait(20)
        if isinstance(path, str) and path.endswith("/user_prefs") and self.on_prefs and t is threading.main_thread():
            hook, self.on_prefs = self.on_prefs, None
            hook()
        return f

    def next(self, threads, timeout=20):
        """(thread, path, event) of a stopped loader, None when all of them ended."""
        end = time.time() + timeout
        with self.cond:
            while time.time() < end:
                if self.queue:
                    return self.queue.pop(0)
                if not any(t.is_alive() for t in threads):
                    return None
                self.cond.wait(.005)
        return "late"

    def __enter__(self):
        builtins.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = self.orig
        self.active = False
        with self.cond:
            for _, _, ev in self.queue:
                ev.set()


def start_reload(srv):
    before = set(threading.enumerate())
    srv.server.reload_handler(signal.SIGUSR1, None)
    return [t for t in threading.enumerate() if t not in before and not t.name.startswith("vh-")]


def wait(threads, timeout=30):
    end = time.time() + timeout
    for t in threads:
        t.join(max(0, end - time.time()))
    return not any(t.is_alive() for t in threads)


def steps(case, obs, d):
    rng = random.Random(case["seed"])
    root, cdir = os.path.join(d, "root"), os.path.join(d, "conf")
    os.makedirs(cdir)
    os.makedirs(os.path.join(root, "home"))
    homes.install(root)
    gens = case["gens"]
    paths = any("plug.py" in g["files"] for g in gens)
    oracle = Oracle(gens, os.path.join(d, "oracle"))
    put(cdir, root, gens[0])
    vhprobe.reset({"x": False})
    srv = daemon.InProc(cdir)
    hook0, threading.excepthook = threading.excepthook, lambda *a: None
    now = 0

    def ask(allowed, what, user="?"):
        if user == "?":
            user = rng.choice([None, None, "ann", "bob", "nobody"])
        raw, cmd = rng.choice(case["msgs"]), rng.choice(CMDS)
        del srv.errors[:]
        got, _ = parse(srv.request(daemon.req(cmd, raw, ["User: " + user] if user else [])), cmd)
        obs.count("responses")
        obs.count("at:" + what)
        if got is None:
            obs.violation("lost", "%s: the request was not answered: %r" % (what, srv.errors[:1]))
            return None
        match = [g for g in range(len(gens)) if oracle.says(g, user, cmd, raw) == got]
        if len(match) == 1:
            obs.count("identified")
        if what == "during a reload" and not match and user and any(
                oracle.says(g, user, cmd, raw, p) == got for g in allowed for p in allowed):
            # he asked for the first time, when his preferences on disk were already those of the next generation
            obs.count("first_requests_during_a_reload")
            return None
        if not set(match) & set(allowed):
            obs.violation(("stale:" if match else "mixture:") + what,
                          "%s of %s for user %r: is the answer of generation(s) %s, not of %s: %.700r instead of %.700r" % (
                              what, cmd, user, match, sorted(allowed), got, oracle.says(max(allowed), user, cmd, raw)))
        return match
    try:
        with Pauser(cdir) as pause:
            for step in case["steps"]:
                new = (now + 1) % len(gens)
                if step == "request":
                    ask([now], "request")
                elif step == "same":
                    # nothing changes without a reload, whatever is on disk
                    put(cdir, root, gens[new])
                    # (preferences that were not looked at yet may be read at any time)
                    ask([now], "changed on disk", None)
                    put(cdir, root, gens[now])
                elif step == "broken":
                    with open(os.path.join(cdir, "15.cf"), "wb") as f:
                        f.write(b"include 15.cf\nrequired_score 99\nbody BROKEN /./\n")
                    ok = wait(start_reload(srv))
                    obs.expect(ok, "stuck", "the broken reload did not end")
                    obs.count("failed_reloads")
                    ask([now], "after a failed reload", None)
                    os.remove(os.path.join(cdir, "15.cf"))
                elif step == "during":
                    put(cdir, root, gens[new])
                    pause.active = True
                    ths = start_reload(srv)
                    points = 0
                    while True:
                        p = pause.next(ths)
                        if p is None:
                            break
                        if p == "late":
                            obs.violation("stuck", "the reload did not end")
                            return
                        points += 1
                        # (the plugin of a path is read from the disk, too, when a user first asks)
                        ask([now, new], "during a reload", None if paths else "?")
                        p[2].set()
                    pause.active = False
                    obs.count("pauses", points)
                    now = new
                    for _ in range(2):
                        ask([now], "after a reload")
                elif step == "inside":
                    put(cdir, root, gens[new])
                    ran = []

                    def truth(msg):
                        if not ran:
                            ran.append(1)
                            obs.expect(wait(start_reload(srv)), "stuck", "the reload inside a request did not end")
                            obs.count("reloads_inside_rules")
                        return False
                    vhprobe.TRUTH["x"] = truth
                    ask([now], "reload inside a request", None)
                    vhprobe.TRUTH["x"] = False
                    if ran:
                        now = new
                    else:
                        put(cdir, root, gens[now])
                    for u in (None, "ann", "bob"):
                        ask([now], "after a reload", u)
                elif step == "prefs":
                    ran = []
                    # forget the users
                    wait(start_reload(srv))
                    old = dict(gens[now])

                    def hook():
                        ran.append(1)
                        cfg = dict(gens[new])
                        put(cdir, root, cfg)
                        obs.expect(wait(start_reload(srv)), "stuck", "the reload inside a request did not end")
                        obs.count("reloads_inside_users")
                    pause.on_prefs = hook
                    del old
                    u = rng.choice(["ann", "bob"])
                    ask([now, new], "reload while a user is looked up", u)
                    pause.on_prefs = None
                    if ran:
                        now = new
                    for x in (u, u, None):
                        ask([now], "after a reload", x)
                elif step == "twice":
                    put(cdir, root, gens[new])
                    last = (new + 1) % len(gens)
                    pause.active = True
                    one = start_reload(srv)
                    stopped = []
                    # let the first one get somewhere
                    for _ in range(rng.randrange(1, 4)):
                        p = pause.next(one)
                        if p in (None, "late"):
                            break
                        stopped.append(p)
                        if _ == 0 or rng.random() < .7:
                            stopped.pop()[2].set()
                    put(cdir, root, gens[last])
                    two = start_reload(srv)
                    # the second one may overtake the first
                    end = time.time() + .4
                    while time.time() < end and any(t.is_alive() for t in two):
                        with pause.cond:
                            mine = [q for q in pause.queue if q[0] in two]
                            pause.queue = [q for q in pause.queue if q[0] not in two]
                        for q in mine:
                            q[2].set()
                        time.sleep(.005)
                    ask(range(len(gens)), "between two reloads", None)
                    pause.active = False
                    for q in stopped:
                        q[2].set()
                    with pause.cond:
                        for q in pause.queue:
                            q[2].set()
                        del pause.queue[:]
                    if not wait(one + two):
                        obs.violation("stuck", "two reloads did not end")
                        return
                    obs.count("overlapping_reloads")
                    now = last
                    for x in (None, "ann", "bob"):
                        ask([now], "after overlapping reloads", x)
    finally:
        srv.close()
        threading.excepthook = hook0


# --- as a process -----------------------------------------------------------------------------------
def process(case, obs, d):
    rng = random.Random(case["seed"])
    root, cdir = os.path.join(d, "root"), os.path.join(d, "conf")
    os.makedirs(cdir)
    os.makedirs(os.path.join(root, "home"))
    # the plugin of a path is replaced in place, what is in the middle of it is not the question here
    gens = []
    for g in case["gens"]:
        files = {}
        # a single file per kind, so that the files on disk always belong together
        files["00.pre"] = g["files"]["00.pre"].replace("loadplugin PathPlugin @DIR@/plug.py\n", "")
        text = "".join(g["files"][n] for n in ("10.cf", "20.cf", "30.cf") if n in g["files"])
        files["10.cf"] = "\n".join(l for l in text.splitlines() if "PATH" not in l and "include" not in l) + "\n"
        files["10.cf"] = files["00.pre"] + files["10.cf"]
        files["00.pre"] = "# empty\n"
        gens.append({"files": files, "prefs": {}})
    oracle = Oracle(gens, os.path.join(d, "oracle"))
    put(cdir, root, gens[0])
    srv = daemon.Process(cdir, d, prefork=case["prefork"], root=root)
    log, lock, stop = [], threading.Lock(), threading.Event()
    signals = [(0, 0)]       # (time, index into order)
    order = [0]

    def client(k):
        r = random.Random("%s/%s" % (case["seed"], k))
        while not stop.is_set():
            raw, cmd = r.choice(case["msgs"]), r.choice(["REPORT", "PROCESS", "HEADERS", "SYMBOLS", "PROCESS"])
            t0 = time.time()
            try:
                got, problem = srv.request(daemon.req(cmd, raw, ["User: ann"] if r.random() < .2 else []))
            except OSError as e:
                got, problem = b"", "connect: %r" % e
            with lock:
                log.append((t0, time.time(), cmd, raw, got, problem))
    try:
        pids = srv.workers() if case["prefork"] else [srv.proc.pid]
        ts = [threading.Thread(target=client, args=(k,), name="vh-%d" % k) for k in range(4)]
        for t in ts:
            t.start()
        time.sleep(.3)
        for n in range(6 if case["quick"] else 4):
            g = (order[-1] + 1) % len(gens)
            order.append(g)
            put(cdir, root, gens[g])
            signals.append((time.time(), len(order) - 1))
            srv.signal(signal.SIGUSR1)
            time.sleep(rng.choice([0, .01, .1]) if case["quick"] and rng.random() < .7 else .8)
        # the last one has to get through to every worker
        end = time.time() + 30
        final = {}
        while time.time() < end and len(final) < len(pids):
            time.sleep(.1)
            with lock:
                recent = log[-40:]
            for t0, t1, cmd, raw, got, problem in recent:
                ans, pid = parse(got, cmd)
                if ans and pid and t0 > signals[-1][0] and ans == oracle.says(order[-1], None, cmd, raw):
                    final[pid] = 1
        stop.set()
        for t in ts:
            t.join(70)
        obs.expect(srv.proc.poll() is None, "died", "the daemon ended: %s", srv.output()[-1500:])
        missing = [p for p in pids if p not in final]
        answered = set()
        floor = {}
        for t0, t1, cmd, raw, got, problem in sorted(log, key=lambda x: x[1]):
            obs.count("process_responses")
            ans, pid = parse(got, cmd)
            if ans is None:
                obs.violation("process-lost", "a request was answered %r (%s); the daemon says %s" % (
                    got[:200], problem, srv.output()[-800:]))
                continue
            answered.add(pid)
            fits = [n for n in range(len(order)) if oracle.says(order[n], None, cmd, raw) == ans]
            latest = max(n for t, n in signals if t <= t1)
            if not fits:
                obs.violation("process-mixture", "%s: no generation answers %.800r" % (cmd, ans))
                continue
            fits = [n for n in fits if n <= latest]
            obs.expect(fits, "process-early", "%s: answered by a configuration that was not there yet", cmd)
            if pid and fits:
                obs.seen("worker_generations", (pid, order[fits[-1]]))
                # what this worker showed before the request began
                known = [n for end_, n in floor.get(pid, ()) if end_ < t0]
                obs.expect(not known or max(fits) >= max(known), "process-back",
                           "worker %s answered for step %s after step %s was seen", pid, fits, known and max(known))
                if len(set(fits)) == 1:
                    floor.setdefault(pid, []).append((t1, fits[0]))
        slow = [p for p in missing if p in answered]
        obs.expect(not slow, "process-never", "worker(s) %s of %s never showed the last configuration; the daemon says %s",
                   slow, pids, srv.output()[-600:])
        obs.count("process_reloads", len(order) - 1)
        obs.count("prefork" if case["prefork"] else "single")
    finally:
        stop.set()
        srv.stop()


def run(case, obs):
    with oah.TempDir() as d:
        if case["mode"] == "steps":
            steps(case, obs, d)
        else:
            process(case, obs, d)
        obs.nontrivial(case["seed"], tuple(case.get("steps") or ()))
        obs.sample({"mode": case["mode"], "steps": case.get("steps"), "first": case["gens"][0]["files"]["20.cf"]}, 2)


def init(shard):
    world.install()
    homes.install(os.path.join(core.SCRATCH, "noroot"))


if __name__ == "__main__":
    core.main("C17", gen, run, (160, 3000),
              "2-4 generations of a configuration (files, rules, options, networks, plugins, preferences); in "
              "process: requests at each point where a reload opens a file, reloads inside a rule and inside a "
              "user look-up, failing and overlapping reloads; as a process: four clients during 4-6 SIGUSR1 with "
              "1-4 workers; each response identified with the generations that give it; a case is one history",
              require={"responses": 1200, "identified": 900, "pauses": 150, "reloads_inside_rules": 60,
                       "reloads_inside_users": 20, "overlapping_reloads": 60, "failed_reloads": 60,
                       "process_responses": 800, "process_reloads": 60, "prefork": 10, "worker_generations": 40},
              init=init, case_timeout=150, budget=(240, 780))
