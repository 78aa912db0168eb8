"""P01-P06: the Python tools run against simulated ROS worlds; each case is judged from what the model managers received."""
import builtins, contextlib, copy, io, os, shutil, sys, tempfile, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakes, vhpy, yaml
from vhpy import HarnessError, Skip
REPO, GEN = os.environ["VERIF_REPO"], os.environ["VERIF_GEN"]

# ------------------------------------------------------------------------------------------------ loading the code under test
sys.path.insert(0, os.path.join(GEN, "py"))
import controller_manager_msgs.msg as MSG
import controller_manager_msgs.srv as SRV
class M(object): pass
for _m in (MSG, SRV):
    for _k in dir(_m): setattr(M, _k, getattr(_m, _k))
ROSPY = fakes.rospy_module()
STD, STDMSG = fakes.std_msgs_module(MSG._Message)
BASE = {"rospy": ROSPY, "rospy.exceptions": ROSPY.exceptions, "rospy.service": ROSPY.service, "rospy.core": ROSPY.core, "rospy.rostime": ROSPY.rostime, "rospy.timer": ROSPY.timer, "rospy.names": ROSPY.names,
        "rosservice": fakes.strict("rosservice", get_service_list=fakes.get_service_list, get_service_type=fakes.get_service_type, ROSServiceIOException=fakes.ROSServiceIOException, ROSServiceException=fakes.ROSServiceException),
        "rosparam": fakes.strict("rosparam", set_param=fakes.rp_set, set_param_raw=fakes.rp_set_raw, list_params=fakes.rp_list, get_param=fakes.rp_get, upload_params=fakes.rp_upload, load_file=fakes.rp_load_file, RosParamException=fakes.RosParamException),
        "std_msgs": STD, "std_msgs.msg": STDMSG, "time": fakes.time_module()}
CODE = {}
def code(path):
    p = os.path.join(REPO, path)
    if p not in CODE: CODE[p] = compile(open(p).read(), p, "exec")
    return CODE[p], p
def load(name, path, package=None):
    """a fresh instance of a module of the code under test"""
    c, p = code(path); m = types.ModuleType(name); m.__file__ = p; m.__package__ = package if package is not None else name.rpartition(".")[0]
    sys.modules[name] = m; exec(c, m.__dict__); return m
def utils(): return load("controller_manager_msgs.utils", "controller_manager_msgs/src/controller_manager_msgs/utils.py")
def cmi():
    pk = types.ModuleType("controller_manager"); pk.__path__ = [os.path.join(REPO, "controller_manager/src/controller_manager")]; sys.modules["controller_manager"] = pk
    m = load("controller_manager.controller_manager_interface", "controller_manager/src/controller_manager/controller_manager_interface.py"); pk.controller_manager_interface = m; return m
for _k, _v in BASE.items(): sys.modules[_k] = _v
_real_time = sys.modules["time"]

class Outcome(object): pass
def run_script(path, argv):
    """runs a script as a process would: main, then the exit handlers"""
    w = fakes.W; o = Outcome(); o.exc = None; o.exit = None; o.stuck = False; out = io.StringIO(); err = io.StringIO(); old = sys.argv
    c, p = code(path); m = types.ModuleType("__main__"); m.__file__ = p; sys.argv = [p] + list(argv); main = sys.modules["__main__"]
    try:
        sys.modules["__main__"] = m
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try: exec(c, m.__dict__)
            except SystemExit as e: o.exit = e.code
            except fakes.Stuck: o.stuck = True
            except (Exception, KeyboardInterrupt) as e: o.exc = e
            w.ended = w.now; w.max_after = w.after + 500
            try: w.do_shutdown()
            except fakes.Stuck: o.stuck = True
    finally: sys.argv = old; sys.modules["__main__"] = main
    o.out, o.err = out.getvalue(), err.getvalue(); return o

def namesake(ck, what):
    """the ROS master shuts a node down when another one of the same name starts"""
    w = fakes.W
    if w.init_done: ck.ok(w.anonymous, "shut-down-by-namesake", "%s is shut down by ROS as soon as another one is started: its node name is not unique" % what); ck.count("nodes with unique names")

def unexpected(ck, o, what):
    if o.stuck: ck.fail("never-ends", "%s does not terminate%s" % (what, " although it has been shut down" if fakes.W.shutdown else ""))
    if o.exc is not None: ck.fail("raises-%s" % type(o.exc).__name__, "%s raised %r in %s" % (what, o.exc, vhpy.where(o.exc, REPO)))
    return not o.stuck and o.exc is None

def call(ck, what, fn, *a, **k):
    """calls code under test that must not raise"""
    try: return True, fn(*a, **k)
    except (Exception, KeyboardInterrupt) as e:
        ck.fail("raises-%s" % type(e).__name__, "%s raised %r in %s" % (what, e, vhpy.where(e, REPO))); return False, None

# ------------------------------------------------------------------------------------------------ P01: filters
WORDS = ["a", "ab", "abc", "b", "ba", "arm", "arm_left", "left_arm", "", "Arm", "a.c", "*", "joint1", "joint10", "running", "stopped", "run", "hw/Pos", "hw/PosVel", "Pos", "pos", "/arm", "arm/", "/", "arm ", " arm", "arm_", "[a]", "a|b", "^a", "a+", "\\", "None", "0", "a b", "\u00e9", "hw::Pos", "/joint1"]
def perturbed(rng, x):
    return rng.choice([x + "/", "/" + x, x + " ", x.upper(), x.lower(), x[1:], x[:-1], x + x, x[::-1], x + "_", x.strip("/"), x.replace("_", "-"), x + "\n"])
STATES = ["running", "stopped", "initialized", "uninitialized", "waiting", "aborted"]
def p01(rng, ck):
    fakes.W = fakes.World(); u = utils(); W1 = rng.sample(WORDS, rng.randint(2, len(WORDS)) if rng.random() < .3 else rng.randint(2, 8))
    if rng.random() < .4: W1 += [perturbed(rng, rng.choice(W1)) for _ in range(rng.randint(1, 3))]
    def w(): return rng.choice(W1)
    n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .97 else rng.choice([20, 60, 200]); lst = []
    for _ in range(n):
        c = MSG.ControllerState(name=w(), type=w(), state=rng.choice(STATES) if rng.random() < .7 else w())
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3]) if rng.random() < .98 else rng.randint(4, 20)):
            c.claimed_resources.append(MSG.HardwareInterfaceResources(hardware_interface=w(), resources=[w() for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < .98 else rng.randint(4, 40))]))
        lst.append(c)
    if lst and rng.random() < .2: lst.append(rng.choice(lst))
    inp = tuple(lst) if rng.random() < .1 else lst; before = copy.deepcopy(list(lst)); ids = [id(c) for c in lst]
    kind = rng.choice(["name", "type", "state", "hardware_interface", "resources"]); q = w() if rng.random() < .8 else rng.choice(WORDS)
    if kind == "state" and rng.random() < .7: q = rng.choice(STATES)
    if kind == "resources":
        res = [w() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < .98 else rng.randint(4, 12))]; hwi = rng.choice([None, None, w(), w(), ""]); anyy = rng.random() < .5
        form = rng.randint(0, 2); r0 = tuple(res) if form == 1 else res
        kw = {}; 
        if hwi is not None or rng.random() < .3: kw["hardware_interface"] = hwi
        if anyy or rng.random() < .3: kw["match_any"] = anyy
        want = [c for c in lst if any((hwi is None or s.hardware_interface == hwi) and ((any(r in s.resources for r in res) if anyy else all(r in s.resources for r in res))) for s in c.claimed_resources)]
        okk, got = call(ck, "filter_by_resources(%r, %r)" % (res, kw), u.filter_by_resources, inp, r0, **kw); what = "resources %r %r" % (res, kw)
        ok2 = res == list(r0)
    else:
        sub = rng.random() < .5; kw = {"match_substring": sub} if sub or rng.random() < .3 else {}
        if kind == "hardware_interface": want = [c for c in lst if any((q in s.hardware_interface) if sub else q == s.hardware_interface for s in c.claimed_resources)]
        else: want = [c for c in lst if ((q in getattr(c, kind)) if sub else q == getattr(c, kind))]
        okk, got = call(ck, "filter_by_%s(%r)" % (kind, q), getattr(u, "filter_by_" + kind), inp, q, **kw); what = "%s %r %r" % (kind, q, kw); ok2 = True
    if okk:
        got = list(got); ck.ok([id(c) for c in got] == [id(c) for c in want] or got == want, "wrong-selection", lambda: "filter by %s of %r selects %r instead of %r" % (what, before, got, want))
        ck.ok(list(lst) == before and ids == [id(c) for c in lst] and ok2, "input-modified", lambda: "filter by %s changed its input %r to %r" % (what, before, lst))
        ck.count("filters by " + kind); ck.count("selections " + ("none" if not want else "all" if len(want) == len(lst) else "some"))
        if want and len(want) < len(lst): ck.distinct(kind, repr(before), what)
        if ck.evals % 997 == 1: ck.sample("%s -> %d of %d" % (what, len(want), len(lst)))

# ------------------------------------------------------------------------------------------------ P02: discovery
NSS = ["/", "/controller_manager", "/robot/controller_manager", "/robot", "/robot2/controller_manager", "/robot/arm/controller_manager", "/list_controllers", "/list_controllers/cm", "/x/list_controllersX/cm", "/cm_list_controllers", "/a/b/c/cm", "/robot/controller_manager2", "/list_controller_types", "/controller_manager_demo/arm/controller_manager", "/Robot/controller_manager", "/Zeta/cm", "/controller_manager/controller_manager", "/robot_1/controller_manager"]
def complete(w, ns):
    return all((lambda s: s is not None and s.reachable and s.typ == "controller_manager_msgs/" + t)(w.services.get(fakes.canonical(ns + "/" + n))) for n, t in fakes.Manager.NAMES)
def p02(rng, ck):
    w = fakes.W = fakes.World(); u = utils(); r = rng.random()
    if r < .55: p02_managers(rng, ck, w, u)
    elif r < .8: p02_params(rng, ck, w, u)
    else: p02_lister(rng, ck, w, u)

def p02_managers(rng, ck, w, u):
    nss = rng.sample(NSS, rng.randint(1, 6)) if rng.random() < .97 else ["/r%d/controller_manager" % i for i in range(rng.randint(8, 25))]; where = rng.choice(["/", "/", "/", "/robot", "/robot/", "robot", "/list_controllers", "/nothing", "/robot/controller_manager"])
    if rng.random() < .4: w.shuffle = lambda l: (rng.shuffle(l), l)[1]
    g = fakes.global_ns(where); lister = rng.random() < .6; L = u.ControllerManagerLister(where) if lister and (where != "/" or rng.random() < .5) else u.ControllerManagerLister()
    if lister and type(L) and where != "/" : pass
    elif lister: where = "/"; g = "/"
    prev = []; hist = []
    for i in range(rng.randint(1, 7)):
        for ns in nss:
            m = rng.random(); have = any(n.startswith(fakes.global_ns(ns)) and n.rsplit("/", 1)[0] == ns.rstrip("/") for n in w.services)
            mgr = fakes.Manager(ns, M)
            if m < .35: mgr.stop(); mgr.start(); hist.append(("up", ns))
            elif m < .55: mgr.stop(); hist.append(("down", ns))
            elif m < .65:
                mgr.stop(); mgr.start(rng.sample([n for n, _ in mgr.NAMES], rng.randint(1, 5))); hist.append(("partial", ns))
            elif m < .72:
                mgr.stop(); mgr.start(); w.services[mgr.path(rng.choice([n for n, _ in mgr.NAMES]))].typ = rng.choice(["other/Type", "controller_manager_msgs/ListControllers2", "", "controller_manager_msgs/LoadController2"]); hist.append(("type", ns))
            elif m < .78:
                mgr.stop(); mgr.start(); w.services[mgr.path(rng.choice([n for n, _ in mgr.NAMES]))].reachable = False; hist.append(("unreachable", ns))
            elif m < .84 and have:   # some vanish
                for n in rng.sample([n for n, _ in mgr.NAMES], rng.randint(1, 3)): w.drop_service(mgr.path(n))
                hist.append(("lose", ns))
        for ns in nss:
            if rng.random() < .25: w.add_service(fakes.canonical(ns + "/" + rng.choice(["list_controllers_foo", "list_controllers/get_loggers", "my_list_controllers", "list_controllersX", "foo"])), "x/Y", None)
        for n in list(w.services):
            if w.services[n].typ == "x/Y" and rng.random() < .2: w.drop_service(n)
        w.master_ok = rng.random() > .06
        all_ns = sorted(set((n.rsplit("/", 1)[0] or "/") for n in w.services))
        inside = lambda ns: all((lambda p: p == where or p.startswith(g))(fakes.canonical(ns + "/" + n)) for n, _ in fakes.Manager.NAMES)
        must = [ns for ns in all_ns if inside(ns) and complete(w, ns)]
        lc = lambda ns: fakes.canonical(ns + "/list_controllers") in w.services
        guess = None
        if lister: ok, got = call(ck, "ControllerManagerLister", L)
        else:
            m = rng.random(); guess = None if m < .3 else list(prev) if m < .8 else [ns for ns in set(prev) | set(rng.sample(nss, 1)) if not lc(ns) or complete(w, ns)]
            gb = None if guess is None else list(guess)
            ok, got = (call(ck, "get_controller_managers", u.get_controller_managers, where, guess) if guess is not None or rng.random() < .5 else call(ck, "get_controller_managers", u.get_controller_managers, where))
            ck.ok(gb == guess, "guess-modified", "the initial guess %r became %r" % (gb, guess))
        if not ok: return
        got = list(got); known = prev if lister else guess or []
        if not w.master_ok: ck.ok(got == [], "unreachable-master", "the master is unreachable, result %r" % got); ck.count("lookups without master"); prev = got; continue
        desc = lambda: "services %r, seen from %r; history %r; previous %r; result %r, complete %r" % (sorted(w.services), where, hist, known, got, must)
        ck.ok(got == sorted(got), "not-sorted", desc); ck.ok(len(set(got)) == len(got), "duplicates", desc)
        ck.ok(all(x in got for x in must), "missing-manager", desc)
        seen = lambda ns: (lambda p: p == where or p.startswith(g))(fakes.canonical(ns + "/list_controllers"))
        ck.ok(all((complete(w, x) and seen(x)) or (x in known and lc(x) and seen(x)) for x in got), "bogus-manager", desc)
        ck.count("lookups"); ck.count("managers found", len(must)); ck.distinct("m", tuple(must), tuple(sorted(w.services)), tuple(known))
        if len(must) > 1: ck.count("lookups with several managers")
        if any(x not in must for x in known): ck.count("lookups after a manager vanished")
        for ns in all_ns:
            ok, v = call(ck, "is_controller_manager", u.is_controller_manager, ns)
            if ok: ck.ok(bool(v) == complete(w, ns), "is-controller-manager", "is_controller_manager(%r) = %r, services %r" % (ns, v, sorted(w.services)))
        prev = got

def p02_params(rng, ck, w, u):
    parts = ["a", "b", "type", "foo", "ns", "ns2", "type2", "x", "robot", "joint", "my_type"]
    for _ in range(rng.randint(0, 14)):
        p = "/" + "/".join(rng.choice(parts) for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4])))
        if rng.random() < .6: p += "/type"
        v = rng.choice(["pkg/Controller", "x", 1, 2.5, True, ["a", "b"]])
        try: w.get_param(p)
        except KeyError: w.set_param(p, v)
    ns = rng.choice(["/", "", "/ns", "/ns/", "/a", "/a/b", "/type", "/robot", "/robot/ns", "/nothing", "/ns/ns", "ns", "a/"])
    lv = [x.rsplit("/", 2)[0] for x in w.leaves() if x.endswith("/type") and x.count("/") >= 2]
    if lv and rng.random() < .5: ns = rng.choice(lv) or "/"
    n = fakes.canonical("/" + ns)
    want = []
    try: d = w.get_param(n)
    except KeyError: d = {}
    if isinstance(d, dict):
        for k, v in d.items():
            if isinstance(v, dict) and "type" in v and not isinstance(v["type"], dict): want.append(k)
    want.sort(); dflt = ns == "/" and rng.random() < .5
    ok, got = call(ck, "get_rosparam_controller_names(%r)" % ns, *([u.get_rosparam_controller_names] + ([] if dflt else [ns])))
    if ok:
        ck.ok(list(got) == want, "configured-controllers", lambda: "parameters %r, namespace %r: %r instead of %r" % (w.params, ns, got, want))
        ck.count("parameter lookups"); ck.count("configured controllers found", len(want))
        if want: ck.distinct("p", repr(w.params), ns)

def p02_lister(rng, ck, w, u):
    ns = rng.choice(["/controller_manager", "/robot/controller_manager", "/", "/a"]); mgr = fakes.Manager(ns, M)
    def fill():
        mgr.ctrl.clear()
        for i in range(rng.randint(0, 4) if rng.random() < .95 else rng.randint(10, 60)): mgr.ctrl["c%d" % i] = rng.choice(STATES)
    fill()
    if rng.random() < .8: mgr.start()
    dflt = ns == "/controller_manager" and rng.random() < .5
    ok, L = call(ck, "ControllerLister(%r)" % ns, *([u.ControllerLister] + ([] if dflt else [ns])))
    if not ok: return
    hist = []; good = True
    for i in range(rng.randint(2, 8) if rng.random() < .97 else rng.randint(20, 60)):
        m = rng.random()
        if m < .2: mgr.stop(); mgr.start(); fill(); hist.append("restart"); good = False
        elif m < .35: mgr.stop(); good = False; hist.append("down")
        elif m < .5 and not mgr.up: mgr.start(); good = False; hist.append("up")
        elif m < .65: fill(); hist.append("change")
        fails = rng.choice([0, 0, 0, 1, 1, 2, 3])
        if mgr.up: w.services[mgr.path("list_controllers")].fail_next = fails
        hist.append("call, %d failures" % fails)
        ok, got = call(ck, "ControllerLister()", L)
        if not ok: return
        exp = [(n, s) for n, s in mgr.ctrl.items()]; g = [(c.name, c.state) for c in got]
        d = lambda: "%s: history %r, result %r, manager has %r" % (ns, hist, g, exp)
        if not mgr.up: ck.ok(g == [], "not-empty", d); ck.count("list calls without manager")
        elif fails == 0 or (fails == 1 and good): ck.ok(g == exp, "list-lost" if not g else "list-wrong", d); ck.count("list calls recovered" if fails else "list calls")
        else: ck.ok(g == [] or g == exp, "list-wrong", d)
        good = bool(mgr.up) and (fails == 0 or (fails == 1 and good))
        if mgr.up: w.services[mgr.path("list_controllers")].fail_next = 0
        ck.distinct("l", tuple(hist), tuple(exp))

# controller names: mostly plain, often near misses of each other (prefixes, suffixes, case), sometimes very many of them
NEAR = ["arm", "arm_controller", "left_arm_controller", "ar", "Arm", "arm2", "arm_2", "2_arm", "m", "arm_controller2", "left_arm", "rm", "arm__controller", "controller"]
def ctrl_names(rng, n, many=40):
    r = rng.random()
    if r < .03: return ["c%d" % i for i in range(rng.randint(n + 1, many))]
    if r < .3: return rng.sample(NEAR, min(n, len(NEAR)))
    return ["c%d" % i for i in range(n)]

# ------------------------------------------------------------------------------------------------ P03: spawner
SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None:
        import atexit
        SCRATCH = tempfile.mkdtemp(prefix="verif_p03_"); atexit.register(shutil.rmtree, SCRATCH, True); os.chdir(SCRATCH)
    for f in os.listdir(SCRATCH): os.unlink(os.path.join(SCRATCH, f))
    return SCRATCH

def p03(rng, ck):
    w = fakes.W = fakes.World(rng.choice(["/", "/", "/", "/robot", "/other"])); d = scratch(); desc = []
    names = ctrl_names(rng, rng.choice([1, 1, 2, 3, 3, 4, 6]), 25); rng.shuffle(names)
    # arguments
    argv = []; ns = rng.choice([None, None, None, "/robot", "/robot/", "robot", "arm/", "/", "/a/b"]); stopped = rng.random() < .25
    wait = rng.choice([None, None, None, "ready", "/ready", "x/ready"]); T = 30.0; to = rng.random(); opts = []
    if ns is not None: opts.append(["--namespace", ns] if rng.random() < .7 else ["--namespace=" + ns])
    if stopped: opts.append(["--stopped"])
    if wait: opts.append(["--wait-for", wait])
    if to < .3: T = rng.choice([0.5, 2, 10, 120]); opts.append(["--timeout", str(T)])
    elif to < .45: T = None; opts.append(rng.choice([["--timeout", "0"], ["--timeout=-1"], ["--no-timeout"], ["--no-timeout", "--timeout", "5"]]))
    if rng.random() < .15: opts.append(["--shutdown-timeout", rng.choice(["1", "0", "x"])])
    rng.shuffle(opts)
    # some controllers come from files
    args, expected, files = [], [], {}; rest = list(names)
    while rest:
        if rng.random() < .25:
            k = rng.randint(1, min(3, len(rest))); grp, rest = rest[:k], rest[k:]; fn = "f%d.yaml" % len(files); cfg = {}
            for n in grp: cfg[n] = {"type": "pkg/" + n, "gains": {"p": rng.randint(0, 9)}}
            with open(os.path.join(d, fn), "w") as f: yaml.safe_dump(cfg, f, sort_keys=False)
            args.append(fn if rng.random() < .5 else os.path.join(d, fn)); expected += grp
            for n in grp: files[n] = cfg[n]
        else: n = rest.pop(0); args.append(n); expected.append(n)
    flat = [x for o in opts for x in o]
    argv = flat + args if rng.random() < .6 else args + flat
    if rng.random() < .3: argv += ["__name:=spawner_%d" % rng.randint(0, 9), "__log:=/tmp/log"]
    # managers
    base = fakes.resolve((ns + ("" if ns.endswith("/") else "/") if ns else "") + "controller_manager"); mgr = fakes.Manager(base, M)
    decoys = [fakes.Manager(x, M) for x in ("/controller_manager", "/robot/controller_manager", "/other/controller_manager", "/other/robot/controller_manager", "/robot/robot/controller_manager") if x != base and rng.random() < .6]
    for m in decoys: m.start()
    mgr.can_load = set(n for n in expected if rng.random() < .85) if rng.random() < .6 else set(expected)
    foreign = {"o1": "running", "o2": "stopped"} if rng.random() < .7 else {}
    mgr.ctrl.update(foreign)
    for n in expected:
        if rng.random() < .06: mgr.ctrl[n] = rng.choice(["running", "stopped"])     # somebody else's
    if rng.random() < .5: mgr.odd = "initialized"
    mgr.refuse = (lambda r: lambda op, nn: op == "switch" and r < .15 and not w.in_shutdown)(rng.random())
    pre = set(mgr.ctrl)
    # services come up in some order
    late = rng.random(); srv = [n for n, _ in mgr.NAMES]; need = ["load_controller", "switch_controller", "unload_controller"]; t_all = w.now; never = False; first_missing = None
    if late < .55: mgr.start()
    else:
        t = w.now
        for n in rng.sample(srv, len(srv)):
            if late > .75: t += rng.choice([0, .1, .4, 1, 3, 20, 50])
            if late > .92 and n in need and rng.random() < .5: never = True; continue
            if t <= w.now: mgr.start([n])
            else: w.at(t, lambda n=n: mgr.start([n]))
            if n in need: t_all = max(t_all, t)
    # simulated time
    t_clock = w_start = w.now
    if rng.random() < .2:
        w.params["use_sim_time"] = True; w.sim_time = True
        t_clock = w.now + rng.choice([0, 0, 1, 40, 100, 1e9]); w.clock = lambda tc=t_clock: 12.5 if w.now >= tc else 0
        if t_clock < w.now + 1e6: w.at(t_clock, lambda: None)
    elif rng.random() < .1: w.params["use_sim_time"] = False
    # wait-for topic
    plan = []; topic = fakes.resolve(wait) if wait else None
    if wait:
        t = rng.choice([w.now, t_all]) + rng.choice([0, .5, 5, 60]); said = False
        if rng.random() < .2: w.latched[topic] = STDMSG.Bool(data=rng.random() < .6)
        for i in range(rng.randint(0, 5)):
            v = rng.random() < .4; other = rng.random() < .15
            w.at(t, lambda v=v, tp=topic + ("2" if other else ""): w.publish(tp, STDMSG.Bool(data=v)))
            if not other: plan.append((t, v))
            t += rng.choice([.02, .5, 3])
    # others' doings and the shutdown
    def meddle():
        if w.in_shutdown: return
        m = rng.random(); mine = [n for n in loaded_by_us() if n in mgr.ctrl]
        if m < .35 and mine: mgr.ctrl[rng.choice(mine)] = "running"; ck.count("started by others")
        elif m < .7 and mine: mgr.ctrl[rng.choice(mine)] = rng.choice(["stopped", "aborted"] if rng.random() < .7 else ["waiting"]); ck.count("stopped or failed by others")
        elif m < .82 and mine: del mgr.ctrl[rng.choice(mine)]; ck.count("unloaded by others")
        elif m < .9: mgr.ctrl["late%d" % rng.randint(0, 3)] = "running"
        # "waiting" controllers are not running and can be unloaded
    def loaded_by_us(): return [c[1] for c in mgr.calls if c[0] == "load" and c[2]]
    horizon = w.now + rng.choice([1, 10, 60, 200])
    for _ in range(rng.choice([0, 0, 1, 2, 4])): w.at(rng.uniform(w.now, horizon), meddle)
    lat = rng.choice([None, None, lambda: rng.choice([0, .1, 2])]); w.latency = lat
    if rng.random() < .5: w.at(rng.uniform(w.now, horizon + 60), w.planned)
    if rng.random() < .4: w.at_step[rng.randint(1, 40)] = w.planned
    if rng.random() < .3:
        for _ in range(2): w.at_step[rng.randint(1, 40)] = meddle
    dead = None
    if rng.random() < .08: w.at(rng.uniform(w.now, horizon), lambda: (mgr.stop(), w.log.append(("dead",))))
    # monitors
    viol = []
    def on_call(e):
        if e[0] == "load" and e[1] in files:
            try: v = w.get_param("/" + e[1])
            except KeyError: v = None
            if v != files[e[1]]: viol.append(("config-missing", "%s is loaded but its configuration on the parameter server is %r instead of %r" % (e[1], v, files[e[1]])))
        if e[0] == "load":
            if not all(mgr.path(n) in w.services for n in need): viol.append(("incomplete-interface", "loading %s while the manager offers only %r" % (e[1], sorted(w.services))))
            if wait and ("heard", topic, True) not in w.log: viol.append(("before-wait-for", "loading %s before %s was true" % (e[1], topic)))
    mgr.on_call = on_call
    o = run_script("controller_manager/scripts/spawner", argv)
    info = lambda: "spawner %s in %s\nmanager %s; log:\n  %s" % (" ".join(argv), w.node_ns, base, "\n  ".join(map(str, w.log[-60:])))
    died = ("dead",) in w.log
    ck.log(info(), o.exc, o.exit)
    namesake(ck, "a spawner")
    for k, t in viol: ck.fail(k, t + "\n" + info())
    for m in decoys: ck.ok(not m.calls, "wrong-manager", lambda: "requests %r went to %s\n%s" % (m.calls, m.ns, info()))
    if o.stuck: ck.fail("never-ends", "the spawner does not terminate although it has been shut down\n" + info())
    if o.exit is not None: ck.fail("exit", "exit status %r: %s\n%s" % (o.exit, o.err[-400:], info()))
    if o.exc is not None and not died and not (isinstance(o.exc, fakes.ROSInterruptException) and w.shutdown): ck.fail("raises-%s" % type(o.exc).__name__, "%r in %s\n%s" % (o.exc, vhpy.where(o.exc, REPO), info()))
    ck.ok(not w.hook_errors or died, "hook-raises", lambda: "the shutdown hook raised %r\n%s" % (w.hook_errors, info()))
    loads = [c for c in mgr.calls if c[0] == "load"]; ours = [c[1] for c in loads if c[2]]
    i_sd = w.log.index(("shutdown",)) if ("shutdown",) in w.log else len(w.log)
    before = [e[1:] for e in w.log[:i_sd] if e[0] == base]; after = [e[1:] for e in w.log[i_sd:] if e[0] == base]
    ended_early = ("shutdown",) in w.log and i_sd < len(w.log)
    # loading
    ck.ok([c[1] for c in loads] == expected[:len(loads)], "load-order", lambda: "loads %r, expected %r\n%s" % ([c[1] for c in loads], expected, info()))
    switches = [e for e in before if e[0] == "switch" and (e[1] or e[2])]
    full = len([e for e in before if e[0] == "load"]) == len(expected)
    for e in before + after:
        if e[0] == "switch" and (e[1] or e[2]): ck.ok(e[6] == 0 and (not e[1] or not e[5]), "switch-options", lambda: "%r\n%s" % (e, info()))
    for e in switches: ck.ok(full and sorted(e[1]) == sorted(ours) and not e[2] and e[3] == 2 and not stopped and len(switches) == 1, "wrong-start", lambda: "start request %r, loaded %r%s\n%s" % (e, ours, " (--stopped)" if stopped else "", info()))
    # shutdown
    touched = [n for e in after if e[0] == "switch" for n in e[1] + e[2]] + [e[1] for e in after if e[0] == "unload"]
    ck.ok(all(n in ours for n in touched), "touches-others", lambda: "requests %r on shutdown, but it loaded only %r\n%s" % (after, ours, info()))
    ck.ok(not any(e[0] == "load" or (e[0] == "switch" and e[1]) for e in after), "starts-after-shutdown", lambda: "%r after the shutdown\n%s" % (after, info()))
    if not died and ended_early and all(mgr.path(n) in w.services for n in need):
        left = [(n, mgr.ctrl[n]) for n in ours if n in mgr.ctrl]
        ck.ok(not left, "left-behind", lambda: "%r left after the shutdown\n%s" % (left, info()))
        un = [e[1] for e in after if e[0] == "unload"]
        ck.ok(un == [n for n in reversed(ours) if n in un], "unload-order", lambda: "unloads %r, loaded %r\n%s" % (un, ours, info()))
    for n in pre: ck.ok(n in mgr.ctrl or died, "lost", lambda: "%s was not the spawner's but is gone\n%s" % (n, info()))
    # nothing that should have happened is missing: judged if no signal ended the session early
    if not died and not w.signalled:
        must_find = not never and (T is None or t_all <= max(1000.0 + T, t_clock) - .5)
        may_find = not never
        told = not wait or (plan[-1][1] and plan[-1][0] >= max(t_all, 1000.0) + 2 if plan else topic in w.latched and w.latched[topic].data)
        if must_find and w.by_idle and (told or w.last_heard(topic) is True):
            ck.ok(len(loads) == len(expected), "not-loaded", lambda: "expected %r, loads %r although nothing kept it from loading\n%s" % (expected, loads, info()))
            if len(loads) == len(expected) and ours and not stopped: ck.ok(len(switches) == 1, "not-started", lambda: "%r not started\n%s" % (ours, info()))
            ck.count("complete sessions")
        if must_find: ck.ok(w.by_idle, "gave-up", lambda: "the spawner ended although it had not been shut down\n%s" % info())
        if never and T is not None and t_clock < w_start + 1e6:
            ck.ok(not w.by_idle and w.ended <= max(w_start, t_clock) + 3 * T + 5, "no-timeout", lambda: "no manager, timeout %g s, but after %g s it %s\n%s" % (T, w.ended - w_start, "is still waiting" if w.by_idle else "ended", info())); ck.count("gave up after the timeout")
        if not may_find: ck.ok(not loads, "incomplete-interface", info); ck.count("sessions without manager")
        if loads: ck.ok(w.by_idle, "gave-up", lambda: "the spawner ended although it had not been shut down\n%s" % info())
    ck.count("controllers loaded", len(ours)); ck.count("controllers unloaded on exit", sum(1 for e in after if e[0] == "unload"))
    ck.count("loads refused", sum(1 for c in loads if not c[2]))
    if loads and len([e for e in before if e[0] == "load"]) < len(expected): ck.count("shut down while loading")
    if wait and loads: ck.count("waited for a topic")
    if files and loads: ck.count("configuration files loaded")
    if died: ck.count("managers died")
    ck.distinct(tuple(argv), tuple(w.log)); 
    if ck.evals % 401 == 1: ck.sample(info())

# ------------------------------------------------------------------------------------------------ P04: unspawner, groups
def p04(rng, ck): (p04_unspawner if rng.random() < .45 else p04_group)(rng, ck)

def p04_unspawner(rng, ck):
    w = fakes.W = fakes.World(rng.choice(["/", "/", "/robot"])); base = fakes.resolve("controller_manager"); mgr = fakes.Manager(base, M); names = ctrl_names(rng, rng.randint(1, 6))
    for n in names:
        if rng.random() < .85: mgr.ctrl[n] = rng.choice(["running", "running", "stopped", "initialized", "waiting", "aborted"])
    decoy = fakes.Manager("/decoy/controller_manager" if base != "/decoy/controller_manager" else "/d2", M); decoy.start()
    args = rng.sample(names, rng.randint(1, len(names))); named = set(args)
    if rng.random() < .2: args.append("unknown"); named.add("unknown")
    if rng.random() < .2: args.append(args[0])
    argv = args + (["__name:=x"] if rng.random() < .3 else [])
    refused = rng.random(); mgr.refuse = lambda op, nn: (refused < .3 and op == "switch" and not w.in_shutdown and rng.random() < .5) or (refused > .9 and "c0" in nn and not w.in_shutdown)
    t_up = w.now; late = rng.random()
    if late < .6: mgr.start()
    elif late < .8: t_up += rng.choice([.1, 2, 50]); w.at(t_up, mgr.start)
    else:
        for n in rng.sample([n for n, _ in mgr.NAMES], len(mgr.NAMES)): t_up += rng.choice([.1, .5, 2]); w.at(t_up, lambda n=n: mgr.start([n]))
    if rng.random() < .3: w.hook_latency = lambda: rng.choice([0, 1, 4, 7])
    inhibited = set(); last = {"list": None}; running_since = {}; worst = {}
    def meddle():
        if w.in_shutdown: return
        n = rng.choice(names); m = rng.random()
        if m < .55: mgr.ctrl[n] = "running" if n in mgr.ctrl or m < .1 else "stopped"; ck.count("started by others while inhibited" if n in inhibited else "started by others")
        elif m < .75 and n in mgr.ctrl: mgr.ctrl[n] = "stopped"
        elif m < .82: mgr.ctrl.pop(n, None)
        else: mgr.ctrl.setdefault(n, "stopped")
    for _ in range(rng.choice([0, 1, 3, 6, 10])): w.at(w.now + rng.uniform(0, 40), meddle)
    end = w.now + rng.choice([.5, 10, 45, 60]); w.at(end, w.planned)
    problems = []; asked = {}
    def on_call(e):
        if e[0] == "list": last["list"] = dict(mgr.ctrl)
        if e[0] == "switch" and not w.in_shutdown:
            start, stop = e[1], e[2]; seen = last["list"] or {}
            want = sorted(n for n in named if seen.get(n) == "running")
            if start: problems.append(("starts", "starts %r" % (start,)))
            if not set(stop) <= named: problems.append(("touches-others", "stops %r, named are only %r" % (stop, sorted(named))))
            elif stop and sorted(stop) != want: problems.append(("wrong-stop", "stops %r, but of the named controllers %r were found running" % (stop, want)))
            if e[4]: inhibited.update(stop)
            for n in stop: asked[n] = w.now
        if e[0] == "switch" and (e[1] or e[2]) and (e[6] != 0 or (e[1] and e[5])): problems.append(("switch-options", "%r" % (e,)))
        if e[0] not in ("list", "types", "switch"): problems.append(("other-request", "%r" % (e,)))
    mgr.on_call = on_call
    # watches how long a named controller runs without a request to stop it
    def watch():
        if w.in_shutdown: return
        for n in named:
            if mgr.ctrl.get(n) == "running": running_since.setdefault(n, w.now)
            else: running_since.pop(n, None)
            t = max(running_since.get(n, w.now), asked.get(n, 0), w.first_up)
            if w.first_up < 1e11 and w.now - t > 6.6: problems.append(("not-stopped", "%s has been running for %.1f s without a request to stop it" % (n, w.now - t))); running_since[n] = w.now
        if len(mgr.up) == len(mgr.NAMES) and w.first_up > 1e11: w.first_up = w.now
        if w.first_up < 1e11 and w.now - w.first_up > 2.2 and last["list"] is None and not w.tardy: w.tardy = True; problems.append(("not-stopped", "the manager has been there for %.1f s without a look at its controllers" % (w.now - w.first_up)))
        if w.now < end: w.at(w.now + .2, watch)
    w.first_up = 1e12; w.tardy = False; watch()
    o = run_script("controller_manager/scripts/unspawner", argv)
    info = lambda: "unspawner %s\nlog:\n  %s" % (" ".join(argv), "\n  ".join(map(str, [e for e in w.log if e[-1] != "list"][-60:])))
    ck.log(info(), o.exc)
    namesake(ck, "an unspawner")
    for k, t in problems[:3]: ck.fail(k, t + "\n" + info())
    ck.ok(not decoy.calls, "wrong-manager", lambda: "%r sent to %s\n%s" % (decoy.calls, decoy.ns, info()))
    if o.exit is not None: ck.fail("exit", "exit status %r\n%s" % (o.exit, info()))
    late = t_up > end - 1.5
    if late: ck.count("sessions without manager")
    elif not unexpected(ck, o, "unspawner " + " ".join(argv)): return
    if o.stuck: ck.fail("never-ends", info())
    ck.ok(not w.thread_errors and not w.hook_errors, "raises-in-callback", lambda: "%r %r\n%s" % (w.thread_errors, w.hook_errors, info()))
    i_sd = w.log.index(("shutdown",)); ck.ok(w.signalled or late, "gave-up", lambda: "ended on its own\n%s" % info())
    after = [e[1:] for e in w.log[i_sd:] if e[0] == base and e[1] != "list"]; sw = [e for e in after if e[0] == "switch" and (e[1] or e[2])]
    ck.ok(all(e[0] == "switch" for e in after) and not any(e[2] for e in sw) and sorted(n for e in sw for n in e[1]) == sorted(inhibited), "wrong-restart", lambda: "inhibited %r, requests on exit %r\n%s" % (sorted(inhibited), after, info()))
    left = [n for n in inhibited if n in mgr.ctrl and mgr.ctrl[n] != "running"]
    ck.ok(not left, "not-restarted", lambda: "%r not running after the exit\n%s" % (left, info()))
    ck.count("unspawner sessions"); ck.count("controllers inhibited", len(inhibited)); ck.count("stop requests", len([c for c in mgr.calls if c[0] == "switch" and c[2]])); ck.count("stop requests refused", len([c for c in mgr.calls if c[0] == "switch" and c[2] and not c[4]]))
    ck.distinct("u", tuple(argv), tuple(e for e in w.log if e[-1] != "list"))
    if ck.evals % 401 == 1: ck.sample(info())

def p04_group(rng, ck):
    w = fakes.W = fakes.World(rng.choice(["/", "/", "/robot"])); base = fakes.resolve("controller_manager"); mgr = fakes.Manager(base, M); names = ctrl_names(rng, rng.randint(1, 7))
    cmi(); decoy = fakes.Manager("/decoy/controller_manager", M); decoy.start(); mgr.start()
    groups = {}
    for i in range(rng.choice([0, 1, 2, 2, 3, 3, 4]) if rng.random() < .97 else rng.randint(5, 20)):
        g = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]) if i else rng.choice([1, 2, 3]) if len(names) < 8 else rng.randint(1, 15))]
        groups["g%d" % i] = g if rng.random() < .3 else list(dict.fromkeys(g))
    if groups or rng.random() < .5: w.set_param(fakes.resolve("controller_groups"), groups)
    if rng.random() < .3: w.set_param("/elsewhere/controller_groups", {"g0": ["o1"]})
    for n in names:
        if rng.random() < .55: mgr.ctrl[n] = rng.choice(["running", "running", "stopped", "initialized", "aborted"])
    if rng.random() < .5: mgr.ctrl["o1"] = "running"
    bad = set(n for n in names if rng.random() < .12); mgr.refuse = (lambda r: lambda op, nn: (op == "load" and any(n in bad for n in nn)) or (op == "switch" and r < .12))(rng.random())
    if rng.random() < .4: mgr.odd = "initialized"
    before = dict(mgr.ctrl); cmd = rng.choice(["switch"] * 6 + ["spawn", "spawn", "list"]); g = rng.choice(sorted(groups) * 3 + ["undefined"]) if groups else "g0"
    argv = [cmd] + ([g] if cmd != "list" else []) + (["__name:=y"] if rng.random() < .2 else [])
    o = run_script("controller_manager/scripts/controller_group", argv); calls = mgr.calls
    info = lambda: "controller_group %s, groups %r, state before %r, cannot load %r: requests %r, state after %r, output %r" % (" ".join(argv), groups, before, sorted(bad), calls, mgr.ctrl, o.out)
    ck.log(info(), o.exc)
    if not unexpected(ck, o, "controller_group: " + info()): return
    if o.exit not in (None, 0): ck.fail("exit", "exit status %r, %s\n%s" % (o.exit, o.err, info()))
    ck.ok(not decoy.calls, "wrong-manager", info)
    options(ck, calls, info)
    want = set(groups.get(g, [])); others = set(n for v in groups.values() for n in v) - want
    loads = [c for c in calls if c[0] == "load"]; sw = [c for c in calls if c[0] == "switch" and (c[1] or c[2])]
    ck.ok(all(c[0] in ("load", "switch") for c in calls), "other-request", info)
    ck.ok(len(set(c[1] for c in loads)) == len(loads), "loads-twice", info)
    if cmd == "list":
        ck.ok(not calls, "list-changes", info); pos = [o.out.find(x) for x in sorted(groups)]
        ck.ok(all(p >= 0 for p in pos) and all(n in o.out for v in groups.values() for n in v), "list-incomplete", info); ck.count("group lists")
    elif not want: ck.ok(not calls, "undefined-group", info); ck.count("undefined or empty groups")
    elif cmd == "spawn":
        ck.ok(set(c[1] for c in loads) == want, "spawn-loads", info); st = [n for c in sw for n in c[1]]
        ck.ok(not any(c[2] for c in sw) and sorted(st) == sorted(want), "spawn-starts", info); ck.count("groups spawned")
        if not any(not c[4] for c in sw) : ck.ok(all(mgr.ctrl.get(n) == "running" for n in want) , "spawn-result", info)
    else:
        missing = want - set(before); failing = missing & bad
        ck.ok(set(c[1] for c in loads) <= missing, "switch-loads", info)
        if failing:
            ck.ok(any(not c[2] for c in loads), "switch-loads", info); ck.ok(not sw, "switch-despite-failed-load", info); ck.count("group switches cancelled")
            ck.ok(all(mgr.ctrl.get(n) == s for n, s in before.items()), "switch-despite-failed-load", info)
        else:
            ck.ok(set(c[1] for c in loads) == missing, "switch-loads", info)
            start = sorted(n for n in want if before.get(n) != "running"); stop = sorted(n for n in others if before.get(n) == "running")
            ck.ok((not start and not stop and not sw) or (len(sw) == 1 and sorted(sw[0][1]) == start and sorted(sw[0][2]) == stop and sw[0][3] == 2), "wrong-switch", lambda: "expected start %r, stop %r; %s" % (start, stop, info()))
            ck.ok(not sw or calls.index(sw[0]) > max([calls.index(l) for l in loads] or [-1]), "switch-before-load", info)
            ck.count("group switches"); ck.count("group switches " + ("with stops" if stop else "without stops"))
    ck.distinct("g", repr(groups), tuple(argv), tuple(calls), repr(before))

# ------------------------------------------------------------------------------------------------ P05: command line client
def options(ck, calls, info):
    for e in calls:
        if e[0] == "switch" and (e[1] or e[2]): ck.ok(e[6] == 0 and (not e[1] or not e[5]), "switch-options", lambda: "%r; %s" % (e, info()))

def p05(rng, ck):
    w = fakes.W = fakes.World(rng.choice(["/", "/", "/robot"])); base = fakes.resolve("controller_manager"); mgr = fakes.Manager(base, M); names = ctrl_names(rng, rng.randint(1, 6))
    decoy = fakes.Manager("/decoy/controller_manager", M); decoy.start()
    up = rng.random()
    if up < .75: mgr.start()
    elif up < .87: w.at(w.now + rng.choice([1, 100]), mgr.start)
    else:     # one service after the other
        for i, (n, _) in enumerate(rng.sample(mgr.NAMES, len(mgr.NAMES))): w.at(w.now + i * rng.choice([1, 3]), lambda n=n: mgr.start([n]))
    for n in names:
        if rng.random() < .6: mgr.ctrl[n] = rng.choice(STATES if rng.random() < .3 else ["running", "stopped"]); mgr.types[n] = "pkg/" + n
        if rng.random() < .5: mgr.claims[n] = [MSG.HardwareInterfaceResources(hardware_interface=rng.choice(["hw/A", "hw/B", "hw/A"]), resources=["j1"]) for _ in range(rng.randint(0, 3))]
    mgr.type_list = [("t%d/T" % i, rng.choice(["b", "b2"])) for i in range(rng.randint(0, 4))]
    salt = rng.random(); ref = {}
    mgr.refuse = lambda op, nn: salt < .6 and rng.random() < .25
    before = dict(mgr.ctrl); args = [rng.choice(names + ["ghost"]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 4, 9]))] if rng.random() < .4 else rng.sample(names, rng.randint(0, len(names)))
    mod = cmi()
    if rng.random() < .45: return p05_api(rng, ck, w, mgr, mod, args, before, up)
    cmd = rng.choice(["load", "unload", "start", "stop", "spawn", "sp", "kill", "kl", "list", "lc", "list-types", "lt", "reload-libraries", "reload-libraries --restore", "bogus", ""])
    if cmd.startswith("reload") and up >= .87: w.advance(20)
    argv = cmd.split() + (args if cmd in ("load", "unload", "start", "stop", "spawn", "sp", "kill", "kl") else []) + (["__name:=z"] if rng.random() < .2 else [])
    o = run_script("controller_manager/scripts/controller_manager", argv); calls = mgr.calls
    info = lambda: "controller_manager %s, state before %r: requests %r, output %r, exit %r" % (" ".join(argv), before, calls, o.out, o.exit)
    ck.log(info(), o.exc)
    if not unexpected(ck, o, info()): return
    ck.ok(not decoy.calls, "wrong-manager", info)
    options(ck, calls, info)
    one = lambda op: [{"load": ("load", n), "unload": ("unload", n), "start": ("switch", (n,), (), 2), "stop": ("switch", (), (n,), 2)}[op] for n in args]
    exp = {"load": ["load"], "unload": ["unload"], "start": ["start"], "stop": ["stop"], "spawn": ["load", "start"], "sp": ["load", "start"], "kill": ["stop", "unload"], "kl": ["stop", "unload"]}.get(cmd)
    if exp is not None:
        want = [x for op in exp for x in one(op)]; got = [c[:4] if c[0] == "switch" else c[:2] for c in calls]
        ck.ok(got == want, "wrong-requests", lambda: "expected %r; %s" % (want, info())); ck.count("commands " + exp[0] + ("+" + exp[1] if len(exp) > 1 else "")); ck.count("requests", len(calls))
        if len(args) > 1: ck.count("commands for several controllers")
        if any(not (c[4] if c[0] == "switch" else c[2]) for c in calls): ck.count("commands with refusals")
    elif cmd in ("list", "lc"): ck.ok(not calls, "list-changes", info); listing(ck, o.out, mgr, info)
    elif cmd in ("lt", "list-types"): ck.ok(not calls and o.out.split() == [t for t, b in mgr.type_list], "list-types", info); ck.count("type lists")
    elif cmd.startswith("reload"): reload_oracle(ck, cmd.endswith("--restore"), True, before, mgr, info)
    else: ck.ok(not calls and o.exit == (1 if cmd else 0), "usage", info)
    ck.distinct(tuple(argv), tuple(calls), repr(before))
    if ck.evals % 401 == 1: ck.sample(info())

def listing(ck, out, mgr, info):
    lines = [l for l in out.splitlines() if l.strip()]
    if not mgr.ctrl: ck.ok(not any("'" in l for l in lines), "list-wrong", info)
    else: ck.ok(len(lines) == len(mgr.ctrl) and all(("'%s'" % n) in l and s in l and all(h.hardware_interface in l for h in mgr.claims.get(n, [])) for l, (n, s) in zip(lines, mgr.ctrl.items())), "list-wrong", info)
    ck.count("lists"); ck.count("controllers listed", len(mgr.ctrl))

def reload_oracle(ck, restore, force, before, mgr, info):
    calls = mgr.calls; rl = [c for c in calls if c[0] == "reload"]
    if not ck.ok(len(rl) == 1 and rl[0][1] == force, "reload-request", info): return
    ok = rl[0][2]; rest = [c for c in calls if c[0] != "reload"]; ck.count("reloads" + (" with restore" if restore else ""))
    if not restore: ck.ok(not rest, "reload-touches", info); return
    ck.ok(all(c[0] in ("load", "switch") for c in rest), "restore", info)
    if not ok: ck.count("reloads refused"); return
    i = calls.index(rl[0]); loads = [c for c in calls[i:] if c[0] == "load"]; starts = [n for c in calls[i:] if c[0] == "switch" for n in c[1]]
    ck.ok(sorted(c[1] for c in loads) == sorted(before), "restore-loads", info)
    ck.ok(not any(c[2] for c in rest if c[0] == "switch") and sorted(starts) == sorted(n for n, s in before.items() if s == "running"), "restore-starts", info)
    back = set(c[1] for c in loads if c[2])
    if not mgr.refused_switches: ck.ok(all((mgr.ctrl.get(n) == "running") == (s == "running") for n, s in before.items() if n in back), "restore-result", info); ck.count("partly restored states" if len(back) < len(before) else "fully restored states")
    if all(c[2] for c in loads) and all(c[4] for c in rest if c[0] == "switch"):
        ck.ok(set(mgr.ctrl) == set(before) and all((mgr.ctrl[n] == "running") == (s == "running") for n, s in before.items()), "restore-result", info); ck.count("restored states"); 
        if "running" in before.values(): ck.count("restored running controllers")

def p05_api(rng, ck, w, mgr, mod, args, before, up):
    n = rng.choice(args + ["c0", "arm"]); out = io.StringIO()
    f = rng.choice(["load_controller", "unload_controller", "start_controller", "stop_controller", "start_controllers", "stop_controllers", "start_stop_controllers", "list_controllers", "list_controller_types", "reload_libraries"])
    a, kw, want = (), {}, None
    if f == "load_controller": a = (n,); want = [("load", n)]
    elif f == "unload_controller": a = (n,); want = [("unload", n)]
    elif f == "start_controller": a = (n,); want = [("switch", (n,), (), 2)]
    elif f == "stop_controller": a = (n,); want = [("switch", (), (n,), 2)]
    elif f == "start_controllers": a = (args,); want = [("switch", tuple(args), (), 2)]
    elif f == "stop_controllers": a = (args,); want = [("switch", (), tuple(args), 2)]
    elif f == "start_stop_controllers":
        k = rng.randint(0, len(args)); kw = {"start_controllers": args[:k], "stop_controllers": args[k:]}; want = [("switch", tuple(args[:k]), tuple(args[k:]), 2)]
        if not args[:k] and rng.random() < .5: del kw["start_controllers"]
        if not args[k:] and rng.random() < .5: del kw["stop_controllers"]
    elif f == "reload_libraries":
        if up >= .87: w.advance(20)      # only one of its services is waited for
        force = rng.random() < .6; restore = rng.random() < .6; a = (force,); kw = {"restore": restore} if restore or rng.random() < .5 else {}
    rounds = rng.choice([1, 1, 2])
    for r in range(rounds):
        st = dict(mgr.ctrl); del mgr.calls[:]; o = io.StringIO(); a0, k0 = copy.deepcopy(a), copy.deepcopy(kw)
        with contextlib.redirect_stdout(o): ok, got = call(ck, "%s%r" % (f, a), getattr(mod, f), *a, **kw)
        if not ok: return
        calls = mgr.calls; info = lambda: "%s(%r, %r), state before %r: requests %r, returned %r, output %r" % (f, a, kw, st, calls, got, o.getvalue())
        ck.log(info())
        ck.ok(a0 == a and k0 == kw, "arguments-modified", info); options(ck, calls, info)
        if want is not None:
            g = [c[:4] if c[0] == "switch" else c[:2] for c in calls]
            if ck.ok(g == want or (want[0][0] == "switch" and not want[0][1] and not want[0][2] and not g), "wrong-requests", lambda: "expected %r; %s" % (want, info())) and calls:
                ans = calls[0][4] if calls[0][0] == "switch" else calls[0][2]
                ck.ok((got is True or got == 1) if ans else not got, "wrong-result", lambda: "the manager answered %r; %s" % (ans, info())); ck.count("answers passed on: %s" % ans)
        elif f == "list_controllers": ck.ok(not calls, "list-changes", info); listing(ck, o.getvalue(), mgr, info)
        elif f == "list_controller_types": ck.ok(not calls and o.getvalue().split() == [t for t, b in mgr.type_list], "list-types", info)
        else:
            reload_oracle(ck, restore, force, st, mgr, info); rl = [c for c in calls if c[0] == "reload"]
            if rl: ck.ok(bool(got) == rl[0][2], "wrong-result", info)
    ck.distinct("api", f, repr(a), repr(kw), tuple(mgr.calls), repr(before))

# ------------------------------------------------------------------------------------------------ P06: graphical front end
import qt
for _k, _v in qt.modules().items(): sys.modules[_k] = _v
def rqt():
    utils(); cmi_pk = types.ModuleType("controller_manager_msgs_x")
    import controller_manager_msgs; controller_manager_msgs.utils = sys.modules["controller_manager_msgs.utils"]
    pk = types.ModuleType("rqt_controller_manager"); pk.__path__ = [os.path.join(REPO, "rqt_controller_manager/src/rqt_controller_manager")]; sys.modules["rqt_controller_manager"] = pk
    uc = load("rqt_controller_manager.update_combo", "rqt_controller_manager/src/rqt_controller_manager/update_combo.py"); pk.update_combo = uc
    return load("rqt_controller_manager.controller_manager", "rqt_controller_manager/src/rqt_controller_manager/controller_manager.py"), uc

MENUS = {"running": {("stop",), ("stop", "unload")}, "stopped": {("start",), ("unload",)}, "initialized": {("start",), ("unload",)}, "uninitialized": {("load",), ("load", "start")}}
def tokens(label): return tuple(t for t in "".join(c if c.isalpha() else " " for c in label.lower()).split() if t in ("start", "stop", "load", "unload"))

def p06_combo(rng, ck):
    w = fakes.W = fakes.World(); _, uc = rqt(); c = qt.Combo(); pool = rng.sample(["a", "b", "c", "/x", "/x/y", "aa", "A", "/x/", "/xy", " a"], rng.randint(1, 6)) if rng.random() < .97 else ["/r%d/cm" % i for i in range(rng.randint(10, 40))]; hist = []
    for i in range(rng.randint(1, 8) if rng.random() < .97 else rng.randint(15, 50)):
        vals = rng.sample(pool, rng.randint(0, len(pool))); sel = c.currentText(); had = c.idx >= 0; b = list(vals); del c.emitted[:]
        ok, _ = call(ck, "update_combo", uc.update_combo, c, vals); hist.append((tuple(vals), sel))
        if not ok: return
        d = lambda: "values and selections %r: items %r, selected %r, signals %r" % (hist, c.items, c.currentText(), c.emitted)
        ck.ok(sorted(c.items) == sorted(b) and vals == b, "combo-items", d)
        if had and sel in b: ck.ok(c.idx >= 0 and c.currentText() == sel and not c.emitted, "selection-lost", d); ck.count("selections kept")
        else: ck.ok(c.idx == -1 and (c.emitted == [""] if had else not [e for e in c.emitted if e]), "selection-made-up", d); ck.count("selections dropped" if had else "nothing selected")
        ck.ok(not c.blocked, "signals-blocked", d)
        if rng.random() < .5 and c.items: c.setCurrentIndex(rng.randrange(-1, len(c.items)))
    ck.distinct("combo", tuple(hist))

def p06(rng, ck):
    if rng.random() < .25: return p06_combo(rng, ck)
    w = fakes.W = fakes.World(); rq, _ = rqt(); qt.QMenu.choose = None
    nss = rng.sample(["/controller_manager", "/robot/controller_manager", "/", "/robot2/controller_manager", "/a/b/cm", "/robot/cm2", "/cm"], rng.randint(1, 4)); mgrs = {ns: fakes.Manager(ns, M) for ns in nss}; hist = []
    names = ctrl_names(rng, 5, 30) + ["arm", "type"]
    def parent(ns): p = ns.rsplit("/", 1)[0]; return p if p else "/"
    def configure(ns):
        n = rng.choice(names); p = fakes.canonical(parent(ns) + "/" + n + "/type"); t = rng.choice(["pkg/" + n] * 12 + ["", n])
        try:
            d = w.get_param(fakes.canonical(parent(ns) + "/" + n))
            if isinstance(d, dict) and isinstance(d.get("type", ""), str): w.set_param(p, t)
        except KeyError: w.set_param(p, t)
        except TypeError: pass
    def change(m, alive=True):
        n = rng.choice(names); r = rng.random()
        if r < .6: m.ctrl[n] = rng.choice(STATES if r < .3 else ["running", "stopped", "initialized"]); m.types[n] = rng.choice(["pkg/" + n, "other/" + n]); m.claims[n] = [MSG.HardwareInterfaceResources(hardware_interface="hw/%d" % i, resources=["j%d" % j for j in range(rng.randint(0, 3) if rng.random() < .95 else rng.randint(4, 20))]) for i in range(rng.randint(0, 2) if rng.random() < .95 else rng.randint(3, 8))]
        else: m.ctrl.pop(n, None)
        m.ctrl = {k: v for k, v in m.ctrl.items() if v != "uninitialized"}
    for ns in nss:
        for _ in range(rng.randint(0, 4) if len(names) < 9 else rng.randint(5, 40)): change(mgrs[ns])
        for _ in range(rng.randint(0, 3)): configure(ns)
        if rng.random() < .8: mgrs[ns].start()
    if rng.random() < .3: w.set_param("/some/other/thing", 3)
    for m in mgrs.values(): m.refuse = lambda op, nn: rng.random() < .1
    ctx = qt.Context(rng.choice([1, 1, 2])); v0 = len(ck.viol)
    ok, P = call(ck, "ControllerManager()", rq.ControllerManager, ctx)
    if not ok: return
    settings = qt.Settings(); t0 = w.now
    def info(): return "managers %r; history:\n  %s\nselected %r, items %r, states %r, parameters %r" % (sorted(n for n in nss if mgrs[n].up), "\n  ".join(map(str, hist[-25:])), P._widget.cm_combo.currentText(), P._widget.cm_combo.items, {n: mgrs[n].ctrl for n in nss}, w.params)
    def rows():
        m = P._widget.table_view._model
        if m is None: return []
        out = []; root = qt.QModelIndex(); n = m.rowCount(root)
        for r in range(n):
            for c in range(m.columnCount(root)):
                for role in (qt.Qt.DisplayRole, qt.Qt.DecorationRole, qt.Qt.FontRole, qt.Qt.TextAlignmentRole, qt.Qt.ToolTipRole, qt.Qt.EditRole, qt.Qt.BackgroundRole, qt.Qt.CheckStateRole, qt.Qt.SizeHintRole): m.data(m.index(r, c), role)
            out.append((m.data(m.index(r, 0), qt.Qt.DisplayRole), m.data(m.index(r, 1), qt.Qt.DisplayRole)))
            if m.data(m.index(r, 0), qt.Qt.DecorationRole) is None: raise ValueError("no icon in row %d" % r)
        m.data(qt.QModelIndex(), qt.Qt.DisplayRole)
        for o in (qt.Qt.Horizontal, qt.Qt.Vertical):
            for c in range(2): m.headerData(c, o, qt.Qt.DisplayRole); m.headerData(c, o, qt.Qt.DecorationRole)
        return out
    def settle(key=True):
        """two update periods without changes: the display must show the truth"""
        sel = P._widget.cm_combo.currentText()
        ok, _ = call(ck, "the periodic update", w.advance, rng.choice([2.05, 3.1]))
        if not ok: ck.log(info()); return False
        cb = P._widget.cm_combo; up = sorted(n for n in nss if mgrs[n].up)
        ck.ok(sorted(cb.items) == up, "manager-list", info)
        if sel and sel in up: ck.ok(cb.currentText() == sel, "selection-lost", lambda: "%r was selected\n%s" % (sel, info()))
        elif not sel or sel not in up: ck.ok(cb.currentText() == "", "selection-made-up", lambda: "%r was selected\n%s" % (sel, info()))
        return table()
    def table():
        ok, r = call(ck, "displaying the table", rows); cb = P._widget.cm_combo
        if not ok: ck.log(info()); return False
        exp = []; s = cb.currentText()
        if s:
            m = mgrs[s]; exp = list(m.ctrl.items())
            try: d = w.get_param(parent(s))
            except KeyError: d = {}
            exp += [(k, "uninitialized") for k, v in d.items() if isinstance(v, dict) and "type" in v and not isinstance(v["type"], dict) and k not in m.ctrl] if isinstance(d, dict) else []
        ck.ok(sorted(r) == sorted(exp), "wrong-table", lambda: "shown %r, expected %r\n%s" % (r, exp, info())); ck.count("tables checked"); ck.count("rows checked", len(exp))
        for n, st in exp: ck.count("rows " + st)
        return True
    for i in range(rng.randint(4, 16) if rng.random() < .98 else rng.randint(30, 80)):
        r = rng.random(); cb, tv = P._widget.cm_combo, P._widget.table_view
        if not cb.currentText() and rng.random() < .5: r = .1
        if r < .22 and cb.items:
            k = rng.randrange(len(cb.items)); hist.append(("select", cb.items[k])); new = k != cb.idx; ok, _ = call(ck, "selecting a manager", cb.setCurrentIndex, k); ck.count("selections")
            if ok and new and mgrs[cb.currentText()].up: ok = table(); ck.count("tables right after the selection")
        elif r < .30: ns = rng.choice(nss); hist.append(("up" if not mgrs[ns].up else "restart", ns)); mgrs[ns].stop(); mgrs[ns].ctrl = mgrs[ns].ctrl if rng.random() < .5 else {}; mgrs[ns].start(); ok = True
        elif r < .36:
            up = [n for n in nss if mgrs[n].up and (n != cb.currentText() or rng.random() < .4)]; ok = True
            if up: ns = rng.choice(up); hist.append(("down", ns)); mgrs[ns].stop(); ok = settle()
        elif r < .48: ns = rng.choice(nss); change(mgrs[ns]); configure(ns); hist.append(("change", ns, dict(mgrs[ns].ctrl))); ok = True
        elif r < .52:
            p = [x for x in w.leaves() if x.endswith("/type")]; ok = True
            if p: x = rng.choice(p); w.del_param(x); hist.append(("unset", x))
        elif r < .80 and cb.currentText() and mgrs[cb.currentText()].up:
            ok = settle()
            if ok: ok = p06_menu(rng, ck, w, P, mgrs, nss, hist, info, rows, change)
        elif r < .86 and cb.currentText():
            ok = settle()
            if ok: ok = p06_info(rng, ck, P, mgrs, hist, info, rows, w, parent)
        elif .86 <= r < .9:
            hist.append(("header menu",)); qt.QMenu.choose = lambda acts: rng.choice(acts + [None]); ok, _ = call(ck, "the header menu", P._widget.table_view._header.customContextMenuRequested.emit, qt.Pos(3, 3)); ck.count("header menus")
        elif .9 <= r < .94:   # session saved and restored
            sel = cb.currentText(); ok, _ = call(ck, "save_settings", P.save_settings, qt.Settings(), settings)
            if ok: ok, _ = call(ck, "shutdown_plugin", P.shutdown_plugin)
            if ok: ok, P = call(ck, "ControllerManager()", rq.ControllerManager, qt.Context(1))
            if ok: ok, _ = call(ck, "restore_settings", P.restore_settings, qt.Settings(), settings)
            if ok: hist.append(("restored", sel)); ck.ok(P._widget.cm_combo.currentText() == (sel if sel and mgrs[sel].up else ""), "not-restored", lambda: "%r was selected\n%s" % (sel, info())); ck.count("sessions restored")
        else: ok, _ = call(ck, "the periodic update", w.advance, rng.uniform(0, 2)); 
        if not ok or len(ck.viol) > v0: ck.log(info()); return
    settle(); ck.distinct(tuple(map(repr, hist)))
    n = {k: len(m.all) for k, m in mgrs.items()}; mc = w.master_calls
    ok, _ = call(ck, "shutdown_plugin", P.shutdown_plugin)
    if ok:
        w.advance(3); ck.ok(mc == w.master_calls and not P._popup_widget.visible and n == {k: len(m.all) for k, m in mgrs.items()}, "active-after-shutdown", info)
    if ck.evals % 401 == 1: ck.sample(info())

def p06_menu(rng, ck, w, P, mgrs, nss, hist, info, rows, change):
    shown = rows(); tv = P._widget.table_view; row = rng.randrange(0, len(shown) + 1) if shown else 0; sel = P._widget.cm_combo.currentText(); picked = []; offered = []
    for m in mgrs.values(): del m.calls[:]
    def choose(acts):
        offered.extend(acts)
        for _ in range(rng.choice([0, 0, 1, 2])):    # the world goes on while the menu is open
            change(mgrs[rng.choice(nss)])
            w.advance(rng.choice([.2, 1.5]))
        x = rng.choice(acts + [None]) if acts else None
        picked.append(x); return x
    qt.QMenu.choose = choose; y = row * qt.Table.ROW + rng.randrange(qt.Table.ROW)
    ok, _ = call(ck, "the context menu", tv.customContextMenuRequested.emit, qt.Pos(5, y if row < len(shown) or shown else 7)); 
    calls = {n: list(m.calls) for n, m in mgrs.items() if m.calls}; x = picked[0] if picked else None
    hist.append(("menu", row, shown[row] if row < len(shown) else None, x.label if x else None, calls))
    if not ok: return False
    if row >= len(shown): ck.ok(not calls and x is None, "menu-without-row", info); ck.count("menus beside the rows"); return True
    name, st = shown[row]; offer = set(tokens(a.label) for a in offered)
    if st in MENUS: ck.ok(MENUS[st] <= offer, "menu", lambda: "the menu for %s (%s) offers %r\n%s" % (name, st, [a.label for a in offered], info()))
    ck.count("menus " + st)
    if x is None: ck.ok(not calls, "uncalled-for", info); return True
    t = tokens(x.label); want = [{"stop": ("switch", (), (name,), 2), "start": ("switch", (name,), (), 2), "load": ("load", name), "unload": ("unload", name)}[k] for k in t]
    got = calls.get(sel, []); g = [c[:4] if c[0] == "switch" else c[:2] for c in got]; refused = [i for i, c in enumerate(got) if not (c[4] if c[0] == "switch" else c[2])]
    ck.ok(set(calls) <= {sel} and (g == want or (refused and g == want[:refused[0] + 1])), "wrong-requests", lambda: "%r for %s of %s: requests %r, expected %r\n%s" % (x.label, name, sel, calls, want, info()))
    ck.count("actions " + "+".join(t)); return True

def p06_info(rng, ck, P, mgrs, hist, info, rows, w, parent):
    shown = rows()
    if not shown: return True
    row = rng.randrange(len(shown)); name, st = shown[row]; sel = P._widget.cm_combo.currentText(); m = mgrs[sel]; pop = P._popup_widget; hist.append(("info", name))
    ok, _ = call(ck, "the info window", P._widget.table_view.doubleClicked.emit, qt.QModelIndex(row, rng.randint(0, 1)))
    if not ok: return False
    typ = m.types.get(name, "pkg/Type") if name in m.ctrl else w.get_param(fakes.canonical(parent(sel) + "/" + name + "/type"))
    claims = [(h.hardware_interface, list(h.resources)) for h in m.claims.get(name, [])] if name in m.ctrl else []
    tree = pop.resource_tree.m; roots = tree.kids[-1].kids if tree is not None and tree.kids else []
    got = [(k.t, [x.t for x in k.kids]) for k in roots]
    ck.ok(pop.ctrl_name.t == name and pop.ctrl_type.t == typ and got == claims, "wrong-info", lambda: "shown %r %r %r, expected %r %r %r\n%s" % (pop.ctrl_name.t, pop.ctrl_type.t, got, name, typ, claims, info())); ck.ok(pop.visible, "info-hidden", info); ck.count("info windows"); return True

PROPS = {
 "P01": dict(fn=p01, cases=(200000, 6000000), rule="distinct selections of some but not all controllers", need={"filters by name": 1000, "filters by type": 1000, "filters by state": 1000, "filters by hardware_interface": 1000, "filters by resources": 1000, "selections some": 5000, "selections none": 1000}),
 "P02": dict(fn=p02, cases=(100000, 3000000), rule="distinct worlds looked up", need={"lookups": 5000, "lookups with several managers": 1000, "lookups after a manager vanished": 500, "lookups without master": 100, "parameter lookups": 1000, "configured controllers found": 1000, "list calls": 1000, "list calls recovered": 300, "list calls without manager": 300}),
 "P03": dict(fn=p03, cases=(48000, 1500000), rule="distinct sessions (arguments and complete event log)", need={"complete sessions": 500, "sessions without manager": 20, "controllers loaded": 5000, "controllers unloaded on exit": 5000, "loads refused": 300, "shut down while loading": 100, "waited for a topic": 300, "configuration files loaded": 500, "started by others": 100, "stopped or failed by others": 100, "unloaded by others": 50}),
 "P04": dict(fn=p04, cases=(80000, 2500000), rule="distinct sessions", need={"unspawner sessions": 1000, "controllers inhibited": 1000, "stop requests refused": 100, "started by others while inhibited": 100, "group switches": 1000, "group switches with stops": 300, "group switches cancelled": 50, "groups spawned": 300, "undefined or empty groups": 300}),
 "P05": dict(fn=p05, cases=(120000, 4000000), rule="distinct commands and answers", need={"commands load": 300, "commands unload": 300, "commands start": 300, "commands stop": 300, "commands load+start": 300, "commands stop+unload": 300, "commands for several controllers": 1000, "commands with refusals": 300, "lists": 300, "type lists": 100, "reloads with restore": 300, "restored running controllers": 100, "answers passed on: True": 300, "answers passed on: False": 300}),
 "P06": dict(fn=p06, cases=(40000, 1200000), rule="distinct histories", need={"selections": 2000, "tables checked": 5000, "rows waiting": 100, "rows aborted": 100, "rows uninitialized": 1000, "actions stop": 50, "actions stop+unload": 50, "actions start": 50, "actions unload": 50, "actions load": 50, "actions load+start": 50, "info windows": 100, "header menus": 100, "sessions restored": 100, "selections kept": 1000, "selections dropped": 300}),
}
if __name__ == "__main__": vhpy.main(PROPS, REPO, fakes.Stuck)
