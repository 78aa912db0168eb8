"""Stand-ins for the ROS and Qt modules the Python tools use: one simulated world (services, parameters, topics, clock,
shutdown) per case. Everything the tools do to a controller manager arrives at a model manager, which records it."""
import copy, io, os, sys, types, threading as real_threading
import time as real_time
import yaml
from vhpy import HarnessError

W = None            # the current world
class Stuck(BaseException): pass      # the tool goes on for ever after it has been shut down

class ROSException(Exception): pass
class ROSInterruptException(ROSException, KeyboardInterrupt): pass
class ROSInitException(ROSException): pass
class ROSSerializationException(ROSException): pass
class ROSInternalException(Exception): pass
class ROSTimeMovedBackwardsException(ROSInterruptException): pass
class ServiceException(Exception): pass
class TransportException(Exception): pass
class ROSServiceException(Exception): pass
class ROSServiceIOException(ROSServiceException): pass
class RosParamException(Exception): pass

def canonical(n):
    return n if not n or n == "/" else ("/" if n[0] == "/" else "") + "/".join(x for x in n.split("/") if x)
def resolve(name, ns=None):
    ns = W.node_ns if ns is None else ns
    if not name: return ns
    if name[0] == "/": return canonical(name)
    if name[0] == "~": return canonical(W.node_ns + "/" + W.node_name + "/" + name[1:])
    return canonical(ns + "/" + name)
def global_ns(n):
    if not n or n[0] != "/": n = "/" + n
    return n if n[-1] == "/" else n + "/"

class Server(object):
    """one registered service"""
    def __init__(self, typ, handler): self.typ, self.handler, self.alive, self.reachable, self.fail_next = typ, handler, True, True, 0

class World(object):
    def __init__(self, node_ns="/"):
        self.node_ns, self.node_name, self.now = node_ns, "node", 1000.0
        self.services, self.params, self.queue, self.seq = {}, {}, [], 0; self.polls = self.master_calls = 0
        self.shutdown, self.in_shutdown, self.hooks, self.pending_signal = False, False, [], False
        self.subs, self.latched, self.published, self.steps, self.after = [], {}, [], 0, 0
        self.at_step, self.master_ok, self.timers, self.log, self.thread_errors, self.hook_errors = {}, True, [], [], [], []
        self.sim_time, self.clock = False, None     # use_sim_time, /clock value
        self.latency = self.hook_latency = None     # () -> seconds a service call takes
        self.by_idle = self.signalled = False; self.thread = 0; self.max_after, self.max_steps, self.init_done, self.anonymous, self.published_msgs = 200, 60000, False, True, []
    # --- events
    def at(self, t, fn):
        self.seq += 1; self.queue.append((t, self.seq, fn)); self.queue.sort(key=lambda x: x[:2])
    def due(self, until):
        while self.queue and self.queue[0][0] <= until:
            t, _, fn = self.queue.pop(0); self.now = max(self.now, t); self.polls = 0; fn()
    def advance(self, dt):
        end = self.now + max(dt, 0); self.due(end); self.now = max(self.now, end)
    def next_event(self): return self.queue[0][0] if self.queue else None
    def step(self, kind, signals=True):
        """a point at which the outside world may act; signals are handled by the main thread between two requests"""
        self.steps += 1
        fn = self.at_step.pop(self.steps, None)
        if fn: fn()
        if signals and self.pending_signal and not self.thread and not self.in_shutdown: self.pending_signal = False; self.do_shutdown()
        if self.shutdown:
            self.after += 1
            if self.after > self.max_after: raise Stuck()
        elif self.steps > self.max_steps: raise Stuck()
    def signal(self): self.pending_signal = True; self.by_idle = self.by_idle or not self.signalled   # nothing more can happen: the user ends the session
    def planned(self):
        if not self.in_shutdown: self.pending_signal = self.signalled = True
    def last_heard(self, topic):
        h = [e[2] for e in self.log if e[:2] == ("heard", topic)]; return h[-1] if h else None
    def do_shutdown(self):
        if self.in_shutdown: return
        self.in_shutdown = True
        self.log.append(("shutdown",))
        for h in list(self.hooks):
            try: h()
            except Stuck: raise
            except Exception as e: self.hook_errors.append(e)
        self.hooks = []; self.shutdown = True
        self.log.append(("shutdown-done",))
        self.queue = [q for q in self.queue if getattr(q[2], "keep", False)]
    def idle(self, limit=None):
        """let time pass up to the next event or the limit; without either, the user ends the session"""
        n = self.next_event()
        if n is None and limit is None: self.signal()
        else:
            t = n if limit is None else limit if n is None else min(n, limit)
            self.advance(max(0.0, t - self.now))
        self.step("idle")
    def sleep(self, dt):
        if dt < 0: raise ValueError("sleep length must be non-negative")
        self.poll(dt)
    def poll(self, dt, kind="sleep"):
        # a program that polls need not be simulated poll by poll: jump ahead to the next event after a while
        self.polls += 1
        if self.polls > 40 and not self.shutdown:
            n = self.next_event()
            if n is None: self.signal()
            elif n > self.now + dt: dt = n - self.now
            self.polls = 0
        self.advance(dt); self.step(kind)
    # --- services
    def add_service(self, name, typ, handler): s = Server(typ, handler); self.services[name] = s; return s
    def drop_service(self, name):
        s = self.services.pop(name, None)
        if s: s.alive = False
    # --- parameters
    def split(self, name): return [x for x in name.split("/") if x]
    def set_param(self, name, v):
        p = self.split(name); d = self.params
        if not p: self.params = copy.deepcopy(v); return
        for x in p[:-1]:
            if not isinstance(d.get(x), dict): d[x] = {}
            d = d[x]
        d[p[-1]] = copy.deepcopy(v)
    def get_param(self, name):
        d = self.params
        for x in self.split(name):
            if not isinstance(d, dict) or x not in d: raise KeyError(name)
            d = d[x]
        return copy.deepcopy(d)
    def del_param(self, name):
        p = self.split(name); d = self.params
        for x in p[:-1]: d = d[x]
        del d[p[-1]]
    def leaves(self):
        out = []
        def walk(d, pre):
            for k, v in d.items():
                if isinstance(v, dict) and v: walk(v, pre + "/" + k)
                elif not isinstance(v, dict): out.append(pre + "/" + k)
        walk(self.params, ""); return out
    def publish(self, topic, msg, latch=False):
        if latch: self.latched[topic] = msg
        for s in list(self.subs):
            if s.resolved_name == topic and s.alive: s.deliver(msg)

# ------------------------------------------------------------------------------------------------ rospy
def to_request(cls, args, kwds):
    if args and kwds: raise TypeError("ServiceProxy: only args or keywords")
    if kwds: return cls(**kwds)
    if len(args) == 1 and args[0].__class__ is cls: return args[0]
    return cls(*args)
def serialise(msg):
    """copies a request as the wire would, or raises as the serialiser would"""
    out = type(msg)()
    for k in msg.__slots__:
        v, t = getattr(msg, k), msg._types[k]
        if t == "string":
            if not isinstance(v, (str, bytes)): raise ROSSerializationException("field %s must be a string, not %r" % (k, v))
        elif t == "string[]":
            try: v = [x for x in v]
            except TypeError: raise ROSSerializationException("field %s must be a list, not %r" % (k, v))
            if any(not isinstance(x, (str, bytes)) for x in v): raise ROSSerializationException("field %s must be a list of strings, not %r" % (k, v))
        elif t in ("float64", "float32"):
            if isinstance(v, bool) or not isinstance(v, (int, float)): 
                if not isinstance(v, bool): raise ROSSerializationException("field %s must be a number, not %r" % (k, v))
        elif t == "bool":
            if not isinstance(v, (int, bool)): raise ROSSerializationException("field %s must be a bool, not %r" % (k, v))
            v = bool(v)
        elif t.startswith(("int", "uint")):
            if not isinstance(v, int): raise ROSSerializationException("field %s must be an integer, not %r" % (k, v))
        setattr(out, k, copy.deepcopy(v))
    return out

class ServiceProxy(object):
    def __init__(self, name, service_class, persistent=False, headers=None):
        self.resolved_name = resolve(name); self.service_class = service_class; self.persistent = persistent; self.conn = None
        self.request_class = service_class._request_class; self.response_class = service_class._response_class
    def wait_for_service(self, timeout=None): wait_for_service(self.resolved_name, timeout)
    def close(self): self.conn = "closed" if self.persistent else None
    def __call__(self, *a, **k): return self.call(*a, **k)
    def call(self, *a, **k):
        req = to_request(self.request_class, a, k); req = serialise(req)
        W.step("call", signals=False); W.polls = 0
        if W.latency and not W.in_shutdown: W.advance(W.latency())
        s = W.services.get(self.resolved_name)
        if self.persistent:
            if self.conn is None: self.conn = s
            if self.conn is not s or s is None: self.conn = self.conn or "dead"; raise ServiceException("transport error completing service call (persistent connection lost)")
        if s is None: raise ServiceException("service [%s] unavailable" % self.resolved_name)
        if not s.reachable: raise ServiceException("unable to connect to service [%s]" % self.resolved_name)
        if s.typ != self.service_class._type: raise ServiceException("unable to connect to service: wrong type")
        if s.fail_next > 0:
            s.fail_next -= 1
            if self.persistent: self.conn = "dead"
            raise ServiceException("transport error completing service call")
        resp = copy.deepcopy(s.handler(req))
        if W.hook_latency and W.in_shutdown and not W.shutdown and not W.thread: W.advance(W.hook_latency())
        if W.shutdown: raise ServiceException("service [%s] returned no response" % self.resolved_name)
        return resp

def wait_for_service(service, timeout=None):
    if isinstance(timeout, Duration): timeout = timeout.to_sec()
    if timeout == 0.: raise ValueError("timeout must be non-zero")
    name = resolve(service); end = None if timeout is None else W.now + timeout
    W.step("wait")
    while not W.shutdown and (end is None or W.now < end):
        s = W.services.get(name)
        if s is not None and s.reachable: return
        n = W.next_event()
        if n is None and end is None: W.signal(); W.step("wait"); continue
        W.advance(0.3 if n is not None and n <= W.now + 0.3 else max(0.3, min(x for x in (n, end) if x is not None) - W.now)); W.step("wait")
    if W.shutdown: raise ROSInterruptException("rospy shutdown")
    if W.next_event() is None:        # nothing will ever happen again: after a while the user gives up
        W.dull = getattr(W, "dull", 0) + 1
        if W.dull > 50: W.signal()
    raise ROSException("timeout exceeded while waiting for service %s" % name)

class Duration(object):
    def __init__(self, secs=0, nsecs=0): self.v = float(secs) + nsecs * 1e-9; self.secs = int(self.v); self.nsecs = int((self.v - self.secs) * 1e9)
    @classmethod
    def from_sec(cls, s): return cls(s)
    def to_sec(self): return self.v
    def to_nsec(self): return int(self.v * 1e9)
    def is_zero(self): return self.v == 0
    def _o(self, o): return o.v if hasattr(o, "v") else o
    def __eq__(self, o): return self.v == self._o(o)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.v < self._o(o)
    def __le__(self, o): return self.v <= self._o(o)
    def __gt__(self, o): return self.v > self._o(o)
    def __ge__(self, o): return self.v >= self._o(o)
    def __add__(self, o): return type(self)(self.v + self._o(o))
    def __sub__(self, o): return Duration(self.v - self._o(o))
    def __hash__(self): return hash(self.v)
    def __bool__(self): return self.v != 0
class Time(Duration):
    @classmethod
    def now(cls): return get_rostime()
def get_rostime():
    if not W.init_done: raise ROSInitException("time is not initialized. Have you called init_node()?")
    W.step("time")
    if W.sim_time: return Time(W.clock() if W.clock else 0)
    return Time(W.now)
def get_time(): return get_rostime().to_sec()
class Rate(object):
    def __init__(self, hz, reset=False): self.p = 1.0 / hz; self.last = W.now
    def sleep(self):
        if W.shutdown: raise ROSInterruptException("ROS shutdown request")
        W.sleep(max(0.0, min(self.p, self.last + self.p - W.now))); self.last = W.now
        if W.shutdown: raise ROSInterruptException("ROS shutdown request")
    def remaining(self): return Duration(self.last + self.p - W.now)
def rsleep(d):
    W.sleep(d.to_sec() if isinstance(d, Duration) else d)
    if W.shutdown: raise ROSInterruptException("ROS shutdown request")
class Timer(object):
    def __init__(self, period, callback, oneshot=False, reset=False):
        self.p, self.cb, self.oneshot, self.on = period.to_sec(), callback, oneshot, True; W.timers.append(self); W.at(W.now + self.p, self.fire)
    def fire(self):
        if not self.on or W.shutdown: return
        W.thread += 1          # timers have their own thread: signals are not handled there
        try: self.cb(types.SimpleNamespace(current_real=Time(W.now), last_real=None, current_expected=None, last_expected=None, last_duration=None))
        except Stuck: raise
        except Exception as e: W.thread_errors.append(e); self.on = False; return
        finally: W.thread -= 1
        if self.oneshot: self.on = False
        elif self.on: W.at(W.now + self.p, self.fire)
    def shutdown(self): self.on = False
    def join(self, t=None): pass
    def is_alive(self): return self.on
    def run(self): pass
class Subscriber(object):
    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.resolved_name = self.name = resolve(name); self.data_class, self.cb, self.args, self.alive = data_class, callback, callback_args, True
        W.subs.append(self); W.log.append(("subscribe", self.resolved_name))
        if self.resolved_name in W.latched:
            m = W.latched[self.resolved_name]; W.at(W.now, lambda: self.alive and self.deliver(m))
    def deliver(self, m):
        m = copy.deepcopy(m); W.log.append(("heard", self.resolved_name, getattr(m, "data", None)))
        W.thread += 1
        try:
            if self.cb: self.cb(m, self.args) if self.args is not None else self.cb(m)
        finally: W.thread -= 1
    def unregister(self): self.alive = False
    def get_num_connections(self): return 1
class Publisher(object):
    def __init__(self, *a, **k): pass
    def publish(self, *a, **k): pass
    def unregister(self): pass
    def get_num_connections(self): return 0
def wait_for_message(topic, topic_type, timeout=None):
    got = []; s = Subscriber(topic, topic_type, got.append); end = None if timeout is None else W.now + timeout
    while not got:
        if W.shutdown: raise ROSInterruptException("rospy shutdown")
        if end is not None and W.now >= end: raise ROSException("timeout exceeded while waiting for message on topic %s" % topic)
        W.idle(end)
    s.unregister(); return got[0]

_none = object()
def get_param(name, default=_none):
    W.step("param")
    try: return W.get_param(resolve(name))
    except KeyError:
        if default is not _none: return default
        raise
def has_param(name):
    try: W.get_param(resolve(name)); return True
    except KeyError: return False
def logfn(msg="", *a, **k): W.step("log")
def throttled(period, msg="", *a, **k): W.step("log")
def init_node(name, argv=None, anonymous=False, log_level=None, disable_rostime=False, disable_rosout=False, disable_signals=False, xmlrpc_port=0, tcpros_port=0):
    if W.init_done: raise ROSException("init_node has already been called")
    W.init_done = True; W.anonymous = anonymous; W.node_name = name + ("_1_1" if anonymous else ""); W.step("init")
def myargv(argv=None): return [a for a in (sys.argv if argv is None else argv) if ":=" not in a]
def on_shutdown(h):
    if not callable(h): raise TypeError("shutdown hook [%s] must be a function" % h)
    if W.shutdown: h()
    else: W.hooks.append(h)
def signal_shutdown(reason): W.do_shutdown()
def spin():
    if not W.init_done: raise ROSInitException("client code must call rospy.init_node() first")
    while not W.shutdown: W.idle()
def is_shutdown():
    if W.shutdown or not W.in_shutdown: W.poll(1e-4, "is_shutdown")
    return W.shutdown

def mod(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); return m

class Strict(types.ModuleType):
    """a module whose unknown names mean the stand-in is incomplete, not that the tool is wrong"""
    def __getattr__(self, k):
        if k.startswith("__"): raise AttributeError(k)
        raise HarnessError("stand-in %s has no %s" % (self.__name__, k))
def strict(name, **kw):
    m = Strict(name); m.__dict__.update(kw); return m

def rospy_module():
    names = dict(ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSInitException, ROSSerializationException=ROSSerializationException,
                 ROSInternalException=ROSInternalException, ROSTimeMovedBackwardsException=ROSTimeMovedBackwardsException, TransportException=TransportException)
    exc = mod("rospy.exceptions", **names)
    svc = mod("rospy.service", ServiceException=ServiceException)
    core = strict("rospy.core", is_shutdown=is_shutdown, is_shutdown_requested=lambda: W.in_shutdown, signal_shutdown=signal_shutdown, is_initialized=lambda: W.init_done)
    nm = strict("rospy.names", resolve_name=lambda n, caller_id=None: resolve(n), get_namespace=lambda: global_ns(W.node_ns), get_name=lambda: W.node_ns.rstrip("/") + "/" + W.node_name, get_caller_id=lambda: W.node_ns.rstrip("/") + "/" + W.node_name)
    rt = strict("rospy.rostime", wallsleep=lambda s: W.sleep(s), get_rostime=get_rostime, get_time=get_time, Time=Time, Duration=Duration, is_rostime_initialized=lambda: W.init_done, is_wallclock=lambda: not W.sim_time)
    tm = strict("rospy.timer", Rate=Rate, sleep=rsleep, Timer=Timer)
    m = strict("rospy", rostime=rt, timer=tm, exceptions=exc, service=svc, core=core, names=nm, ServiceException=ServiceException, ServiceProxy=ServiceProxy, wait_for_service=wait_for_service,
               Duration=Duration, Time=Time, get_rostime=get_rostime, get_time=get_time, Rate=Rate, sleep=rsleep, Timer=Timer, Subscriber=Subscriber, Publisher=Publisher, wait_for_message=wait_for_message,
               get_param=get_param, has_param=has_param, set_param=lambda n, v: W.set_param(resolve(n), v), delete_param=lambda n: W.del_param(resolve(n)), get_param_names=lambda: W.leaves(),
               init_node=init_node, myargv=myargv, on_shutdown=on_shutdown, signal_shutdown=signal_shutdown, spin=spin, is_shutdown=is_shutdown, resolve_name=lambda n, caller_id=None: resolve(n),
               get_namespace=nm.get_namespace, get_name=nm.get_name, get_caller_id=nm.get_caller_id, get_node_uri=lambda: "http://localhost:1/", DEBUG=1, INFO=2, WARN=4, ERROR=8, FATAL=16, __path__=[])
    for k in ("ROSException", "ROSInterruptException", "ROSInitException", "ROSSerializationException", "ROSInternalException"): setattr(m, k, names[k])
    for l in ("debug", "info", "warn", "err", "fatal", "warning", "error", "critical", "out"): 
        setattr(m, "log" + l, logfn); setattr(m, "log%s_once" % l, logfn); setattr(m, "log%s_throttle" % l, throttled); setattr(m, "log%s_throttle_identical" % l, throttled)
    return m

# ------------------------------------------------------------------------------------------------ rosservice, rosparam
def get_service_list(node=None, namespace=None, include_nodes=False):
    W.step("master", signals=False); W.master_calls += 1
    if not W.master_ok: raise ROSServiceIOException("Unable to communicate with master!")
    r = sorted(W.services) if not getattr(W, "shuffle", None) else W.shuffle(list(W.services))
    if namespace:
        g = global_ns(namespace); r = [x for x in r if x == namespace or x.startswith(g)]
    return [(x, ["/node"]) for x in r] if include_nodes else r
def get_service_type(name):
    W.step("master", signals=False); W.master_calls += 1
    if not W.master_ok: raise ROSServiceIOException("Unable to communicate with master!")
    s = W.services.get(name)
    if s is None: return None
    if not s.reachable: raise ROSServiceIOException("Unable to communicate with service [%s]" % name)
    return s.typ
def rp_set_raw(param, v):
    if isinstance(v, dict):
        for k, x in v.items():
            if not isinstance(k, str): raise RosParamException("YAML dictionaries must have string keys. Invalid dictionary is:\n%s" % v)
            rp_set_raw(k if k[:1] == "/" or not param else param.rstrip("/") + "/" + k, x)
    else:
        if v is None: raise RosParamException("None values are not supported")
        W.set_param(canonical(param if param[:1] == "/" else "/" + param), v)
def rp_set(param, value, verbose=False): rp_set_raw(param, yaml.safe_load(value))
def rp_list(ns):
    g = global_ns(ns); return sorted(n for n in W.leaves() if n.startswith(g))
def rp_get(param): return W.get_param(canonical(param if param[:1] == "/" else "/" + param))
def rp_upload(ns, values, verbose=False):
    if ns == "/" or not ns: rp_set_raw("", values)
    else: rp_set_raw(ns, values)
def rp_load_file(filename, default_namespace=None, verbose=False):
    if not os.path.isfile(filename): raise RosParamException("file [%s] does not exist" % filename)
    return [(d, canonical("/" + (default_namespace or "/"))) for d in yaml.safe_load_all(open(filename))]

def time_module():
    m = types.ModuleType("time")
    for k in dir(real_time): 
        if not k.startswith("__"): setattr(m, k, getattr(real_time, k))
    m.time = m.monotonic = m.perf_counter = lambda: W.now
    m.sleep = lambda s: W.sleep(s)
    return m

def std_msgs_module(msg_base):
    ns = {}
    def mk(n, default):
        c = type(n, (msg_base,), {"__slots__": ["data"], "_types": {"data": "x"}, "_defaults": lambda self, d=default: {"data": d}, "_type": "std_msgs/" + n}); ns[n] = c
    for n, d in (("Bool", False), ("String", ""), ("Int32", 0), ("Float64", 0.0), ("UInt8", 0), ("Int8", 0), ("Int16", 0), ("Int64", 0), ("Float32", 0.0), ("Empty_", None)): mk(n, d)
    ns["__all__"] = [k for k in ns]
    m = mod("std_msgs.msg", **ns); return mod("std_msgs", msg=m, __path__=[]), m

# ------------------------------------------------------------------------------------------------ model manager
class Manager(object):
    """controller manager as its clients see it; records every request that could change something"""
    def __init__(self, ns, msgs, can_load=None, rng=None):
        self.ns, self.M, self.ctrl, self.can_load, self.calls, self.refuse, self.rng = ns, msgs, {}, can_load, [], lambda op, names: False, rng
        self.types, self.claims, self.up, self.odd, self.all, self.on_call, self.type_list, self.refused_switches = {}, {}, [], "stopped", [], None, [], 0
    NAMES = (("list_controllers", "ListControllers"), ("list_controller_types", "ListControllerTypes"), ("load_controller", "LoadController"),
             ("unload_controller", "UnloadController"), ("switch_controller", "SwitchController"), ("reload_controller_libraries", "ReloadControllerLibraries"))
    def path(self, s): return canonical(self.ns + "/" + s)
    def start(self, only=None):
        for n, t in self.NAMES:
            if only is None or n in only: self.up.append(n); W.add_service(self.path(n), "controller_manager_msgs/" + t, getattr(self, "h_" + n))
    def stop(self):
        for n, t in self.NAMES: W.drop_service(self.path(n))
        self.up = []
    def note(self, op, *a):
        e = (op,) + a; self.all.append((W.now, W.in_shutdown, e)); W.log.append((self.ns, op) + a)
        if op != "list" and op != "types": self.calls.append(e)
        if self.on_call: self.on_call(e)
    def state(self, name): return self.ctrl.get(name)
    def h_list_controllers(self, r):
        self.note("list"); M = self.M
        resp = M.ListControllersResponse(); resp.controller = [M.ControllerState(name=n, state=s, type=self.types.get(n, "pkg/Type"), claimed_resources=copy.deepcopy(self.claims.get(n, []))) for n, s in self.ctrl.items()]
        return resp
    def h_list_controller_types(self, r):
        self.note("types"); resp = self.M.ListControllerTypesResponse(); resp.types = [t for t, b in self.type_list]; resp.base_classes = [b for t, b in self.type_list]; return resp
    def h_load_controller(self, r):
        ok = r.name not in self.ctrl and not self.refuse("load", [r.name]) and (self.can_load is None or r.name in self.can_load)
        if ok: self.ctrl[r.name] = self.odd
        self.note("load", r.name, ok); return self.M.LoadControllerResponse(ok=ok)
    def h_unload_controller(self, r):
        ok = r.name in self.ctrl and self.ctrl[r.name] != "running" and not self.refuse("unload", [r.name])
        if ok: del self.ctrl[r.name]
        self.note("unload", r.name, ok); return self.M.UnloadControllerResponse(ok=ok)
    def h_switch_controller(self, r):
        strict = r.strictness == 2; start, stop, ok = list(r.start_controllers), list(r.stop_controllers), True
        for n in stop:
            if n not in self.ctrl or self.ctrl[n] != "running": ok = ok and not strict
        for n in start:
            if n not in self.ctrl or (self.ctrl[n] == "running" and n not in stop): ok = ok and not strict
        if ok and self.refuse("switch", start + stop): ok = False; self.refused_switches += 1
        if ok:
            for n in stop:
                if self.ctrl.get(n) == "running": self.ctrl[n] = "stopped"
            for n in start:
                if n in self.ctrl: self.ctrl[n] = "running"
        self.note("switch", tuple(start), tuple(stop), r.strictness, ok, r.start_asap, r.timeout); return self.M.SwitchControllerResponse(ok=ok)
    def h_reload_controller_libraries(self, r):
        ok = (bool(r.force_kill) or not self.ctrl) and not self.refuse("reload", [])
        if ok: self.ctrl.clear()
        self.note("reload", bool(r.force_kill), ok); return self.M.ReloadControllerLibrariesResponse(ok=ok)
