"""A deterministic, in-process stand-in for Ray, so that the harness owns the schedule.

Installed over the attributes of the real `ray` module before rxn_network is imported.  It keeps what matters of Ray's
semantics to the code under test:
  * objects put into the store and task arguments/results are isolated copies (cloudpickle, protocol 5 with out-of-band
    buffers, so NumPy arrays come back read-only, as they do from Ray's object store);
  * top-level ObjectRef arguments of a task are resolved, nested ones are not;
  * tasks run at any time between submission and the wait/get that needs them, in any order, and `wait` may report any
    ready task first: both orders are taken from a schedule (a list of integers) chosen by the generator.
"""
from __future__ import annotations

import cloudpickle
import ray


class TaskError(Exception):
    pass


class FakeRef:
    _n = 0

    def __init__(self, store_id):
        self.id = store_id

    def __eq__(self, o):
        return isinstance(o, FakeRef) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def hex(self):
        return f"{self.id:08x}"


class State:
    def __init__(self):
        self.reset()

    def reset(self, schedule=(), cpus=4, memory=8 * 2**30):
        self.schedule = list(schedule)
        self.pos = 0
        self.store = {}
        self.pending = {}
        self.next = 0
        self.cpus = cpus
        self.memory = memory
        self.initialized = False
        self.n_tasks = 0
        self.reordered = 0

    def choose(self, n):
        if n <= 1 or not self.schedule:
            return 0
        v = self.schedule[self.pos % len(self.schedule)] % n
        self.pos += 1
        return v

    def new_id(self):
        self.next += 1
        return self.next


S = State()


def _pack(obj):
    bufs = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
    return data, [b.raw().tobytes() for b in bufs]


def _unpack(p):
    return cloudpickle.loads(p[0], buffers=p[1])


def put(obj, **_):
    i = S.new_id()
    S.store[i] = ("ok", _pack(obj))
    return FakeRef(i)


def _run(i):
    fn, packed = S.pending.pop(i)
    args, kwargs = _unpack(packed)
    args = [get(a) if isinstance(a, FakeRef) else a for a in args]
    kwargs = {k: get(a) if isinstance(a, FakeRef) else a for k, a in kwargs.items()}
    try:
        S.store[i] = ("ok", _pack(fn(*args, **kwargs)))
    except Exception as e:  # noqa: BLE001
        S.store[i] = ("err", e)


def get(ref, timeout=None, **_):
    if isinstance(ref, (list, tuple)):
        return [get(r) for r in ref]
    if not isinstance(ref, FakeRef):
        raise ValueError(f"Invalid type of object refs, {type(ref)}, is given.")
    if ref.id in S.pending:
        _run(ref.id)
    st, v = S.store[ref.id]
    if st == "err":
        raise v
    return _unpack(v)


def wait(refs, num_returns=1, timeout=None, fetch_local=True, **_):
    refs = list(refs)
    if len(set(refs)) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of objects provided to ray.wait.")
    if not refs:
        raise ValueError("wait() called with no refs")
    done = []
    rest = list(refs)
    while len(done) < num_returns:
        k = S.choose(len(rest))
        if k:
            S.reordered += 1
        r = rest.pop(k)
        if r.id in S.pending:
            _run(r.id)
        done.append(r)
    return done, rest


class RemoteFunction:
    def __init__(self, fn):
        self._function = fn
        self.__name__ = getattr(fn, "__name__", "remote")
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.__wrapped__ = fn

    def remote(self, *args, **kwargs):
        i = S.new_id()
        S.n_tasks += 1
        S.pending[i] = (self._function, _pack((args, kwargs)))
        if S.schedule and S.choose(4) == 3:  # a worker may run it right away
            _run(i)
        return FakeRef(i)

    def options(self, **_):
        return self

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly. Instead of running f(), try f.remote().")

    def __reduce__(self):
        return (_lookup, (self.__module__, self.__name__))


def _lookup(mod, name):
    import importlib

    return getattr(importlib.import_module(mod), name)


def remote(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return RemoteFunction(args[0])
    return lambda f: RemoteFunction(f)


def install():
    ray.remote = remote
    ray.put = put
    ray.get = get
    ray.wait = wait
    ray.ObjectRef = FakeRef
    ray.is_initialized = lambda: S.initialized

    def init(*a, **k):
        S.initialized = True

    ray.init = init

    def shutdown(*a, **k):
        S.initialized = False

    ray.shutdown = shutdown
    ray.cluster_resources = lambda: {"CPU": float(S.cpus), "memory": float(S.memory)}
    ray.available_resources = ray.cluster_resources
    ray.nodes = lambda: [{"NodeManagerHostname": "localhost", "Alive": True, "Resources": ray.cluster_resources()}]
    ray._vp_fake = True
