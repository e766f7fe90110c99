"""Seams: clock, entropy, environment, disk, process lives, step budget.

install() must run before numpy/astropy/marxs are imported, so that names taken with
'from datetime import datetime' are the simulated ones.  Outside an active World all seams are transparent.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import pickle
import random
import shutil
import struct
import sys
import time as _t

_real_open = builtins.open
_real_datetime = _dt.datetime
_real_date = _dt.date
_real = {n: getattr(_t, n) for n in ('time', 'time_ns', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
_real_os = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'urandom', 'listdir', 'scandir', 'truncate',
                                        'link', 'symlink', 'open')}
_current = None
_installed = False


class SimCrash(BaseException):
    """The simulated process died here."""


class StepLimit(BaseException):
    """The code under test executed more steps than it may."""


# ---------------------------------------------------------------- clock

class Clock:
    """Simulated wall clock.  Every reading advances it by `tick`; jumps = {reading number: seconds}."""

    def __init__(self, start=1.7e9, tick=0.001, jumps=None):
        self.t = float(start)
        self.start = float(start)
        self.tick = tick
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}
        self.n = 0
        self.readings = []
        self.elapsed = 0.0
        self.jumped = 0

    def read(self):
        if self.n in self.jumps:
            self.t += self.jumps[self.n]
            self.elapsed += abs(self.jumps[self.n])
            self.jumped += 1
        self.n += 1
        self.t += self.tick
        self.elapsed += self.tick
        self.readings.append(self.t)
        return self.t

    def advance(self, dt):
        self.t += dt
        self.elapsed += abs(dt)


def _clock():
    return _current.clock if _current is not None else None


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class SimDatetime(_real_datetime, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        c = _clock()
        if c is None:
            return _real_datetime.now(tz)
        return _real_datetime.fromtimestamp(c.read(), tz)

    @classmethod
    def utcnow(cls):
        c = _clock()
        if c is None:
            return _real_datetime.now(_dt.timezone.utc).replace(tzinfo=None)
        return _real_datetime.fromtimestamp(c.read(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class _DateMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_date)


class SimDate(_real_date, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        c = _clock()
        if c is None:
            return _real_date.today()
        return _real_date.fromtimestamp(c.read())


def _time():
    c = _clock()
    return _real['time']() if c is None else c.read()


def _time_ns():
    c = _clock()
    return _real['time_ns']() if c is None else int(c.read() * 1e9)


def _mk(name):
    f = _real[name]
    argpos = {'localtime': 0, 'gmtime': 0, 'ctime': 0}

    if name in argpos:
        def g(secs=None):
            c = _clock()
            if secs is None and c is not None:
                secs = c.read()
            return f(secs)
    elif name == 'strftime':
        def g(fmt, t=None):
            if t is None:
                t = _t.localtime()
            return f(fmt, t)
    else:
        def g(t=None):
            if t is None:
                t = _t.localtime()
            return f(t)
    g.__name__ = name
    return g


# ---------------------------------------------------------------- disk

def _inroot(path):
    w = _current
    if w is None or w.fs is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, str):
        return None
    p = os.path.abspath(p)
    root = w.fs.root
    if p == root or p.startswith(root + os.sep):
        return os.path.relpath(p, root)
    return None


class SimRaw(io.RawIOBase):
    """Unbuffered file on the simulated disk."""

    def __init__(self, fs, path, rel, mode):
        self.fs = fs
        self.rel = rel
        self.name = path
        self.mode = mode
        self.full = False
        fs.op('open', rel)
        if not fs.dead:
            self.f = io.FileIO(path, mode.replace('b', '').replace('t', ''))
        else:
            self.f = None

    def readable(self):
        return self.f is not None and self.f.readable()

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.fs.dead:
            return len(b)
        if self.full:
            # the write after a short one meets the full disk
            self.full = False
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.name)
        fault = self.fs.op('write', self.rel, len(b))
        if fault is None:
            left = b
            while left:
                n = self.f.write(left)
                left = left[n:]
            return len(b)
        kind = fault['kind']
        part = int(len(b) * fault.get('frac', 0.5))
        if kind == 'ENOSPC' and part:
            # like write(2): a short count first
            self.full = True
            return self.f.write(b[:part])
        if kind == 'torn':
            self.f.write(b[:part])
        if kind in ('torn', 'crash'):
            self.fs.crash()
        raise OSError(errno.ENOSPC if kind == 'ENOSPC' else errno.EIO, os.strerror(
            errno.ENOSPC if kind == 'ENOSPC' else errno.EIO), self.name)

    def readinto(self, b):
        return self.f.readinto(b)

    def seek(self, *a):
        return 0 if self.f is None else self.f.seek(*a)

    def tell(self):
        return 0 if self.f is None else self.f.tell()

    def truncate(self, size=None):
        if self.f is None:
            return 0
        return self.f.truncate(size)

    def flush(self):
        pass

    def close(self):
        if self.closed:
            return
        f = self.f
        try:
            super().close()
        finally:
            if f is not None:
                f.close()
        if not self.fs.dead:
            self.fs.op('close', self.rel)


class FaultFS:
    """Simulated disk below `root`.  faults: list of {'op','n','kind'[,'frac']}: the n-th operation of that
    type (op '*' counts all) suffers `kind`: EIO, ENOSPC, EACCES (call fails), torn (prefix written, crash), crash.
    `quota`: bytes that can still be written before the disk is full."""

    def __init__(self, root, faults=(), quota=None, obs=None):
        self.root = os.path.abspath(root)
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.total = 0
        self.dead = False
        self.ops = []
        self.fired = []
        self.quota = quota
        self.enabled = True

    def crash(self):
        self.dead = True
        raise SimCrash()

    def op(self, op, rel, size=0):
        if self.dead:
            if op in ('open_r',):
                raise SimCrash()
            return None
        if not self.enabled:
            return None
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        tot = self.total
        self.total += 1
        self.ops.append((op, rel, size))
        fault = None
        for f in self.faults:
            if (f['op'] == op and f['n'] == n) or (f['op'] == '*' and f['n'] == tot) or \
                    (f['op'] == op + ':' + rel):
                fault = f
        if fault is None and op == 'write' and self.quota is not None:
            if size > self.quota:
                fault = {'kind': 'ENOSPC', 'frac': self.quota / max(size, 1)}
                self.quota = 0
            else:
                self.quota -= size
        if fault is None:
            return None
        self.fired.append((op, fault['kind'], rel))
        if op == 'write':
            return fault
        kind = fault['kind']
        if kind in ('crash', 'torn'):
            self.crash()
        e = {'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES}.get(kind, errno.EIO)
        raise OSError(e, os.strerror(e), rel)


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rel = _inroot(file) if not isinstance(file, int) else None
    if rel is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs = _current.fs
    writing = any(c in mode for c in 'wax+')
    if not writing:
        fs.op('open_r', rel)
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw = SimRaw(fs, os.path.abspath(os.fspath(file)), rel, mode)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw)
    else:
        buf = io.BufferedWriter(raw)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))


def _wrap_os(name):
    f = _real_os[name]

    def g(path, *a, **kw):
        rel = _inroot(path) if not isinstance(path, int) else None
        if rel is not None:
            fs = _current.fs
            if fs.dead:
                return None
            fs.op('remove' if name in ('remove', 'unlink') else 'rename' if name in ('rename', 'replace') else name, rel)
        return f(path, *a, **kw)
    g.__name__ = name
    return g


# ---------------------------------------------------------------- entropy

class Entropy:
    def __init__(self, seed):
        self.r = random.Random('entropy/%s' % (seed,))
        self.used = 0

    def urandom(self, n):
        self.used += 1
        return self.r.randbytes(n)


def _sim_urandom(n):
    w = _current
    if w is None or w.entropy is None:
        return _real_os['urandom'](n)
    return w.entropy.urandom(n)


# ---------------------------------------------------------------- order of directory listings

def _listing(path, names):
    """The simulator decides the order in which a directory of the simulated disk is listed; None = not a simulated directory."""
    w = _current
    if w is None or not isinstance(path, (str, os.PathLike)):
        return None
    p = os.path.abspath(os.fspath(path))
    if not any(p == d or p.startswith(d + os.sep) for d in w._dirs):
        return None
    order = sorted(range(len(names)), key=lambda k: names[k])
    random.Random('listing/%s/%s' % (w.seed, [names[k] for k in order])).shuffle(order)
    return order


def _sim_listdir(path='.'):
    out = _real_os['listdir'](path)
    order = _listing(path, out)
    return out if order is None else [out[k] for k in order]


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


def _sim_scandir(path='.'):
    real = _real_os['scandir'](path)
    if _current is None or not isinstance(path, (str, os.PathLike)):
        return real
    with real:
        entries = list(real)
    order = _listing(path, [e.name for e in entries])
    return _Scan(entries if order is None else [entries[k] for k in order])


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    _t.time = _time
    _t.time_ns = _time_ns
    for n in ('localtime', 'gmtime', 'strftime', 'ctime', 'asctime'):
        setattr(_t, n, _mk(n))
    builtins.open = _sim_open
    io.open = _sim_open
    for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'truncate', 'link', 'symlink'):
        setattr(os, n, _wrap_os(n))
    os.listdir, os.scandir = _sim_listdir, _sim_scandir
    os.urandom = _sim_urandom
    random._urandom = _sim_urandom


# ---------------------------------------------------------------- world

class World:
    def __init__(self, seed, clock=None, entropy=None):
        self.seed = seed
        self.clock = clock or Clock()
        self.entropy = Entropy(entropy if entropy is not None else seed)
        self.fs = None
        self._dirs = []

    def __enter__(self):
        global _current
        import numpy as np
        _current = self
        np.random.seed(self.seed % 2**32)
        random.seed('py/%s' % self.entropy)
        os.environ['USER'] = 'simuser'
        os.environ['HOST'] = 'simhost'
        return self

    def __exit__(self, *a):
        global _current
        _current = None
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        return False

    def scratch(self):
        base = os.environ.get('SIM_SCRATCH', '/tmp')
        d = os.path.join(base, 'marxs-sim-%010d-%02d' % (os.getpid(), len(self._dirs)))
        fs, self.fs = self.fs, None
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.fs = fs
        self._dirs.append(d)
        return d


def current():
    return _current


def set_entropy(seed):
    """Another operating-system entropy stream (also re-seeds python's own random module from it)."""
    _current.entropy = Entropy(seed)
    random.seed('py/%s' % seed)


def life(func, timeout=100):
    """One process life: run func() in a forked child.  Returns (status, value): ('ok', value),
    ('crash', None) or raises.  Only what is on disk survives a crash."""
    from sim import core
    w = _current
    mine = len(w._dirs)

    def body():
        try:
            val = ('ok', func())
        except SimCrash:
            val = ('crash', None)
        except BaseException as e:  # noqa
            res = core.classify(e)
            val = ('exc', res)
        fs = w.fs
        w.fs = None
        extra = None
        if fs is not None:
            extra = (fs.counts, fs.total, fs.fired, fs.ops, fs.quota)
        for d in w._dirs[mine:]:
            shutil.rmtree(d, ignore_errors=True)
        import base64
        return {'status': 'life', 'b': base64.b64encode(pickle.dumps((val, extra))).decode()}

    r = core.forked(body, timeout)
    if r['status'] != 'life':
        raise core.HarnessError('simulated process: ' + str(r.get('msg')))
    import base64
    val, extra = pickle.loads(base64.b64decode(r['b']))
    if extra is not None and w.fs is not None:
        w.fs.counts, w.fs.total, w.fs.fired, w.fs.ops, w.fs.quota = extra
    if val[0] == 'exc':
        res = val[1]
        if res['status'] == 'violation':
            raise core.Violation(res['kind'], res['msg'], res['key'])
        raise core.HarnessError(res['msg'])
    return val


# ---------------------------------------------------------------- random generator streams

def untemper(y):
    """Inverse of the MT19937 output function."""
    y &= 0xffffffff
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def force_draws(spec):
    """Overwrite upcoming outputs of the global generator: spec = list of [k, value]; the k-th double drawn from
    now on (k < 300) is `value` (0 <= value < 1, a legal output of the generator).  The rest stays pseudo-random."""
    import numpy as np
    st = list(np.random.get_state())
    key = st[1].copy()
    # start a fresh block: use the current key as the block that is about to be delivered
    pos = 0
    for k, v in spec:
        if not 0 <= k < 311:
            continue
        n = min(int(v * 2**53), 2**53 - 1)
        a, b = n >> 26, n & (2**26 - 1)
        key[pos + 2 * k] = untemper(a << 5)
        key[pos + 2 * k + 1] = untemper(b << 6)
    np.random.set_state(('MT19937', key, pos, 0, 0.0))


# ---------------------------------------------------------------- steps executed in marxs code

TOOL = 4


class Steps:
    """Counts source lines executed inside marxs (sys.monitoring) and calls hook(n) on each of them."""

    def __init__(self, limit=None, hook=None):
        self.limit = limit
        self.hook = hook
        self.n = 0

    def __enter__(self):
        from sim import core
        mon = sys.monitoring
        prefix = core.MARXS
        mon.use_tool_id(TOOL, 'marxs-sim')
        cache = {}

        def line(code, lineno):
            ok = cache.get(code.co_filename)
            if ok is None:
                ok = cache[code.co_filename] = os.path.realpath(code.co_filename).startswith(prefix)
            if not ok:
                return mon.DISABLE
            self.n += 1
            if self.limit is not None and self.n > self.limit:
                lim, self.limit = self.limit, None
                raise StepLimit(f'more than {lim} lines executed in marxs code (at {code.co_filename}:{lineno})')
            if self.hook is not None:
                self.hook(code, lineno)
            return None
        mon.register_callback(TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False
