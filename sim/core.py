"""Simulator core: the random seam, the simulated process, violations, run context.

Everything a run does is a function of its scenario (a Python literal) and the code under test.
"""
import collections
import hashlib
import importlib
import random as _random
import sys
import traceback

REPO = '/repo'
PKG = 'concept_formation'
MODULES = ('utils', 'continuous_value', 'cobweb', 'cobweb3', 'preprocessor', 'structure_mapper',
           'trestle', 'dummy', 'cluster', 'evaluation', 'datasets', 'visualize')

# the harness's own generator class: never the patched module functions
Rng = _random.Random


class Violation(Exception):
    """The property is broken. `kind` is the violation class kept fixed while minimising."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class SimStall(BaseException):
    """An operation exceeded its step budget."""


class SimInterrupt(KeyboardInterrupt):
    """Injected asynchronous interrupt."""


class SimMemoryError(MemoryError):
    """Injected allocation failure."""


class SimCrash(BaseException):
    """Injected process death."""


# --------------------------------------------------------------------------- random seam
class Stream(object):
    """One source of draws. kind: prng | low | high | mix."""

    def __init__(self, seed, kind='prng', cap=400000):
        self.rng = Rng(seed)
        self.kind = kind
        self.k = 0
        self.draws = 0
        self.extreme = 0
        self.cap = cap

    def _tick(self):
        self.draws += 1
        if self.draws > self.cap:
            raise SimStall('more than %d random draws in one operation' % self.cap)

    def random(self):
        self._tick()
        kind = self.kind
        if self.draws % 32 >= 24:    # rejection loops (normalvariate) must be able to end
            kind = 'prng'
        if kind == 'mix':
            u = self.rng.random()
            kind = 'low' if u < .25 else 'high' if u < .5 else 'prng'
        if kind == 'low':            # smallest values random() can return, all distinct
            self.k += 1
            self.extreme += 1
            return (self.k - 1) * 2.0 ** -53
        if kind == 'high':           # largest ones
            self.k += 1
            self.extreme += 1
            return 1.0 - self.k * 2.0 ** -53
        return self.rng.random()

    def getrandbits(self, k):
        self._tick()
        return self.rng.getrandbits(k)


class SimRandom(_random.Random):
    """Stands in for the hidden global generator of the random module."""

    def __init__(self):
        self.stream = Stream(0)
        _random.Random.__init__(self, 0)

    def use(self, stream):
        self.stream = stream
        self.gauss_next = None
        return stream

    def random(self):
        return self.stream.random()

    def getrandbits(self, k):
        return self.stream.getrandbits(k)

    def seed(self, a=None, version=2):
        if 'stream' in self.__dict__ and a is not None:
            self.stream.rng.seed(a, version) if isinstance(a, (int, float, str, bytes)) else None

    def getstate(self):
        return self.stream.rng.getstate()

    def setstate(self, s):
        self.stream.rng.setstate(s)


SIM = None


def install_random():
    """Route every module-level function of `random` through the simulator (before importing the library)."""
    global SIM
    if SIM is not None:
        return SIM
    SIM = SimRandom()
    for name in dir(_random):
        cur = getattr(_random, name)
        if getattr(cur, '__self__', None) is _random._inst and hasattr(SIM, name):
            setattr(_random, name, getattr(SIM, name))
    _random._inst = SIM
    return SIM


def stream_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


# --------------------------------------------------------------------------- simulated process
class Lib(object):
    """One simulated process: a fresh import of the library from /repo's working tree."""

    def __init__(self, mods):
        self.__dict__.update(mods)
        self.cv_key = self.cobweb3.cv_key

    def make(self, cfg):
        t = cfg['type']
        if t == 'cobweb':
            return self.cobweb.CobwebTree()
        if t == 'dummy':
            return self.dummy.DummyTree()
        cls = self.cobweb3.Cobweb3Tree if t == 'cobweb3' else self.trestle.TrestleTree
        kw = {}
        if 'scaling' in cfg:
            kw['scaling'] = cfg['scaling']
        if 'inner' in cfg:
            kw['inner_attr_scaling'] = cfg['inner']
        return cls(**kw)


def boot():
    """Start a (new) simulated process: forget the library's modules and import them again."""
    install_random()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[m]
    mods = {m: importlib.import_module(PKG + '.' + m) for m in MODULES}
    f = mods['cobweb'].__file__
    if not f.startswith(REPO + '/'):
        raise RuntimeError('library imported from %s, not from %s' % (f, REPO))
    return Lib(mods)


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = boot()
    return _LIB


def new_process():
    """Every run starts in a fresh simulated process."""
    global _LIB
    _LIB = boot()
    return _LIB


def use_lib(L):
    """Make L the current process image again (pickle looks classes up by name)."""
    for m in MODULES:
        sys.modules[PKG + '.' + m] = getattr(L, m)


def in_library(exc):
    """Did this exception come out of library code (as opposed to harness code only)?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def exc_text(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])


# --------------------------------------------------------------------------- run context
class Ctx(object):
    """Statistics of the runs of one worker."""

    def __init__(self):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.interleavings = set()
        self.steps = 0
        self.trace = []
        self.log_on = False

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, obj):
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def interleaving(self, obj):
        self.interleavings.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def log(self, *a):
        if self.log_on:
            self.trace.append(repr(a))


def op_stream(seed, i, kind='prng', cap=400000):
    """Draws of operation i of the run: independent of how many draws other operations made."""
    return SIM.use(Stream(stream_seed(seed, i), kind, cap))


def guarded(fn, *a, **kw):
    """Call library code that must succeed: any exception it raises is a violation, a stall too."""
    try:
        return fn(*a, **kw)
    except SimStall as e:
        raise Violation('stall', 'operation does not terminate: %s' % e)
    except RecursionError as e:
        raise Violation('exception', exc_text(e))
    except (Violation, SimCrash):
        raise
    except Exception as e:
        raise Violation('exception', exc_text(e) + ' @ ' + where(e))


def where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + '/')]
    if not fr:
        return '?'
    return '%s:%s' % (fr[-1].filename[len(REPO) + 1:], fr[-1].name)


def brief(values, defaults):
    """The options of a call as clients write it: half of the calls leave out trailing options that have their
    documented default. Which half depends on the values only, so that a replay makes the same call."""
    values = list(values)
    if len(repr(values[0])) % 2:
        n = len(values)
        while n > len(values) - len(defaults) and values[n - 1] == defaults[n - 1 - len(values)]:
            n -= 1
        values = values[:n]
    return values
