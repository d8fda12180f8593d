"""
Bootstrap of the simulation process. Must be imported before anything that imports ``omemo``.

Puts every source of nondeterminism behind a seam the simulator owns: the event loop (virtual time), the Twisted reactor,
randomness, the wall clock and garbage collection. ``omemo`` is imported from /repo's working tree.
"""
import contextvars
import gc
import hashlib
import logging
import os
import random
import sys
import time
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

# ---------------------------------------------------------------- context of the running code
OPCTX: "contextvars.ContextVar" = contextvars.ContextVar("op", default=None)      # OpRun that (transitively) started this code
NODE: "contextvars.ContextVar" = contextvars.ContextVar("node", default=None)     # node whose clock is read


class Rt:
    """The world currently simulated in this process."""
    loop = None       # kernel.SimLoop
    world = None


RT = Rt()


# ---------------------------------------------------------------- randomness
class DetRandom:
    def __init__(self):
        self.reset(b"")

    def reset(self, seed: bytes, words=()):
        """``words``: 31 bit values to return first when four bytes are asked for, which is how device ids are drawn."""
        self.seed = seed
        self.ctr = 0
        self.words = list(words)

    def __call__(self, n: int) -> bytes:
        if n == 4 and self.words:
            return (self.words.pop(0) << 1).to_bytes(4, "big")
        out = b""
        while len(out) < n:
            out += hashlib.blake2b(self.seed + self.ctr.to_bytes(8, "big")).digest()
            self.ctr += 1
        return out[:n]


URANDOM = DetRandom()
real_urandom = os.urandom
random._urandom = URANDOM      # used by random.SystemRandom, i.e. by ``secrets``
os.urandom = URANDOM

# ---------------------------------------------------------------- wall clock
real_time = time.time
real_monotonic = time.monotonic
EPOCH = 1_600_000_000.0


def sim_time() -> float:
    if RT.loop is None:
        return real_time()
    node = NODE.get()
    return EPOCH + RT.loop.time() + (node.clock_offset if node is not None else 0.0)


time.time = sim_time
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False


# ---------------------------------------------------------------- Twisted reactor
class DelayedCall:
    def __init__(self, handle):
        self.handle = handle
        self.called = 0
        self.cancelled = 0

    def cancel(self):
        self.cancelled = 1
        self.handle.cancel()

    def active(self):
        return not (self.called or self.cancelled)

    def getTime(self):
        return self.handle.when()


class SimReactor:
    """The part of IReactorTime/IReactorCore the library could use, on the virtual time loop."""
    running = True

    def seconds(self):
        return RT.loop.time()

    def callLater(self, delay, f, *args, **kw):
        call = None

        def run():
            call.called = 1
            f(*args, **kw)
        call = DelayedCall(RT.loop.call_later(delay, run))
        return call

    def callWhenRunning(self, f, *args, **kw):
        RT.loop.call_soon(lambda: f(*args, **kw))

    def callFromThread(self, f, *args, **kw):
        RT.loop.call_soon(lambda: f(*args, **kw))

    def addSystemEventTrigger(self, *args, **kw):
        return None

    def getDelayedCalls(self):
        return []

    def __getattr__(self, name):
        raise AttributeError(f"simulated reactor has no {name}")


REACTOR = SimReactor()
try:
    import twisted.internet
    sys.modules["twisted.internet.reactor"] = REACTOR       # type: ignore
    twisted.internet.reactor = REACTOR                      # type: ignore
    from twisted.internet import defer
    from twisted.logger import globalLogBeginner
    globalLogBeginner.beginLoggingTo([lambda event: None], redirectStandardIO=False, discardBuffer=True)
    HAVE_TWISTED = True

    _real_ensure = defer.ensureDeferred

    def tracked_ensure_deferred(coro):
        # Whatever the library starts here runs "in the background": it does not belong to the current operation.
        token = OPCTX.set(None)
        try:
            d = _real_ensure(coro)
        finally:
            OPCTX.reset(token)
        if RT.world is not None:
            RT.world.track_deferred(d)
        return d

    defer.ensureDeferred = tracked_ensure_deferred
except ImportError:                                          # pragma: no cover
    HAVE_TWISTED = False
    defer = None

gc.disable()

import typing_extensions                                     # noqa: E402
import functools                                             # noqa: E402
import xeddsa.bindings                                       # noqa: E402

# pure functions that take most of the time of runs with many rotations
for _name in ("seed_to_ed25519_pub", "priv_to_ed25519_pub", "seed_to_priv"):
    setattr(xeddsa.bindings, _name, functools.lru_cache(4096)(getattr(xeddsa.bindings, _name)))

# Never use bytecode that could be stale (it is matched by mtime and size only): always compile the working tree.
sys.pycache_prefix = "/nonexistent/verif-pycache"
import omemo                                                 # noqa: E402
import omemo.storage                                         # noqa: E402
import omemo.session_manager                                 # noqa: E402

sys.pycache_prefix = None

assert os.path.realpath(omemo.__file__).startswith(os.path.realpath(REPO) + os.sep), omemo.__file__
