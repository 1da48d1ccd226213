"""Core types: violations, crash, coverage and per-run context."""
import hashlib
import os
import random
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold in this execution."""
    def __init__(self, kind, msg=''):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class SimCrash(BaseException):
    """The simulated process was killed.  Not an Exception on purpose: code under
    test that catches Exception does not see it."""


def check(cond, kind, msg=''):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def in_repo(exc):
    """True when some frame of the traceback belongs to the code under test."""
    root = REPO + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(root):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def where_in_repo(exc):
    root = REPO + os.sep
    last = None
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            last = '%s:%s' % (fn[len(root):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last


class Ctx(object):
    """Everything one simulated execution records."""

    def __init__(self, plan):
        self.plan = plan
        self.h = hashlib.sha256()
        self.count = {}        # reach probes, faults fired
        self.shape = []        # coarse behaviour signature (state measure)
        self.simtime = 0.0
        self.steps = 0
        self.keep_log = False
        self.log = []

    def ev(self, *what):
        """Records an event of the execution (part of the determinism digest)."""
        s = repr(what)
        self.h.update(s.encode('utf-8', 'backslashreplace'))
        self.steps += 1
        if self.keep_log:
            self.log.append(s[:400])

    def probe(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def fault(self, name, n=1):
        self.probe('fault:' + name, n)

    def state(self, *what):
        self.shape.append(what)

    def digest(self):
        return self.h.hexdigest()[:24]

    def state_digest(self):
        return hashlib.sha1(repr(self.shape).encode()).hexdigest()[:16]


def rng_for(*parts):
    return random.Random(':'.join(str(p) for p in parts))


def guard(fn, *args, **kw):
    """Calls code under test; an exception with a frame in the repository is turned
    into a Violation (used where the reference model says the call must succeed)."""
    try:
        return fn(*args, **kw)
    except (Violation, HarnessError, StopIteration):
        raise
    except Exception as e:
        if in_repo(e):
            raise Violation('unexpected-exception', '%s: %s at %s' % (
                type(e).__name__, str(e)[:300], where_in_repo(e)))
        raise


def attempt(fn, *args, **kw):
    """Calls code under test where an error is a legal answer.
    Returns (value, None) or (None, exception)."""
    try:
        return fn(*args, **kw), None
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return None, e
