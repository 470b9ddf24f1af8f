"""Vocabulary shared by the property modules and the runner."""
import contextlib
import json
import os
import shutil
import tempfile


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(BaseException):
    """The machinery itself failed; never reported as a violation."""


class CaseTimeout(BaseException):
    """A case burnt an absurd amount of CPU time."""


@contextlib.contextmanager
def harness():
    """Wrap the code that builds inputs: an exception here is our own fault."""
    try:
        yield
    except Exception as exc:
        import traceback
        raise HarnessError(traceback.format_exc()) from exc


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*[short(a) for a in args]) if args else msg)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...<%d chars>' % len(s)


class Cov(object):
    """Counters of one worker, written in the evidence."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.tags = {}
        self.samples = []

    def tag(self, *names):
        for name in names:
            self.tags[name] = self.tags.get(name, 0) + 1

    def tagif(self, cond, name):
        if cond:
            self.tag(name)


class Sub(object):
    """A generator with its oracle.

    check(case, cov) raises Violation (any other exception is a violation too,
    unless raised below `with harness()`), and returns True when the case is
    non-trivial by the stated rule.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, rule=''):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule


def raises(exctypes, func, what):
    """func() must raise one of exctypes; returns the exception."""
    try:
        res = func()
    except exctypes as exc:
        return exc
    except Exception as exc:
        raise Violation('%s: expected %r, got %r' % (what, exctypes, exc))
    raise Violation('%s: expected %r, got the result %s'
                    % (what, exctypes, short(res)))


class Scratch(object):
    """A scratch directory of this process, emptied between cases."""
    root = None
    tag = '%d.' % os.getpid()     # of the runner: set before its workers fork

    @classmethod
    def open(cls):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        cls.root = tempfile.mkdtemp(prefix='vpchk.' + cls.tag, dir=base)
        return cls.root

    @classmethod
    def path(cls, name):
        return os.path.join(cls.root, name)

    @classmethod
    def write(cls, name, blob):
        p = cls.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fo:
            fo.write(blob)
        return p

    @classmethod
    def clear(cls):
        for n in os.listdir(cls.root):
            p = os.path.join(cls.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    @classmethod
    def close(cls):
        if cls.root:
            shutil.rmtree(cls.root, ignore_errors=True)
            cls.root = None


def dumps(case):
    return json.dumps(case, sort_keys=True)
