"""Small property-based-testing kit on top of Hypothesis.

A check module (checks/cNN.py) defines SUBS, a list of Sub.  A Sub has a strategy producing *plain data*
cases (ast.literal_eval-able), and a check function `check(case, ctx)` that builds the real inputs from the
case, runs the code under test and compares against the oracle.  All randomness is in the strategy, so a
case alone reproduces a failure, without Hypothesis (run.py --replay).
"""
import builtins
import contextlib
import io
import locale
import os
import shutil
import tempfile


class Violation(Exception):
    """The property does not hold on this case.

    `key` identifies the failure for the known-findings file.
    """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(BaseException):
    """The check itself is broken (never a violation)."""


class Skip(BaseException):
    """The case is outside the domain."""


def short(v, n=400):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else f"{s[:n]}...({len(s)} chars)"


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def eq(got, want, what, key=None):
    if not (got == want):
        raise Violation(f"{what}: got {diff_repr(got, want)}", key)


def diff_repr(got, want):
    """Describe a difference compactly"""
    if isinstance(got, dict) and isinstance(want, dict):
        out = []
        for k in want:
            if k not in got:
                out.append(f"missing {short(k, 80)}: {short(want[k], 120)}")
            elif got[k] != want[k]:
                out.append(f"at {short(k, 80)}: got {short(got[k], 150)}, want {short(want[k], 150)}")
        for k in got:
            if k not in want:
                out.append(f"extra {short(k, 80)}: {short(got[k], 120)}")
        if out:
            return "; ".join(out[:6])
    if isinstance(got, (set, frozenset)) and isinstance(want, (set, frozenset)):
        return f"missing {short(sorted(want - got, key=repr), 300)}, extra {short(sorted(got - want, key=repr), 300)}"
    if isinstance(got, list) and isinstance(want, list):
        for i, (a, b) in enumerate(zip(got, want)):
            if not (a == b):
                return f"[{i}] {short(a, 200)}, want {short(b, 200)} (lengths {len(got)}, {len(want)})"
        if len(got) != len(want):
            return f"length {len(got)}, want {len(want)}; extra {short(got[len(want):] or want[len(got):], 200)}"
    return f"{short(got, 300)}, want {short(want, 300)}"


def raises(excs, f, what):
    """f must raise one of excs"""
    try:
        r = f()
    except excs as e:
        return e
    raise Violation(f"{what}: expected an error, got {short(r, 200)}")


class Ctx:
    """Per-case context"""

    def __init__(self, scratch):
        self._scratch = scratch
        self._dirs = []
        self.labels = []
        self.is_nontrivial = False
        self.count = 1

    def tmp(self):
        """A fresh empty directory, removed after the case"""
        d = tempfile.mkdtemp(dir=self._scratch, prefix="c")
        self._dirs.append(d)
        return d

    def label(self, *labels):
        self.labels.extend(labels)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def close(self):
        for d in self._dirs:
            _rmtree(d)
        self._dirs = []


def _rmtree(d):
    def onerror(func, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            func(path)
        except OSError:
            pass
    shutil.rmtree(d, onerror=onerror)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule, shards=None, examples=(), enum=None):
        self.name = name
        self.strategy = strategy      # () -> SearchStrategy
        self.check = check            # (case, ctx) -> None
        self.quick = quick            # number of cases (all shards)
        self.thorough = thorough
        self.rule = rule
        self.shards = shards          # number of parallel processes (default: from case count)
        self.examples = list(examples)   # fixed cases, run first (regressions)
        self.enum = enum              # (tier) -> iterable of cases; replaces the strategy (exhaustive)


@contextlib.contextmanager
def default_encoding(default):
    """Text files have the given encoding by default, as on other platforms or with other locales"""
    old = builtins.open

    def opened(file, mode="r", buffering=-1, encoding=None, *args, **kwargs):
        # pathlib and os.fdopen() give "locale"
        return old(file, mode, buffering, default if encoding in (None, "locale") and "b" not in mode else encoding, *args, **kwargs)
    getters = {name: getattr(locale, name) for name in ("getpreferredencoding", "getencoding")}
    builtins.open = io.open = opened
    for name in getters:
        setattr(locale, name, lambda *args: default)
    try:
        yield
    finally:
        builtins.open = io.open = old
        for name, f in getters.items():
            setattr(locale, name, f)
