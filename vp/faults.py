"""Failures and interruptions of an operation: disk writes, changes of directories, requests, and interrupts at executed lines"""
import builtins
import contextlib
import errno
import io
import os
import shutil
import sys
import threading
import zlib
import requests
import cdtb.tools

CODE = os.path.dirname(os.path.realpath(cdtb.tools.__file__)) + os.sep
TOOLS = os.path.realpath(cdtb.tools.__file__)
FUNCS = ["mkdir", "remove", "unlink", "rmdir", "symlink", "rename", "replace", "link", "truncate"]


class Broken:
    """File whose data cannot be completely written"""

    def __init__(self, f, how, error):
        self.f, self.how, self.error = f, how, error

    def __enter__(self):
        return self

    def __iter__(self):
        return iter(self.f)

    def _fail(self):
        self.f.close()
        if self.how == "close":
            os.truncate(self.f.name, os.path.getsize(self.f.name) // 2)
        raise self.error

    def __exit__(self, kind, *a):
        if kind is not None or self.f.closed:
            self.f.close()
        else:
            self.close()

    def close(self):
        if not self.f.closed:
            self._fail()

    def write(self, data):
        if self.how == "write":
            self.f.write(data[:len(data) // 2])
            self._fail()
        return self.f.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __getattr__(self, name):
        return getattr(self.f, name)


class Faults:
    """Record the events of an operation, and make one of them fail.

    Events: ("write", path), ("os", function, path), ("request", url), ("line", file, line) with paths relative to `root`; those of another thread than the main one are not interrupted.
    fault: (event, n-th occurrence, how), how being "interrupt", or "open", "write", "close" for a write, "error" for other changes, ("connect",) ("status", n) ("cut", percentage) for a request.
    """

    def __init__(self, root, cdn=None, fault=None, lines=False):
        self.root = os.path.realpath(root)
        self.cdn = cdn
        self.fault = fault
        self.lines = lines
        self.counts = {}
        self.hit = False
        self.lock = threading.Lock()
        self.local = threading.local()

    def _event(self, *key):
        """Return how the event fails, if it does"""
        # no second failure while one is being handled
        if getattr(self.local, "quiet", False) or sys.exc_info()[0] is not None:
            return None
        with self.lock:
            n = self.counts[key] = self.counts.get(key, 0) + 1
            if self.fault is None or self.hit or self.fault[:2] != (key, n):
                return None
            how = self.fault[2]
            if how == "interrupt" and threading.current_thread() is not threading.main_thread():
                return None
            self.hit = True
            return how

    def _rel(self, path):
        path = os.path.realpath(os.path.dirname(os.path.abspath(path))) + os.sep + os.path.basename(path)
        return path[len(self.root) + 1:] if path.startswith(self.root + os.sep) else None

    @staticmethod
    def _error(how, path):
        return KeyboardInterrupt() if how == "interrupt" else OSError(errno.ENOSPC, "simulated", path)

    def _open(self, file, mode="r", *args, **kwargs):
        if isinstance(file, int) or not any(c in mode for c in "wax+") or (rel := self._rel(os.fspath(file))) is None:
            return self.open(file, mode, *args, **kwargs)
        how = self._event("write", rel)
        if how == "open":
            raise self._error(how, file)
        f = self.open(file, mode, *args, **kwargs)
        return Broken(f, "write" if how == "interrupt" else how, self._error(how, file)) if how else f

    def _os(self, name, real):
        def f(path, *args, **kwargs):
            # the second argument is the one that is created
            target = args[0] if name in ("symlink", "rename", "replace", "link") and args else path
            rel = self._rel(os.fspath(target)) if isinstance(target, (str, os.PathLike)) and not kwargs.get("dir_fd") else None
            how = self._event("os", name, rel) if rel is not None else None
            if how:
                raise self._error(how, target)
            return real(path, *args, **kwargs)
        return f

    def _rmtree(self, path, ignore_errors=False, *args, **kwargs):
        how = self._event("os", "rmtree", self._rel(os.fspath(path)))
        self.local.quiet = True
        try:
            if not how:
                return self.rmtree(path, ignore_errors, *args, **kwargs)
            # only a part is removed
            if os.path.isdir(path) and not os.path.islink(path):
                for name in sorted(os.listdir(path))[::2]:
                    p = os.path.join(path, name)
                    if os.path.islink(p) or not os.path.isdir(p):
                        os.remove(p)
            if how == "interrupt" or not ignore_errors:
                raise self._error(how, path)
        finally:
            self.local.quiet = False

    def _send(self, request, **kwargs):
        how = self._event("request", request.url)
        if how == "interrupt":
            raise KeyboardInterrupt()
        if how:
            self.cdn.faults.setdefault(request.url, []).append(how)
        return self.send(request, **kwargs)

    def _line(self, code, line):
        name = os.path.realpath(code.co_filename)
        # the helpers of tools.py are the subject of C26
        if not name.startswith(CODE) or name == TOOLS:
            return sys.monitoring.DISABLE
        if threading.current_thread() is threading.main_thread():
            if self._event("line", os.path.basename(code.co_filename), line):
                raise KeyboardInterrupt()

    @contextlib.contextmanager
    def installed(self):
        self.open, self.rmtree = builtins.open, shutil.rmtree
        self.send = self.cdn and self.cdn.send
        real = {name: getattr(os, name) for name in FUNCS}
        builtins.open = io.open = self._open
        shutil.rmtree = self._rmtree
        for name, f in real.items():
            setattr(os, name, self._os(name, f))
        if self.cdn:
            self.cdn.send = self._send
        mon = sys.monitoring
        if self.lines:
            mon.use_tool_id(mon.DEBUGGER_ID, "faults")
            mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, self._line)
            mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
        try:
            yield self
        finally:
            if self.lines:
                mon.set_events(mon.DEBUGGER_ID, 0)
                mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, None)
                mon.free_tool_id(mon.DEBUGGER_ID)
                mon.restart_events()
            if self.cdn:
                del self.cdn.send
                self.cdn.faults.clear()
            for name, f in real.items():
                setattr(os, name, f)
            shutil.rmtree = self.rmtree
            builtins.open = io.open = self.open


HOWS = {"write": ["open", "write", "close", "interrupt", "interrupt"], "os": ["error", "interrupt"], "request": [("connect",), ("status", 500), ("status", 503), ("cut", 50), ("cut", 0), "interrupt"], "line": ["interrupt"]}


def st_fault():
    """{kind, pos selecting an event of this kind, occurrence, how}"""
    from hypothesis import strategies as st
    return st.sampled_from(["write", "os", "request", "line"]).flatmap(lambda kind: st.fixed_dictionaries(dict(kind=st.just(kind), pos=st.integers(0, 999), nth=st.sampled_from([0, 0, 1, 500, 1000]), how=st.sampled_from(HOWS[kind]))))


def pick(fault, counts):
    """The fault to inject, given the recorded events"""
    for kind in [fault["kind"], "write", "os", "line"]:
        events = sorted(e for e in counts if e[0] == kind)
        if events:
            # small positions are generated more often: spread them
            where = zlib.crc32(f"{fault['pos']} {fault['nth']} {sum(counts.values())}".encode()) % 1000
            # directories are created much more often than anything else is done
            groups = sorted({e[1] for e in events}) if kind == "os" else [None]
            group, pos = divmod(where * len(groups), 1000)
            events = [e for e in events if groups[group] in (None, e[1])]
            event = events[pos * len(events) // 1000]
            n = counts[event]
            nth = max(1, min(n, fault["nth"] + 1 if fault["nth"] <= 1 else fault["nth"] * n // 1000))
            return event, nth, fault["how"] if kind == fault["kind"] else "interrupt" if fault["how"] == "interrupt" else HOWS[kind][0]
    return None
