"""C35 Interrupts show progress and lose nothing; two in a row stop"""
import contextlib
import os
import signal
import sys
import time
import traceback
from unittest import mock
from hypothesis import strategies as st
from vp import guessgen as G, guessref as R
from vp.core import Sub, eq, expect
from vp.cli import Stream
from cdtb import hashes as H
from cdtb.hashes import LcuHashGuesser, GameHashGuesser, progress_iterator

ASSUMPTIONS = ["interrupts are delivered to the main thread, between two executed lines", "two interrupts are in a row when less than half a second apart (intervals around 0.5 s are not tried)",
               "an interrupt in the very last step of an iteration has no progress to be shown",
               "no interruption while the signal handler is being replaced"]


class Term(Stream):
    """A stream on a terminal"""

    def __init__(self, fd):
        super().__init__()
        self.fd = fd

    def fileno(self):
        return self.fd

    def isatty(self):
        return self.fd == _tty()


_ptys = []


def _tty():
    if not _ptys:
        _ptys.extend(os.openpty())
    return _ptys[1]


class Clock:
    def __init__(self):
        self.now = 1700000000.0

    def __call__(self):
        return self.now


@contextlib.contextmanager
def environment(tty):
    """Outer handler recording signals, fake clock, captured streams; yields (outer signals, stdout, clock)"""
    outer = []
    clock = Clock()

    def prev(sig, frame):
        outer.append(sig)
    old = signal.signal(signal.SIGINT, prev)
    out, err = Stream(), Term(_tty()) if tty else Stream()
    try:
        with mock.patch.object(time, "time", clock), mock.patch.object(time, "monotonic", clock), mock.patch.object(time, "perf_counter", clock):
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                yield outer, out, clock
        if "lenient" not in outer:
            eq(signal.getsignal(signal.SIGINT), prev, "interrupt handler after the operation")
    finally:
        signal.signal(signal.SIGINT, old)


def interrupt():
    signal.raise_signal(signal.SIGINT)
    for _ in range(3):
        pass    # let the handler run


# --- iteration

GAPS = [0.0, 0.1, 0.3, 0.4, 0.7, 1.0, 3.0, 1000.0]


@st.composite
def iteration_cases(draw):
    n = draw(st.integers(0, 12))
    # interrupts: (after how many elements, seconds since the previous one)
    sigs = sorted(draw(st.lists(st.tuples(st.integers(0, max(0, n)), st.sampled_from(GAPS if draw(st.booleans()) else GAPS[4:])), max_size=6)), key=lambda t: t[0])
    return dict(n=n, kind=draw(st.sampled_from(["list", "items", "tuple", "nested"])), sigs=sigs, tty=draw(st.integers(0, 4)) > 0, fmt=draw(st.booleans()),
                end=draw(st.sampled_from(["all", "all", "break", "error"])), at=draw(st.integers(0, 12)))


class Stop(Exception):
    pass


def check_iteration(case, ctx):
    n = case["n"]
    items = [f"item{i}" for i in range(n)]
    seq = items
    if case["kind"] == "items":
        seq = {x: 1 for x in items}.items()
    elif case["kind"] == "tuple":
        seq = tuple(items)
    want_items = list(seq)
    pending = {}
    for at, gap in case["sigs"]:
        pending.setdefault(at, []).append(gap)
    fmt = (lambda v: f"<{v}>") if case["fmt"] else None
    got, stopped, expected_lines = [], None, []
    with environment(case["tty"]) as (outer, out, clock):
        handler = signal.getsignal(signal.SIGINT)
        flagged, last, interrupted = False, None, None
        sent = 0
        try:
            if case["kind"] == "nested":
                for _ in progress_iterator(["x"]):
                    pass
            for v in progress_iterator(seq, fmt):
                if flagged and case["tty"]:
                    i = len(got)
                    expected_lines.append((100 * i / n, v if fmt is None else f"<{v}>"))
                flagged = False
                got.append(v)
                if case["kind"] == "nested":
                    eq(list(progress_iterator(["a", "b"])), ["a", "b"], "nested iteration")
                for gap in pending.get(len(got), ()):
                    clock.now += gap
                    if last is not None and clock.now - last < 0.5:
                        interrupted = len(got)
                    sent += 1
                    last = clock.now
                    flagged = True
                    interrupt()
                if case["end"] != "all" and len(got) == case["at"]:
                    if case["end"] == "error":
                        raise Stop()
                    stopped = len(got)
                    break
        except KeyboardInterrupt:
            expect(case["tty"] and interrupted == len(got), f"iteration stopped by spaced interrupts (after {len(got)} elements)")
            stopped = len(got)
        except Stop:
            stopped = len(got)
        else:
            expect(not case["tty"] or interrupted is None, f"two interrupts in a row after {interrupted} elements do not stop the iteration")
            if stopped is None:
                eq(len(got), n, "number of elements")
        if "v" in locals():
            del v
        eq(len(outer), 0 if case["tty"] else sent, "interrupts seen by the previous handler")
        eq(signal.getsignal(signal.SIGINT), handler, "interrupt handler after the iteration")
        interrupt()
        eq(len(outer), 1 if case["tty"] else sent + 1, "interrupts seen by the previous handler after the iteration")
    eq(got, want_items[:len(got)], "elements")
    lines = [l for l in out.getvalue().split("\n") if l]
    eq(len(lines), len(expected_lines), f"progress lines ({lines})")
    for l, (pct, v) in zip(lines, expected_lines):
        eq(l.split(None, 1), [f"{pct:.1f}%", str(v)], "progress line")
    ctx.label("tty" if case["tty"] else "no-tty", case["kind"], "stopped" if interrupted and case["tty"] else case["end"])
    ctx.nontrivial(case["tty"] and sent)


# --- guessing

LCU = ["substitute_region_lang", "substitute_basename_words", "substitute_numbers", "substitute_plugin", "substitute_basenames", "substitute_extensions"]
GAME = ["substitute_numbers", "check_basename_prefixes", "substitute_basename_words", "substitute_character", "substitute_skin_numbers", "substitute_suffixes", "substitute_lang",
        "guess_skin_groups_bin", "guess_characters_files", "guess_shader_variants", "substitute_basenames", "substitute_extensions"]


@st.composite
def guess_cases(draw):
    kind = draw(st.sampled_from(["lcu", "game"]))
    paths = G.lcu_paths() if kind == "lcu" else G.game_paths()
    return dict(kind=kind, known=draw(st.lists(paths, min_size=1, max_size=5, unique=True)), method=draw(st.sampled_from(LCU if kind == "lcu" else GAME)),
                picks=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=8)), tty=draw(st.integers(0, 4)) > 0,
                # interrupts, in thousandths of the executed lines
                sigs=draw(st.lists(st.tuples(st.integers(0, 1000), st.sampled_from([0.7, 1.0, 10.0, 3600.0])), min_size=1, max_size=6)),
                close=draw(st.sampled_from([None, None, 0.0, 0.2, 0.45])))


BASE = os.path.dirname(os.path.realpath(H.__file__)) + os.sep


@contextlib.contextmanager
def on_lines(f):
    """Call f at each executed line of cdtb"""
    mon = sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(BASE) or os.path.realpath(code.co_filename).startswith(BASE):
            f()
            return None
        return mon.DISABLE
    mon.use_tool_id(mon.DEBUGGER_ID, "c35")
    mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, on_line)
    mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
    try:
        yield
    finally:
        mon.set_events(mon.DEBUGGER_ID, 0)
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, None)
        mon.free_tool_id(mon.DEBUGGER_ID)
        mon.restart_events()


def run_method(case, unknown, schedule):
    """(guesser, printed lines, lines executed, KeyboardInterrupt?, interrupts caught by the method)"""
    known = case["known"]
    G.set_lists(known if case["kind"] == "lcu" else ["x"], known if case["kind"] == "game" else ["x"])
    g = (LcuHashGuesser if case["kind"] == "lcu" else GameHashGuesser)(set(unknown))
    count = 0
    stopped = False
    with environment(case["tty"]) as (outer, out, clock):
        def step():
            nonlocal count
            count += 1
            for gap in schedule.get(count, ()):
                clock.now += gap
                signal.raise_signal(signal.SIGINT)
        try:
            with on_lines(step):
                getattr(g, case["method"])()
        except KeyboardInterrupt as e:
            stopped = True
            # an interruption while the handler itself is being replaced cannot be handled properly
            lenient = any("signal" in f.f_code.co_names for f, _ in list(traceback.walk_tb(e.__traceback__)))
        if stopped and lenient:
            outer.append("lenient")
    return g, [l for l in out.getvalue().split("\n") if l], count, stopped, outer.count(signal.SIGINT)


def check_guess(case, ctx):
    known = case["known"]
    toc = ["data/wad.subchunktoc"]
    chosen = R.pick(R.targets(case["kind"], case["method"], {}, known + toc if case["kind"] == "lcu" else [], known + toc if case["kind"] == "game" else []), known + toc, case["picks"])
    unknown = {G.xxh(p) for p in chosen} | {1, 2 ** 64 - 1}
    ref, lines, count, stopped, _ = run_method(case, unknown, {})
    expect(not stopped, "stopped without interrupts")
    schedule = {}
    for pos, gap in case["sigs"]:
        schedule.setdefault(1 + pos * count // 1001, []).append(gap)
    if case["close"] is not None:
        schedule[max(schedule)] += [case["close"]] * 2
    total = sum(map(len, schedule.values()))
    g, got_lines, _, stopped, outer = run_method(case, unknown, schedule)
    initial = {G.xxh(p): p for p in known + toc}
    for h, p in initial.items():
        eq(g.known.get(h), p, "known path after interrupts")
    for h, p in g.known.items():
        expect(h in initial or h in unknown and G.xxh(p) == h, f"wrong path {p!r} recorded")
    if not case["tty"]:
        eq(outer, total, "interrupts seen by the previous handler")
    if stopped:
        expect(case["close"] is not None and case["tty"], "stopped by spaced interrupts")
        # the one being recorded may be
        expect(len(unknown - set(g.known) - set(g.unknown)) <= 1, "hashes lost by an interruption")
    else:
        eq(g.known, ref.known, "known paths after spaced interrupts, compared to a run without interrupts")
        eq(g.unknown, ref.unknown, "unknown hashes after spaced interrupts")
        progress = [l for l in got_lines if l not in lines]
        eq(sorted(l for l in got_lines if l not in progress), sorted(lines), "printed discoveries")
        expect(len(progress) <= total, "more progress lines than interrupts")
        expect(all("%" in l for l in progress), f"progress lines: {progress[:3]}")
    ctx.label(case["method"], "stopped" if stopped else "completed", "caught" if outer < total else "not-caught")
    ctx.nontrivial(chosen and outer < total)


SUBS = [
    Sub("iteration", iteration_cases, check_iteration, 6000, 60000, "interrupts are sent while the output is a terminal", shards=3),
    Sub("guess", guess_cases, check_guess, 1600, 20000, "something is to be found and some interrupts are handled by the method", shards=5),
]
