"""C32 Hash list refresh fetches only what is newer and never loses a list"""
import datetime
import email.utils
import os
import time
from pathlib import Path
import requests
from hypothesis import strategies as st
from vp.cdn import CDN
from vp.cli import run_cli
from vp.core import Sub, eq, expect, short
from cdtb import hashes as H
import cdtb.__main__ as M

ASSUMPTIONS = ["modification times of the lists are set after each refresh", "publication times are whole seconds, as in HTTP headers"]

LISTS = ["hashes.binentries.txt", "hashes.binfields.txt", "hashes.binhashes.txt", "hashes.bintypes.txt", "hashes.game.txt", "hashes.lcu.txt", "hashes.rst.txt", "hashes.rst.xxh64.txt", "hashes.rst.xxh3.txt"]
BASE = "https://raw.communitydragon.org/data/hashes/lol/"
ERRORS = (requests.exceptions.RequestException,)
CONTENTS = st.one_of(st.binary(max_size=40), st.just(b""), st.sampled_from([b"0123456789abcdef a/b.txt\n", b"0123456789abcdef a/b.txt\r\n", "ab é\n".encode(), b"\x1f\x8b\x00", b"\r\n\r\n", b"\xef\xbb\xbfx"]),
                     st.sampled_from([("big", 700), ("big", 20001)]))
# seconds; the boundaries of days, months and years, and summer time changes
TIMES = st.sampled_from([1700000000, 1700000000, 1700000001, 1699999999, 1711846800, 1711850400, 1698541200, 1672531200, 1672531199, 946684800, 1709164800, 1600000000, 1725148800, 1727740799])


# precise enough for a file time read as a floating number of seconds
FRACTIONS = st.sampled_from([0, 0, 10 ** 6, 5 * 10 ** 8, 999 * 10 ** 6])


@st.composite
def cases(draw):
    times = draw(st.lists(TIMES, min_size=1, max_size=3))
    deltas = st.sampled_from([0, 0, 1, -1, 3600, -3600, 7200, -18000, 86400, 10 ** 7])
    when = st.tuples(st.sampled_from(times), deltas).map(sum)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["publish", "touch", "refresh", "refresh", "refresh", "remove"]))
        if k == "publish":
            steps.append((k, draw(st.lists(st.tuples(st.integers(0, 8), CONTENTS, when), min_size=1, max_size=4))))
        elif k == "touch":
            steps.append((k, draw(st.lists(st.tuples(st.integers(0, 8), st.one_of(st.none(), CONTENTS), when, FRACTIONS), min_size=1, max_size=4))))
        elif k == "remove":
            steps.append((k, draw(st.lists(st.integers(0, 8), min_size=1, max_size=3))))
        else:
            fault = draw(st.sampled_from([None, None, "head", "get", "get", "any"]))
            steps.append((k, draw(st.sampled_from(["cli", "cli", "one"])), draw(st.integers(0, 8)), None if fault is None else
                          (fault, draw(st.integers(0, 8)), draw(st.sampled_from([("status", 404), ("status", 500), ("status", 403), ("connect",), ("cut", 0), ("cut", 50)]))), draw(when), draw(FRACTIONS)))
    return dict(initial=draw(st.lists(st.tuples(CONTENTS, when), min_size=9, max_size=9)), local=draw(st.lists(st.tuples(st.integers(0, 8), CONTENTS, when), min_size=2, max_size=12)),
                steps=steps, tz=draw(st.sampled_from(["UTC0", "EST5EDT", "CET-1CEST", "NZST-12NZDT", "UTC0", "IST-5:30"])), missing_dir=draw(st.integers(0, 3)) == 0,
                junk=draw(st.booleans()), blocks=draw(st.lists(st.integers(1, 5000), max_size=2)))


def data(c):
    return c if isinstance(c, bytes) else b"0123456789abcdef x/y\n" * c[1]


def http_date(t):
    return email.utils.format_datetime(datetime.datetime.fromtimestamp(t, datetime.timezone.utc), usegmt=True)


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def check(case, ctx):
    root = ctx.tmp()
    d = f"{root}/user/data" if case["missing_dir"] else root
    old_tz = os.environ.get("TZ")
    old = H.default_hash_dir, M.default_hash_dir
    try:
        os.environ["TZ"] = case["tz"]
        time.tzset()
        H.default_hash_dir = M.default_hash_dir = Path(d)
        run_history(case, ctx, d)
    finally:
        H.default_hash_dir, M.default_hash_dir = old
        if old_tz is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old_tz
        time.tzset()


def run_history(case, ctx, d):
    published = {n: (data(v[0]), v[1]) for n, v in zip(LISTS, case["initial"])}     # name -> content, time
    local = {}                                                    # name -> content, mtime in ns
    junk = {"hashes.xlcu.txt": b"junk", "x/hashes.lcu.txt": b"other"} if case["junk"] and not case["missing_dir"] else {}

    def put(name, content, ns):
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/{name}", "wb") as f:
            f.write(content)
        os.utime(f"{d}/{name}", ns=(ns, ns))
        local[name] = content, ns

    for k, v in junk.items():
        os.makedirs(os.path.dirname(f"{d}/{k}"), exist_ok=True)
        with open(f"{d}/{k}", "wb") as f:
            f.write(v)
    if not case["missing_dir"]:
        for i, content, t in case["local"]:
            put(LISTS[i], data(content), t * 10 ** 9)
    cdn = CDN(blocks=case["blocks"])

    def route(name):
        return lambda request: (200, published[name][0], {"last-modified": http_date(published[name][1]), "content-type": "text/plain"})
    cdn.routes = {BASE + n: route(n) for n in LISTS}

    kinds = set()
    with cdn.installed():
        for step in case["steps"]:
            if step[0] == "publish":
                for i, content, t in step[1]:
                    published[LISTS[i]] = data(content), t
                continue
            if step[0] == "touch":
                for i, content, t, frac in step[1]:
                    if content is None and LISTS[i] not in local:
                        continue
                    put(LISTS[i], local[LISTS[i]][0] if content is None else data(content), t * 10 ** 9 + frac)
                continue
            if step[0] == "remove":
                for i in step[1]:
                    if local.pop(LISTS[i], None) is not None:
                        os.remove(f"{d}/{LISTS[i]}")
                continue
            _, how, which, fault, t, frac = step
            names = LISTS if how == "cli" else [LISTS[which]]
            stale = {n for n in names if n not in local or local[n][1] < published[n][1] * 10 ** 9}
            cdn.log.clear()
            cdn.faults = {}
            fail_on = None
            if fault is not None:
                fail_on = LISTS[fault[1]] if how == "cli" else names[0]
                has_head = fail_on in local
                n_head = 1 if fault[0] == "get" and has_head else 0
                cdn.faults = {BASE + fail_on: [None] * n_head + [tuple(fault[2])] + ([tuple(fault[2])] if fault[0] == "any" else [])}
            before = snapshot(d)
            hits = cdn.fault_hits
            error = None
            try:
                if how == "cli":
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    rc, _, _ = run_cli(["fetch-hashes"])
                    if rc:
                        error = f"exit status {rc}"
                else:
                    if not os.path.isdir(d):
                        os.makedirs(d)
                    H.update_default_hashfile(names[0])
            except ERRORS as e:
                error = e
            gets = [u for m, u in cdn.log if m == "GET"]
            after = snapshot(d)
            failed = cdn.fault_hits > hits
            if failed:
                expect(error is not None, f"refresh reports no failure although {fault[2]} happened on {fail_on}")
                kinds.add("failed")
            else:
                expect(error is None, f"refresh fails without fault: {error!r}")
            want = dict(before)
            for n in names:
                if failed and n == fail_on:
                    eq(after.get(n), before.get(n), f"list {n} after a failed refresh")
                    continue
                if failed and after.get(n) == before.get(n) and (BASE + n) not in gets:
                    continue   # not reached
                if n in stale:
                    want[n] = published[n][0]
                    expect((BASE + n) in gets, f"outdated list {n} not downloaded (local time {local.get(n, [0, None])[1]}, published {published[n][1]})")
                    kinds.add("updated" if n in local else "new")
                else:
                    expect((BASE + n) not in gets, f"up-to-date list {n} downloaded (local time {local[n][1]}, published {published[n][1]})")
                    eq(os.stat(f"{d}/{n}").st_mtime_ns, local[n][1], f"modification time of up-to-date list {n}")
                    kinds.add("kept")
            eq(after, want, f"files after refresh ({how})")
            for u in [u for _, u in cdn.log]:
                expect(u in {BASE + n for n in names}, f"unexpected request: {u}")
            for n in names:
                if after.get(n) is not None and (BASE + n) in gets and not (failed and n == fail_on):
                    put(n, after[n], t * 10 ** 9 + frac)
    ctx.label(*sorted(kinds))
    ctx.nontrivial({"updated", "kept"} <= kinds)


SUBS = [Sub("history", cases, check, quick=1000, thorough=15000, rule="the history has both an outdated list updated and an up-to-date one kept")]
