"""C26 A failed write leaves nothing behind"""
import os
import resource
from hypothesis import strategies as st
from vp import ref
from vp.cdn import CDN
from vp.core import Sub, eq, expect, short
from vp.patchgen import FakeStorage
from cdtb.tools import write_file_or_remove, write_dir_or_remove

ASSUMPTIONS = ["failures are exceptions in the writing process, including interruptions and full disks; not power loss", "the target is absent, a regular file or a directory, not a link"]


class Custom(BaseException):
    pass


ERRORS = dict(value=ValueError, os=OSError, key=KeyError, unicode=lambda: UnicodeError("x"), interrupt=KeyboardInterrupt, exit=SystemExit, stop=StopIteration, generator=GeneratorExit, memory=MemoryError, custom=Custom, runtime=RuntimeError)
NAMES = st.sampled_from(["a", "b.txt", "é", "x y", "a.tmp", ".hidden", "a~", "a.part"])


def paths():
    return st.lists(NAMES, min_size=1, max_size=4).map("/".join)


class limited:
    """No regular file can grow over n bytes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        if self.n is not None:
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        if self.n is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def others():
    return st.lists(st.tuples(paths(), st.binary(max_size=5)), max_size=4)


def place(root, target, extra):
    """Write unrelated files, those which fit"""
    for p, data in extra:
        full = os.path.join(root, p)
        if p == target or p.startswith(target + "/") or target.startswith(p + "/") or os.path.lexists(full):
            continue
        parts = p.split("/")
        if any(os.path.isfile(os.path.join(root, *parts[:i])) or "/".join(parts[:i]) == target for i in range(1, len(parts))):
            continue
        ref.write_tree(root, {p: data})


@st.composite
def file_cases(draw):
    chunks = draw(st.lists(st.one_of(st.binary(max_size=20), st.sampled_from([b"", b"x" * 9000, b"\r\n", b"\n", b"y" * 100000])), max_size=4))
    text = draw(st.sampled_from([False, False, True]))
    if text:
        chunks = draw(st.lists(st.sampled_from(["a", "é\n", "", "line\r\n", "x" * 9000, "日本"]), max_size=4))
    return dict(path=draw(paths()), extra=draw(others()), chunks=chunks, text=text, before=draw(st.sampled_from(["absent", "absent", "file", "long", "dir", "full-dir", "parent-file"])),
                fail=draw(st.sampled_from([None, None, "start", "middle", "middle", "end", "disk", "handle", "nested"])), at=draw(st.integers(0, 4)), error=draw(st.sampled_from(sorted(ERRORS))),
                limit=draw(st.sampled_from([0, 1, 5, 100, 8192, 50000])), relative=draw(st.booleans()), flush=draw(st.booleans()), close=draw(st.integers(0, 4)) == 0)


def check_file(case, ctx):
    root = ctx.tmp()
    target = case["path"]
    full = os.path.join(root, target)
    before = case["before"]
    if before == "file":
        ref.write_tree(root, {target: b"old"})
    elif before == "long":
        ref.write_tree(root, {target: b"old" * 5000})
    elif before == "dir":
        os.makedirs(full)
    elif before == "full-dir":
        ref.write_tree(root, {target + "/keep": b"keep"})
    elif before == "parent-file" and "/" in target:
        ref.write_tree(root, {os.path.dirname(target): b"parent"})
    place(root, target, case["extra"])
    tree = ref.read_tree(root)
    chunks = case["chunks"]
    fail = case["fail"]
    error = ERRORS[case["error"]]()
    raised = None
    cwd = os.getcwd()
    if case["relative"]:
        os.chdir(root)
    try:
        with limited(case["limit"] if fail == "disk" else None):
            with write_file_or_remove(target if case["relative"] else full, **({"binary": False} if case["text"] else {})) as f:
                if fail == "start":
                    raise error
                for i, c in enumerate(chunks):
                    if fail == "middle" and i == case["at"] % len(chunks):
                        raise error
                    f.write(c)
                    if case["flush"]:
                        f.flush()
                if case["close"]:
                    f.close()
                if fail == "end" or (fail == "middle" and not chunks):
                    raise error
                if fail == "handle":
                    f.close()
                    f.write(b"" if not case["text"] else "")   # writing to a closed file fails
                if fail == "nested":
                    with write_file_or_remove(os.path.join(root, "nested-dir/inner")) as g:
                        g.write(b"inner")
                        raise error
    except BaseException as e:
        raised = e
    finally:
        os.chdir(cwd)
    after = ref.read_tree(root)
    blocked = before in ("dir", "full-dir") or (before == "parent-file" and "/" in target)
    content = "".join(chunks).encode() if case["text"] else b"".join(chunks)
    if blocked:
        # cannot be written at all
        expect(isinstance(raised, OSError), f"writing {target!r} over {before}: error not reported, got {raised!r}")
        eq(after, tree, f"tree after trying to write {target!r} over {before}")
    elif fail is None or (fail == "disk" and len(content) <= case["limit"]):
        if raised is not None:
            raise raised
        want = dict(tree)
        want[target] = content
        eq(after, want, f"tree after writing {target!r}")
    else:
        if fail == "disk":
            expect(isinstance(raised, OSError), f"full disk not reported: {raised!r}")
        elif fail == "handle":
            expect(isinstance(raised, ValueError), f"failed write not reported: {raised!r}")
        else:
            expect(raised is error, f"error {error!r} not reported: got {raised!r}")
        want = dict(tree)
        want.pop(target, None)
        after.pop("nested-dir", None)
        eq({p: c for p, c in after.items() if isinstance(c, bytes)}, {p: c for p, c in want.items() if isinstance(c, bytes)}, f"files after a failure to write {target!r}")
        expect(not os.path.lexists(full), f"{target!r} exists after a failed write")
    ctx.label(before, fail or "success")
    ctx.nontrivial(fail is not None and not blocked and any(chunks) and fail != "start")


@st.composite
def dir_cases(draw):
    return dict(path=draw(paths()), extra=draw(others()), files=draw(st.lists(st.tuples(paths(), st.binary(max_size=10)), max_size=4)), before=draw(st.sampled_from(["absent", "absent", "empty", "full", "file", "parent-file"])),
                fail=draw(st.sampled_from([None, "raise", "raise", "raise", "inner"])), at=draw(st.integers(0, 4)), error=draw(st.sampled_from(sorted(ERRORS))), relative=draw(st.booleans()))


def check_dir(case, ctx):
    root = ctx.tmp()
    target = case["path"]
    full = os.path.join(root, target)
    before = case["before"]
    if before == "empty":
        os.makedirs(full)
    elif before == "full":
        ref.write_tree(root, {target + "/old/file": b"old"})
    elif before == "file":
        ref.write_tree(root, {target: b"old"})
    elif before == "parent-file" and "/" in target:
        ref.write_tree(root, {os.path.dirname(target): b"parent"})
    place(root, target, case["extra"])
    tree = ref.read_tree(root)
    files = []
    for p, data in case["files"]:
        # files which fit together
        if not any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q, _ in files) and not p.startswith("old"):
            files.append((p, data))
    error = ERRORS[case["error"]]()
    raised = None
    cwd = os.getcwd()
    if case["relative"]:
        os.chdir(root)
    try:
        path = target if case["relative"] else full
        with write_dir_or_remove(path):
            for i, (p, data) in enumerate(files):
                if case["fail"] == "raise" and i == case["at"] % len(files):
                    raise error
                with write_file_or_remove(os.path.join(path, p)) as f:
                    f.write(data)
                    if case["fail"] == "inner" and i == case["at"] % len(files):
                        raise error
            if case["fail"] and not files:
                raise error
    except BaseException as e:
        raised = e
    finally:
        os.chdir(cwd)
    after = ref.read_tree(root)
    if before == "file" or (before == "parent-file" and "/" in target):
        expect(isinstance(raised, OSError), f"writing directory {target!r} over {before}: error not reported, got {raised!r}")
        eq(after, tree, f"tree after trying to write directory {target!r} over {before}")
        return
    if case["fail"] is None:
        if raised is not None:
            raise raised
        want = {p: c for p, c in tree.items() if isinstance(c, bytes)}
        want.update({f"{target}/{p}": data for p, data in files})
        eq({p: c for p, c in after.items() if isinstance(c, bytes)}, want, f"files after writing directory {target!r}")
        expect(os.path.isdir(full), f"directory {target!r} missing")
    else:
        expect(raised is error, f"error {error!r} not reported: got {raised!r}")
        expect(not os.path.lexists(full), f"directory {target!r} exists after a failed write")
        want = {p: c for p, c in tree.items() if isinstance(c, bytes) and not p.startswith(target + "/")}
        eq({p: c for p, c in after.items() if isinstance(c, bytes)}, want, f"files after a failure to write directory {target!r}")
        ctx.nontrivial(bool(files))
    ctx.label(before, case["fail"] or "success")


@st.composite
def download_cases(draw):
    files = draw(st.lists(paths(), unique=True, min_size=1, max_size=3))
    keep = []
    for p in files:
        if not any(p.startswith(q + "/") or q.startswith(p + "/") for q in keep):
            keep.append(p)
    ops = draw(st.lists(st.tuples(st.integers(0, len(keep) - 1), st.sampled_from([False, False, True]), st.booleans(),
                                  st.sampled_from([None, None, ("connect",), ("status", 404), ("status", 500), ("cut", 0), ("cut", 50), ("cut", 99), ("disk", 0), ("disk", 50)])), min_size=1, max_size=8))
    return dict(files=keep, ops=ops, contents=draw(st.lists(st.one_of(st.binary(max_size=10), st.sampled_from([b"z" * 20000])), min_size=1, max_size=4)), blocks=draw(st.lists(st.integers(1, 5000), max_size=2)))


def check_download(case, ctx):
    root = os.path.join(ctx.tmp(), "storage")
    cdn = CDN(blocks=case["blocks"])
    model = {}
    serial = 0
    failures = 0
    with cdn.installed():
        storage = FakeStorage(root)
        storage.url = "http://cdn.test/base/"
        for i, force, same, fault in case["ops"]:
            path = case["files"][i]
            url = f"file{i}.bin" if not same else f"same{i}"
            serial += 1
            content = case["contents"][serial % len(case["contents"])] + b"%d" % serial
            cdn.routes["http://cdn.test/base/" + url] = content
            dest = path
            if same:
                # stored at the path of the URL
                dest = url
            mark = len(cdn.log)
            if fault and fault[0] != "disk":
                cdn.faults["http://cdn.test/base/" + url] = [fault]
            where = f"downloading {dest!r} (force={force}, fault={fault})"
            raised = None
            try:
                with limited(len(content) * fault[1] // 100 if fault and fault[0] == "disk" else None):
                    args = (url, None) if same else (url, dest)
                    if force:
                        storage.download(*args, force=True)
                    else:
                        storage.download(*args)
            except Exception as e:
                raised = e
            cdn.faults.clear()
            requested = cdn.urls()[mark:]
            got = {p: c for p, c in ref.read_tree(root).items() if isinstance(c, bytes)} if os.path.isdir(root) else {}
            if dest in model and not force:
                if raised is not None:
                    raise raised
                eq(requested, [], f"requests when {where}, already there")
                eq(got, model, f"files after {where}")
                continue
            if not fault:
                if raised is not None:
                    raise raised
                eq(requested, ["http://cdn.test/base/" + url], f"requests when {where}")
                model[dest] = content
                eq(got, model, f"files after {where}")
                continue
            failures += 1
            expect(raised is not None, f"failure not reported when {where}")
            # never a partial file: absent, or unchanged if it existed
            if dest in got:
                expect(dest in model, f"file left by a failure when {where}")
            else:
                model.pop(dest, None)
            eq(got, model, f"files after failure when {where}")
    ctx.label("failures" if failures else "ok")
    ctx.nontrivial(failures > 0 and len(case["ops"]) > 2)


SUBS = [
    Sub("file", file_cases, check_file, 5000, 80000, "the failure happens after some content is written"),
    Sub("directory", dir_cases, check_dir, 3000, 50000, "writing fails and the directory has content"),
    Sub("download", download_cases, check_download, 2000, 30000, "a failure among at least three downloads"),
]
