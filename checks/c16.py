"""C16 Hash lists survive load and save unchanged"""
import os
from hypothesis import strategies as st
from vp.core import Sub, eq, expect, raises
from cdtb.hashes import HashFile

ASSUMPTIONS = ["texts are single-line (no line terminator), as every producer writes", "hashes are non-negative integers below 2**64"]

ALPHA = "abz09/_.-% \t{}é漢\U0001f600\u2028\u00a0\x0c\x1c\x85'\"A"
TEXT = st.one_of(st.text(ALPHA, max_size=12), st.sampled_from(["", " ", "a b", " lead", "trail ", "two  spaces", "data/x/y.bin", "%s", "#", "0", "ff ff", "é", "z" * 400]),
                 st.text(st.characters(blacklist_characters="\n\r", blacklist_categories=("Cs",)), max_size=8))
HASH = st.one_of(st.integers(0, 2 ** 64 - 1), st.integers(0, 300), st.sampled_from([0, 1, 2 ** 32, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 40, 2 ** 39 - 1]))
MAPPING = st.lists(st.tuples(HASH, TEXT), max_size=8, unique_by=lambda t: t[0])


def file_bytes(pairs, size, order=True):
    lines = sorted(pairs, key=lambda t: t[1]) if order else pairs
    return "".join(f"{h:x}".rjust(size, "0") + " " + s + "\n" for h, s in lines).encode("utf-8")


@st.composite
def histories(draw):
    ops = []
    if draw(st.integers(0, 3)):
        ops.append(draw(st.sampled_from(["write", "replace"])))
        ops = [(ops[0], draw(MAPPING), "any"), ("load",)] if ops[0] == "write" else [(ops[0], draw(MAPPING))]
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["load", "load", "force", "write", "write", "delete", "set", "set", "remove", "save", "save", "replace"]))
        if k == "write":
            ops.append((k, draw(MAPPING), draw(st.sampled_from(["sorted", "any", "crlf", "upper", "short", "nonl"]))))
        elif k == "set":
            ops.append((k, draw(HASH), draw(TEXT)))
        elif k == "remove":
            ops.append((k, draw(st.integers(0, 7))))
        elif k == "replace":
            ops.append((k, draw(MAPPING)))
        else:
            ops.append((k,))
    if draw(st.integers(0, 2)):
        ops.append(("save",))
    return dict(size=draw(st.sampled_from([16, 16, 8, 10, 1])), ops=ops)


def check_history(case, ctx):
    root, size = ctx.tmp(), case["size"]
    path = f"{root}/hashes.txt"
    hf = HashFile(path) if size == 16 else HashFile(path, hash_size=size)
    disk = None      # pairs on disk, None: no file
    mem = None       # loaded mapping
    raw = None
    stats = set()
    for op in case["ops"]:
        k = op[0]
        if k == "write":
            pairs = [tuple(p) for p in op[1]]
            raw = file_bytes(pairs, size, op[2] != "any")
            if op[2] == "crlf":
                raw = raw.replace(b"\n", b"\r\n")
            elif op[2] == "upper":
                raw = "".join(f"{h:X}".rjust(size, "0") + f" {s}\n" for h, s in pairs).encode()
            elif op[2] == "short":
                raw = "".join(f"{h:x} {s}\n" for h, s in pairs).encode()
            elif op[2] == "nonl":
                raw = raw[:-1]
            with open(path, "wb") as f:
                f.write(raw)
            disk = dict(pairs)
        elif k == "delete":
            if os.path.exists(path):
                os.remove(path)
            disk = None
        elif k in ("load", "force"):
            force = k == "force"
            if (force or mem is None) and disk is None:
                raises(FileNotFoundError, lambda: hf.load(force=force), "load of a missing list")
                stats.add("missing")
                continue
            if force or mem is None:
                mem = dict(disk)
            else:
                stats.add("cached" if disk != mem else "same")
            got = hf.load(force=True) if force else hf.load()
            eq(got, mem, f"hashes after {k}")
            expect(hf.load() is got, "load() does not return the cached list")
        elif k == "set" and mem is not None:
            hf.load()[op[1]] = op[2]
            mem[op[1]] = op[2]
        elif k == "remove" and mem:
            h = list(mem)[op[1] % len(mem)]
            del hf.load()[h], mem[h]
        elif k == "replace":
            mem = dict(tuple(p) for p in op[1])
            hf.hashes = dict(mem)
        elif k == "save" and mem is not None:
            before = dict(mem)
            hf.save()
            eq(hf.load(), before, "hashes after save")
            with open(path, "rb") as f:
                raw = f.read()
            check_file(raw, mem, size)
            disk = dict(mem)
            # load and save again: same bytes
            other = HashFile(path, hash_size=size)
            eq(other.load(), mem, "saved then loaded hashes")
            other.save()
            with open(path, "rb") as f:
                eq(f.read(), raw, "bytes saved again")
            eq(sorted(os.listdir(root)), ["hashes.txt"], "files next to the saved list")
            stats.add("saved")
            if any(" " in s for s in mem.values()):
                ctx.label("spaces")
            if len(set(mem.values())) != len(mem):
                ctx.label("same-text")
    for s in stats:
        ctx.label(s)
    ctx.nontrivial("saved" in stats and len(mem or ()) >= 2)


def check_file(raw, mem, size):
    lines = raw.split(b"\n")
    eq(lines[-1], b"", "end of the saved list")
    lines = lines[:-1]
    eq(len(lines), len(mem), "number of saved lines")
    texts = []
    want = {(f"{h:x}".rjust(size, "0") + " " + s).encode() for h, s in mem.items()}
    eq(set(lines), want, "saved lines")
    for l in lines:
        texts.append(l.decode().split(" ", 1)[1])
    eq(texts, sorted(texts), "order of saved texts")


SUBS = [
    Sub("history", histories, check_history, 12000, 200000, "a list of 2 hashes or more is saved and loaded again"),
]
