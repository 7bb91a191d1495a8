"""Reference models shared by several checks (independent of the code under test)"""
import json
import os

SIGNATURES = [
    ("ffd8ffdb", "jpg"), ("ffd8ffe1", "jpg"), ("@6:JFIF|Exif", "jpg"), (b"\x89PNG\r\n\x1a\n", "png"),
    (b"GIF87a", "gif"), (b"GIF89a", "gif"), (b"OggS", "ogg"), ("00010000", "ttf"), ("1a45dfa3", "webm"),
    (b"true", "ttf"), (b"OTTO\0", "otf"), (b'"use strict";', "min.js"), (b"<template ", "template.html"),
    (b"<!-- Elements -->", "template.html"), (b"<!DOCTYPE html>", "html"), (b"<html", "html"), (b"DDS ", "dds"),
    (b"<svg", "svg"), (b"PROP", "bin"), (b"PTCH", "bin"), (b"BKHD", "bnk"), (b"r3d2Mesh", "scb"),
    (b"r3d2anmd", "anm"), (b"r3d2canm", "anm"), (b"r3d2sklt", "skl"), (b"r3d2", "wpk"), ("33221100", "skn"),
    (b"PreLoadBuildingBlocks = {", "preload"), (b"\x1bLuaQ\x00\x01\x04\x04", "luabin"),
    (b"\x1bLuaQ\x00\x01\x04\x08", "luabin64"), ("023d0028", "troybin"), (b"[ObjectBegin]", "sco"),
    (b"OEGM", "mapgeo"), (b"TEX\0", "tex"), (b"\0asm", "wasm"), (b"UnityFS", "bundle"), (b"UnityWebData1.0", "data"),
]
SIGNATURES = [(bytes.fromhex(s) if isinstance(s, str) and s[0] != "@" else s, e) for s, e in SIGNATURES]


def guess_ext(data):
    """First matching signature, else json, else None"""
    for sig, ext in SIGNATURES:
        if isinstance(sig, str):
            if data[6:10] == b"JFIF" or data[6:10] == b"Exif":
                return ext
        elif data[:len(sig)] == sig:
            return ext
    try:
        json.loads(data)
    except (ValueError, RecursionError):
        return None
    return "json"


def file_name_of(known, h, data, unknown_dir="unknown"):
    """Relative path a WAD entry is extracted to"""
    guessed = guess_ext(data) if data else None
    if known is None:
        return f"{unknown_dir}/{h:016x}" + (f".{guessed}" if guessed else "")
    i = known.rfind("/") + 1
    folder, name = known[:i], known[i:]
    stem = name.lstrip(".")
    dot = stem.rfind(".")
    if dot < 0:
        ext = ".cdtb" + (f".{guessed}" if guessed else "")
        name += ext
    else:
        ext = stem[dot:]
    if len(name) >= 250:
        # <start>.<hash><ext>, 250 characters
        name = name[:250 - 17 - len(ext)] + f".{h:016x}" + ext
    return folder + name


def conflicts(paths):
    """True if the paths cannot all be files of one tree"""
    s = set(paths)
    if len(s) != len(paths):
        return True
    for p in s:
        parts = p.split("/")
        if any("/".join(parts[:i]) in s for i in range(1, len(parts))):
            return True
    return False


def read_tree(root, follow=False):
    """{relative path: bytes} for files, '-> target' for links, and None for empty directories"""
    out = {}

    def walk(d, rel):
        with os.scandir(d) as it:
            entries = list(it)
        if not entries and rel:
            out[rel] = None
        for e in entries:
            r = f"{rel}/{e.name}" if rel else e.name
            if e.is_symlink() and not follow:
                out[r] = "-> " + os.readlink(e.path)
            elif e.is_dir():
                walk(e.path, r)
            elif e.is_file():
                with open(e.path, "rb") as f:
                    out[r] = f.read()
            else:
                out[r] = "dangling"
    if os.path.isdir(root):
        walk(root, "")
    return out


def write_tree(root, files):
    for p, data in files.items():
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(data)


def fnv1a(s):
    h = 2166136261
    for c in s:
        o = ord(c)
        if 65 <= o <= 90:
            o += 32
        h = ((h ^ o) * 16777619) & 0xffffffff
    return h
