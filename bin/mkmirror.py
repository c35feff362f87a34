#!/usr/bin/env python3
"""Makes /verif/ws, a mirror of /repo's present working tree that cargo can resolve offline.

Two optional git dependencies of /repo's manifests (quinn-openssl and
quinn-proto-openssl) cannot be fetched here and cargo resolves even unused
optional dependencies.  Every file of /repo is copied to ws when its content
differs (so an unchanged file keeps its mtime and a changed one is rebuilt whatever
its mtime in /repo); only the Cargo.toml files are rewritten, without those
dependencies, the features that need them, and what only they asked for.
Concurrent callers are serialised by a lock on ws's parent directory.
"""

import datetime
import os
import sys
import tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ws")
SKIP = {"Cargo.lock"}
SKIP_DIRS = {".git", "target", "node_modules", "__pycache__", ".venv", "build"}
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")


def dep_tables(m):
    for t in [m, *m.get("target", {}).values()]:
        for name in TABLES:
            if name in t:
                yield t[name]


def drop_deps(m, gone, only_optional=True):
    for t in dep_tables(m):
        for k in list(t):
            if k in gone:
                if only_optional and not t[k].get("optional"):
                    sys.exit(f"mkmirror: {k} is a git dependency and not optional")
                del t[k]


def strip(manifests):
    """manifests: package name -> parsed manifest; edited in place."""
    gone_deps = {
        p: {
            k
            for t in dep_tables(m)
            for k, v in t.items()
            if isinstance(v, dict) and "git" in v
        }
        for p, m in manifests.items()
    }
    gone_feats = {p: set() for p in manifests}

    def bad(p, item):
        if item.startswith("dep:"):
            return item[4:] in gone_deps[p]
        if "/" in item:
            dep, feat = item.split("/", 1)
            name = dep.rstrip("?")
            if name in gone_deps[p]:
                return True
            return feat in gone_feats.get(name, ())
        return item in gone_feats[p] or item in gone_deps[p]

    changed = True
    while changed:
        changed = False
        for p, m in manifests.items():
            for f, items in m.get("features", {}).items():
                if f not in gone_feats[p] and any(bad(p, i) for i in items):
                    gone_feats[p].add(f)
                    changed = True
    for p, m in manifests.items():
        feats = m.get("features", {})
        explicit = {i for f in gone_feats[p] for i in feats[f] if i.startswith("dep:")}
        for f in gone_feats[p]:
            del feats[f]
        kept = {i for items in feats.values() for i in items}
        orphans = {i[4:] for i in explicit if i not in kept} - gone_deps[p]
        drop_deps(m, gone_deps[p] | orphans)
        for kind in ("bin", "example", "test", "bench"):
            if kind in m:
                m[kind] = [
                    t
                    for t in m[kind]
                    if not gone_feats[p] & set(t.get("required-features", ()))
                ]


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float, datetime.date, datetime.time)):
        return str(v)
    if isinstance(v, str):
        out = '"'
        for c in v:
            out += (
                "\\" + c
                if c in '"\\'
                else c
                if ord(c) >= 32 and ord(c) != 127
                else f"\\u{ord(c):04x}"
            )
        return out + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(value, v)) + "]"
    return "{ " + ", ".join(f"{value(k)} = {value(x)}" for k, x in v.items()) + " }"


def emit(m):
    out = []
    tables = {k: v for k, v in m.items() if isinstance(v, dict)}
    lists = {
        k: v
        for k, v in m.items()
        if isinstance(v, list) and v and all(isinstance(x, dict) for x in v)
    }
    for k, v in m.items():
        if k not in tables and k not in lists:
            out.append(f"{value(k)} = {value(v)}")
    for k, v in tables.items():
        out.append(f"\n[{value(k)}]")
        out += [f"{value(a)} = {value(b)}" for a, b in v.items()]
    for k, v in lists.items():
        for x in v:
            out.append(f"\n[[{value(k)}]]")
            out += [f"{value(a)} = {value(b)}" for a, b in x.items()]
    return "\n".join(out) + "\n"


def remove(path):
    if os.path.islink(path) or not os.path.isdir(path):
        os.remove(path)
    else:
        for e in os.listdir(path):
            remove(os.path.join(path, e))
        os.rmdir(path)


def put(d, data, mode=0o644):
    """Writes data to d unless d already holds it, so mtimes only move on change."""
    if os.path.islink(d) or os.path.isdir(d):
        remove(d)
    if os.path.exists(d):
        with open(d, "rb") as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(d), exist_ok=True)
    tmp = d + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.chmod(tmp, mode)
    os.replace(tmp, d)


def mirror(manifests, keep):
    """Copies the files of REPO into WS (rewriting manifests); drops what is gone."""
    wanted = set(keep)
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        rel = "" if rel == "." else rel
        dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
        for e in files:
            r = os.path.join(rel, e)
            src = os.path.join(root, e)
            if e in SKIP or os.path.islink(src) or not os.path.isfile(src):
                continue
            wanted.add(r)
            if r in manifests:
                put(os.path.join(WS, r), emit(manifests[r]).encode())
            else:
                with open(src, "rb") as f:
                    put(os.path.join(WS, r), f.read(), os.stat(src).st_mode & 0o777)
    for root, dirs, files in os.walk(WS, topdown=False):
        rel = os.path.relpath(root, WS)
        rel = "" if rel == "." else rel
        for e in files + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
            if os.path.join(rel, e) not in wanted:
                os.remove(os.path.join(root, e))
        if rel and not os.listdir(root):
            os.rmdir(root)


def load(path):
    with open(os.path.join(REPO, path), "rb") as f:
        return tomllib.load(f)


def main():
    root = load("Cargo.toml")
    manifests = {"Cargo.toml": root}
    for member in root["workspace"]["members"]:
        if member != ".":
            rel = os.path.join(os.path.normpath(member), "Cargo.toml")
            manifests[rel] = load(rel)
    strip({m["package"]["name"]: m for m in manifests.values()})
    mirror(manifests, {"Cargo.lock"})


import fcntl

os.makedirs(WS, exist_ok=True)
_lock = os.open(os.path.dirname(WS), os.O_RDONLY)
fcntl.flock(_lock, fcntl.LOCK_EX)
main()
