#!/usr/bin/env python3
"""Mirror /repo's working tree into build/ws by content: a file is rewritten (fresh mtime) exactly when its
content differs, so that cargo's mtime-based freshness is right whatever the time stamps in /repo are."""
import os, sys, filecmp, shutil
src, dst = "/repo", sys.argv[1]
SKIP = {".git", "target", "fuzz", "tests", "benches", "examples", "Cargo.lock", "node_modules", "playground"}
seen = set()
def sync(s, d):
    if os.path.islink(s): s = os.path.realpath(s)
    if os.path.islink(d) or (os.path.exists(d) and os.path.isdir(d) != os.path.isdir(s)):
        shutil.rmtree(d) if os.path.isdir(d) and not os.path.islink(d) else os.unlink(d)
    if os.path.isdir(s):
        os.makedirs(d, exist_ok=True)
        names = set(os.listdir(s)) - ({"target", "node_modules"})
        for n in set(os.listdir(d)) - names:
            p = os.path.join(d, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for n in names: sync(os.path.join(s, n), os.path.join(d, n))
    elif os.path.isfile(s):
        data = open(s, "rb").read()
        if s == "/repo/Cargo.toml":
            import re
            t = data.decode()
            t = re.sub(r'(?m)^(members = .*?), *"fuzz"', r'\1', t)
            t = re.sub(r'(?ms)^\[\[bench\]\].*', '', t)
            data = t.encode()
        if not os.path.exists(d) or open(d, "rb").read() != data:
            with open(d, "wb") as f: f.write(data)
os.makedirs(dst, exist_ok=True)
top = set(os.listdir(src)) - SKIP
for n in set(os.listdir(dst)) - top - {"Cargo.lock"}:
    p = os.path.join(dst, n)
    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
for n in top: sync(os.path.join(src, n), os.path.join(dst, n))
lock = "/verif/harness/ws-Cargo.lock"; d = os.path.join(dst, "Cargo.lock")
if not os.path.exists(d) or open(d, "rb").read() != open(lock, "rb").read(): shutil.copyfile(lock, d)
