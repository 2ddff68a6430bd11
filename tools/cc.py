#!/usr/bin/env python3
"""Compiler wrapper: recompile only when the command or the content of a dependency changed.

Decides by content, not by time stamps, so that a fresh checkout of an unchanged file costs nothing while
every change of content is compiled. usage: cc.py OUT VERIF REPO -- compiler...  (the compiler writes OUT.d)
"""
import hashlib, os, shutil, subprocess, sys
out, roots = sys.argv[1], sys.argv[2:4]
cmd = sys.argv[5:]

def deps_of(text):
    body = text.replace("\\\n", " ").split(":", 1)[1]
    return [d for d in body.split() if any(d.startswith(r + "/") for r in roots)]

def digest(deps):
    h = hashlib.sha256("\0".join(cmd).encode())
    for d in deps:
        h.update(d.encode() + b"\0")
        with open(d, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

saved, stamp = out + ".deps", out + ".hash"
try:
    old = open(saved).read()
    if os.path.exists(out) and open(stamp).read() == digest(deps_of(old)):
        shutil.copyfile(saved, out + ".d")
        sys.exit(0)
except (OSError, IndexError):
    pass
for p in (stamp, out):
    try: os.remove(p)
    except OSError: pass
rc = subprocess.call(cmd)
if rc == 0:
    shutil.copyfile(out + ".d", saved)
    with open(stamp, "w") as f: f.write(digest(deps_of(open(saved).read())))
sys.exit(rc)
