#!/usr/bin/env python3
"""Sanity of the offline toolchain the checks rely on; builds nothing that lasts."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t.cpp")
    open(f, "w").write('#include "mc.hpp"\nMC_MAIN({"s", [](mc::Ctx& c){ int a = c.in(0,3); if (!c.begin()) return; c.check(a >= 0, "x"); }})\n')
    e = os.path.join(d, "t")
    subprocess.run(["g++", "-std=c++17", "-O1", "-fsanitize=address,bounds", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(V, "harness"), f, "-o", e], check=True)
    subprocess.run([e], check=True)
for n in ("check.py", "properties.jsonl", "harness/props.py"):
    assert os.path.exists(os.path.join(V, n)), n
print("setup ok")
