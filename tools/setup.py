#!/usr/bin/env python3
"""Builds the runtime and all scenario binaries (a check also does that by itself when they are missing)."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check, props
os.makedirs(check.BUILD, exist_ok=True)
inc = check.tree_hash(os.path.join(check.REPO, "include"))
check.rt_object()
todo = sorted({(g["src"], v["name"]) for p in props.PROPS.values() for g in p["groups"] for v in g["variants"] if v.get("tier") != "thorough"})
with ThreadPoolExecutor(check.NPROC) as ex:
    list(ex.map(lambda k: check.build(k[0], props.VARIANTS[k[1]], inc), todo))
print("built", len(todo))
