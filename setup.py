#!/usr/bin/env python3
"""Builds the framework once (the checks rebuild whatever they need themselves)."""
import concurrent.futures as cf, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
os.makedirs(check.BUILD, exist_ok=True)
bins = sorted({b for p in props.PROPS.values() for b in p['replay']})
with cf.ThreadPoolExecutor(4) as ex:
    a = ex.submit(check.build_vx)
    b = [ex.submit(check.build_replay, x) for x in bins]
    a.result()
    for x in b:
        p, e = x.result()
        if not p: print(e)
print('ready')
