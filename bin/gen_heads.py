#!/usr/bin/env python3
"""Writes contracts/heads.json: the loop heads the invariants were written for.

Run by hand on a reviewed tree where every unit verifies; checks only read it.
usage: gen_heads.py EXPANDED_GENCO EXPANDED_MACROS
"""
import glob, json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import weave as W
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
units = sorted({u for p in json.load(open(H + '/contracts/properties.json')).values() for u in p['units']})
out = {}
with tempfile.TemporaryDirectory() as d:
    for u in units:
        w = W.weave(H + '/contracts/%s.vrs' % u, H + '/.build/xt/debug/xt', {'': sys.argv[1], 'm': sys.argv[2]}, d, u)
        assert not w.lost, (u, w.lost)
        for k, hs in w.heads.items():
            assert out.get(k, hs) == hs, k
            if hs: out[k] = hs
json.dump(dict(sorted(out.items())), open(H + '/contracts/heads.json', 'w'), indent=0, ensure_ascii=True)
