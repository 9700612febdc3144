#!/usr/bin/env python3
"""builds and runs every harness natively with an all-zero input: the replay of a
counterexample must be buildable, and the real code must pass there"""
import sys, os, glob, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location('vpcheck', os.path.join(here, 'vpcheck.py'))
vp = importlib.util.module_from_spec(spec); spec.loader.exec_module(vp)
def one(u):
    if u.get('no_native'): return u['id'], None, 'no native'
    with tempfile.TemporaryDirectory() as t:
        ok, txt = vp.replay_native(u, '{0}', t, 'x')
    return u['id'], ok, txt
us = []
for d in sorted(glob.glob(os.path.join(here, '../units/C*/'))):
    c = os.path.basename(os.path.dirname(d))
    if len(sys.argv) > 1 and c not in sys.argv[1:]: continue
    for f in sorted(glob.glob(d + '*.c')):
        for u in vp.expand(vp.load_unit(f)): u['id'] = c + '/' + u['id']; us.append(u)
with ThreadPoolExecutor(8) as ex:
    for i, ok, txt in ex.map(one, us):
        good = ok is False and txt.startswith('exit 0')
        if not good: print(i, ok, txt[-500:])
