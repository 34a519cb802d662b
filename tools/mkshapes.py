#!/usr/bin/env python3
"""Writes harness/src/shapes.rs: for every left-leaning red-black tree (shape and colours) with up to NMAX keys
a sequence of inserts and deletes by rank that reaches it in a textbook LLRB (Sedgewick's 2-3 variant).
The table is only a list of histories: nothing in the checks assumes that the code under test reaches these shapes."""
import sys
NMAX = int(sys.argv[1]) if len(sys.argv) > 1 else 11
class N:
    __slots__ = 'k l r red'.split()
    def __init__(s, k): s.k, s.l, s.r, s.red = k, None, None, True
red = lambda x: x is not None and x.red
def rl(h): x = h.r; h.r = x.l; x.l = h; x.red = h.red; h.red = True; return x
def rr(h): x = h.l; h.l = x.r; x.r = h; x.red = h.red; h.red = True; return x
def fl(h):
    for x in (h, h.l, h.r): x.red = not x.red
def bal(h):
    if red(h.r) and not red(h.l): h = rl(h)
    if red(h.l) and red(h.l.l): h = rr(h)
    if red(h.l) and red(h.r): fl(h)
    return h
def ins(h, k):
    if h is None: return N(k)
    if k < h.k: h.l = ins(h.l, k)
    else: h.r = ins(h.r, k)
    return bal(h)
def mrl(h):
    fl(h)
    if red(h.r.l): h.r = rr(h.r); h = rl(h); fl(h)
    return h
def mrr(h):
    fl(h)
    if red(h.l.l): h = rr(h); fl(h)
    return h
def delmin(h):
    if h.l is None: return None
    if not red(h.l) and not red(h.l.l): h = mrl(h)
    h.l = delmin(h.l); return bal(h)
def dele(h, k):
    if k < h.k:
        if not red(h.l) and not red(h.l.l): h = mrl(h)
        h.l = dele(h.l, k)
    else:
        if red(h.l): h = rr(h)
        if k == h.k and h.r is None: return None
        if not red(h.r) and not red(h.r.l): h = mrr(h)
        if k == h.k:
            m = h.r
            while m.l: m = m.l
            h.k = m.k; h.r = delmin(h.r)
        else: h.r = dele(h.r, k)
    return bal(h)
def run(ops):
    """ops: ('i', x) / ('d', x) with numeric keys"""
    t = None
    for o, x in ops:
        if o == 'i': t = ins(t, x); t.red = False
        else:
            if not red(t.l) and not red(t.r): t.red = True
            t = dele(t, x)
            if t: t.red = False
    return t
def sig(t): return '.' if t is None else '(%s%s%s)' % (sig(t.l), 'r' if t.red else 'b', sig(t.r))
def keys(t): return [] if t is None else keys(t.l) + [t.k] + keys(t.r)
from fractions import Fraction as F
seen = {sig(None): []}
front = [[]]
NX = NMAX + 1
while front:
    nxt = []
    for ops in front:
        ks = keys(run(ops))
        c = []
        if len(ks) < NX:
            e = [ks[0] - 1] if ks else [F(0)]
            for a, b in zip(ks, ks[1:]): e.append((a + b) / 2)
            if ks: e.append(ks[-1] + 1)
            c += [('i', x) for x in e]
        c += [('d', x) for x in ks]
        for o in c:
            n = ops + [o]
            s = sig(run(n))
            if s not in seen: seen[s] = n; nxt.append(n)
    front = nxt
by = {}
for s, ops in seen.items():
    n = len(keys(run(ops)))
    if n <= NMAX: by.setdefault(n, []).append((s, ops))
out = ['//! Generated by tools/mkshapes.py: histories reaching every LLRB shape with up to %d keys.' % NMAX,
       '//! An entry is (number of keys used, operations); operation r >= 0 inserts the key of rank r, r < 0 deletes that of rank -1 - r.',
       'pub static SHAPES: &[&[(u8, &[i8])]] = &[']
for n in sorted(by):
    out.append('    &[')
    for s, ops in sorted(by[n]):
        al = sorted({x for _, x in ops}); rk = {x: i for i, x in enumerate(al)}
        # the final tree must not depend on how temporary keys compare beyond their order
        out.append('        (%d, &[%s]),' % (len(al), ', '.join(str(rk[x] if o == 'i' else -1 - rk[x]) for o, x in ops)))
    out.append('    ],')
out.append('];')
open('/verif/harness/src/shapes.rs', 'w').write('\n'.join(out) + '\n')
print({n: len(v) for n, v in sorted(by.items())}, max(len(o) for v in by.values() for _, o in v))
