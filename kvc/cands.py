"""Candidate loop invariants (Houdini templates).  Candidates are instantiated over every scalar the
loop modifies, whatever its name, so renaming or re-arranging a loop does not need new annotations."""
import z3
from .engine import *


class Cand:
    __slots__ = ('f', 'name', 'strong')

    def __init__(self, name, f, strong=False):
        self.name = name
        self.f = f
        self.strong = strong

    def __call__(self, st):
        try:
            return self.f(st)
        except KeyError:
            return None


def cell(rid, off, size):
    def get(st):
        r = st.mem.get(rid)
        if r is None:
            raise KeyError(rid)
        c = r.cells.get(off)
        if c is None or c[0] != size:
            raise KeyError(off)
        return c[1]

    return get


def loop_vars(eng, entry, hs, M):
    """(name, getter, kind) for every modified cell that is initialised at the header"""
    out = []
    for k in sorted(M, key=str):
        if len(k) == 4 and k[1] == 'c':
            g = cell(k[0], k[2], k[3])
            try:
                v0, v = g(entry), g(hs)
            except KeyError:
                continue
            nm = f"{k[0].split('#')[0]}+{k[2]}"
            if isinstance(v, Ptr):
                out.append((nm, g, 'ptr'))
            elif isinstance(v, Opaque) or isinstance(v0, Opaque):
                continue
            else:
                out.append((nm, g, v.size()))
        elif k[0] == 'g':
            v = hs.ghost.get(k[1])
            if z3.is_bv(v):
                out.append(('ghost ' + str(k[1]), (lambda key: lambda st: st.ghost[key])(k[1]), v.size()))
    for J in hs.frames[-1].blk.insts:
        if J.op == 'phi':
            v = hs.frames[-1].locs.get(J.ref)
            if z3.is_bv(v):
                out.append((f"phi", (lambda ref: lambda st: st.frames[-1].locs[ref])(J.ref), v.size()))
    return out


def frame_terms(eng, entry, hs, M, nframes=3):
    out = []
    seen = set()
    mod = {(k[0], k[2]) for k in M if len(k) == 4 and k[1] == 'c'}
    for f in hs.frames[-nframes:]:
        for rid in f.allocas:
            r = hs.mem.get(rid)
            if r is None:
                continue
            for off, (sz, v) in r.cells.items():
                if (rid, off) in mod:
                    continue
                key = v.get_id() if z3.is_expr(v) else (repr(v))
                if key in seen or isinstance(v, Opaque):
                    continue
                seen.add(key)
                nm = f"{r.name}+{off}"
                if isinstance(v, Ptr):
                    out.append((nm, cell(rid, off, sz), 'ptr'))
                elif z3.is_bv(v):
                    out.append((nm, cell(rid, off, sz), v.size()))
    return out


def passes(eng, entry, hs, M, idx, pos=None):
    """[(name, st -> 'element idx lies behind the loop')] for every counter (or position) the loop changes, upwards and
    downwards, inclusive or not; pos(st, getter): the 64 bit index denoted by a loop variable, None if it is none"""
    def default(st, g):
        v = g(st)
        return v if z3.is_bv(v) and v.size() == 64 else z3.SignExt(32, v) if z3.is_bv(v) and v.size() == 32 else None

    pos = pos or default
    out = []
    for n, g, k in loop_vars(eng, entry, hs, M):
        if n.startswith('ghost') or pos(hs, g) is None:
            continue
        for d in (0, -1, 1):
            out.append((f"{n}{d:+} past", lambda st, g=g, d=d: idx < pos(st, g) + bv(d)))
        for d in (0, -1):
            out.append((f"{n}{d:+} past (down)", lambda st, g=g, d=d: idx > pos(st, g) + bv(d)))
    return out


def implied(out, name, D, F):
    """add the candidate D => F, skipping it where the loop variable denotes no index"""
    out.append(Cand(name, lambda st: z3.Implies(D(st), F(st))))


def scalar_gen(anchors=(), nframes=3, consts=(0, -1, 1)):
    """anchors: list of (name, st->expr)"""

    def gen(eng, entry, hs, M, header):
        vs = loop_vars(eng, entry, hs, M)
        ts = frame_terms(eng, entry, hs, M, nframes)
        out = []

        def add(n, f):
            out.append(Cand(n, f))

        anch = []
        for n, f in anchors:
            try:
                x = f(hs)
            except (KeyError, AttributeError, TypeError):
                continue
            if x is not None and z3.is_bv(x):
                anch.append((n, f, x.size()))
        for i, (n, g, k) in enumerate(vs):
            others = [t for j, t in enumerate(vs) if j != i] + ts + anch
            if k == 'ptr':
                p0 = g(hs)
                e0 = g(entry)
                if isinstance(e0, Ptr) and e0.r == p0.r:
                    add(f"{n} >= entry", lambda st, g=g, e0=e0: z3.UGE(oz(g(st).o), oz(e0.o)))
                    add(f"{n} <= entry", lambda st, g=g, e0=e0: z3.ULE(oz(g(st).o), oz(e0.o)))
                for n2, g2, k2 in others:
                    if k2 != 'ptr':
                        continue
                    try:
                        q = g2(hs)
                    except KeyError:
                        continue
                    if not isinstance(q, Ptr) or q.r != p0.r:
                        continue
                    add(f"{n} <= {n2}", lambda st, g=g, g2=g2: z3.ULE(oz(g(st).o), oz(g2(st).o)))
                    add(f"{n} >= {n2}", lambda st, g=g, g2=g2: z3.UGE(oz(g(st).o), oz(g2(st).o)))
                    add(f"{n} == {n2}", lambda st, g=g, g2=g2: oz(g(st).o) == oz(g2(st).o))
                # progress counter of the havocked pointer
                continue
            w = k
            e0 = g(entry)
            add(f"{n} == entry", lambda st, g=g, e0=e0: g(st) == e0)
            add(f"{n} >=s entry", lambda st, g=g, e0=e0: g(st) >= e0)
            add(f"{n} <=s entry", lambda st, g=g, e0=e0: g(st) <= e0)
            add(f"{n} >=u entry", lambda st, g=g, e0=e0: z3.UGE(g(st), e0))
            add(f"{n} <=u entry", lambda st, g=g, e0=e0: z3.ULE(g(st), e0))
            for c in consts:
                add(f"{n} >=s {c}", lambda st, g=g, c=c, w=w: g(st) >= bv(c, w))
                add(f"{n} <=s {c}", lambda st, g=g, c=c, w=w: g(st) <= bv(c, w))
            if w == 8:
                continue
            for n2, g2, k2 in others:
                if k2 != w:
                    continue
                add(f"{n} == {n2}", lambda st, g=g, g2=g2: g(st) == g2(st))
                add(f"{n} <=s {n2}", lambda st, g=g, g2=g2: g(st) <= g2(st))
                add(f"{n} >=s {n2}", lambda st, g=g, g2=g2: g(st) >= g2(st))
                add(f"{n} <=u {n2}", lambda st, g=g, g2=g2: z3.ULE(g(st), g2(st)))
                add(f"{n} <=s {n2}+1", lambda st, g=g, g2=g2, w=w: g(st) <= g2(st) + bv(1, w))
        return out

    return gen
