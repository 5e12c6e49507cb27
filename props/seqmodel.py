"""Shared specification model for disruptor sequences: rely/guarantee hooks on the atomic cells."""
import z3
from kvc.engine import *
from kvc.cands import *
from kvc import cands as CN

LIM = (1 << 62) - 1
I64MAX = (1 << 63) - 1


def s64(n):
    return fbv(n, 64)


class GatingHook:
    """the consumers' sequences (any number, any aliasing), read concurrently while they advance.
    Rely: they only grow.  Ghost Lj = greatest value known to have been reached by the arbitrary
    but fixed consumer j*; ghost B = the minimum over all of them at entry."""

    def __init__(self, stride):
        self.stride = stride

    def idx(self, p):
        c, t = linform(p.o)
        if c % self.stride or any(k % self.stride for _, k in t.values()):
            raise Unsupported("gating sequence accessed at an unexpected offset")
        return oz(from_lin(c // self.stride, {i: (x, k // self.stride) for i, (x, k) in t.items()}))

    def load(self, eng, s, p, ty, order):
        if ty.kind != 'int' or ty.width != 64:
            raise Unsupported("gating sequence read with another width")
        eng.oblige(s, "consumer sequence is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        i = self.idx(p)
        v = s64('gv')
        q = s.g('qstar')
        s.assume(v >= s.g('B'), v <= bv(LIM), v >= bv(-1))
        hit = simp(i == q)
        s.assume(z3.Implies(hit, v >= s.g('Lj')))
        s.setg('Lj', simp(z3.If(hit, v, s.g('Lj'))))
        return v

    def store(self, eng, s, p, v, ty, order):
        raise Unsupported("gating sequence written")

    cmpxchg = rmw = store


class CursorHook:
    """the shared cursor of the multi producer sequencer (other producers may move it at any time)"""

    def __init__(self, name='cursor', shared=True):
        self.name = name
        self.shared = shared

    def load(self, eng, s, p, ty, order):
        eng.oblige(s, f"{self.name} is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        if self.shared:
            v = s64(self.name)
            s.assume(v >= bv(-1), v <= bv(LIM), v >= s.g('C0'))
            s.setg('Clast', v)
            s.setg('C0', v)
        else:
            v = s.g('C0')
        return v

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, f"{self.name} is published with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        s.setg('C0', v)
        s.setg('Cset', z3.BoolVal(True))
        return None

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        ok, bad = s, s.copy()
        # success: nobody moved the cursor away from e
        ok.assume(e >= ok.g('C0'))
        on_claim = ok.ghost.get('on_claim')
        if on_claim:
            on_claim(eng, ok, e, n)
        ok.setg('casn', ok.g('casn') + bv(1))
        ok.setg('casfrom', e)
        ok.setg('casto', n)
        ok.setg('C0', n)
        v = s64('cfail')
        bad.assume(v >= bad.g('C0'), v <= bv(LIM), v >= bv(-1))
        bad.setg('C0', v)
        return [(ok, 'val', Agg([e, z3.BoolVal(True)])), (bad, 'val', Agg([v, z3.BoolVal(False)]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        if op not in ('add', 'sub'):
            raise Unsupported("cursor rmw " + op)
        old = s64(self.name)
        s.assume(old >= bv(-1), old <= bv(LIM), old >= s.g('C0'))
        n = old + v if op == 'add' else old - v
        on_claim = s.ghost.get('on_claim')
        if on_claim:
            on_claim(eng, s, old, n)
        s.setg('casn', s.g('casn') + bv(1))
        s.setg('casfrom', old)
        s.setg('casto', n)
        s.setg('C0', n)
        return old


class CacheHook:
    """shared lower-bound cache.  Invariant of the cell: value <= every consumer's sequence."""

    def load(self, eng, s, p, ty, order):
        v = s64('cache')
        s.assume(v >= bv(-1), v <= bv(LIM))
        # the cell invariant holds whenever it is read
        s.assume(z3.Implies(s.g('has'), v <= s.g('cell_ub')) if 'cell_ub' in s.ghost else z3.BoolVal(True))
        s.setg('Lj', simp(z3.If(z3.And(s.g('has'), v > s.g('Lj')), v, s.g('Lj'))))
        return v

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "cached lower bound never exceeds any consumer's progress", z3.Implies(s.g('has'), v <= s.g('Lj')), 'inv')
        eng.oblige(s, "cached lower bound is published with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        s.setg('cache_set', z3.BoolVal(True))
        return None

    def cmpxchg(self, *a):
        raise Unsupported("cache cas")

    rmw = cmpxchg


def gating_setup(ctx, s, K=None):
    """consumers: SEQS (values), DATA (vector storage)"""
    stride = ctx.const('c_sizeof_sequence')
    K = K if K is not None else s64('K')
    seqs = s.new_region('SEQS', None, 'input')
    h = GatingHook(stride)
    seqs.hooks = {'*': h}
    data = s.new_region('GDATA', None, 'input')
    perm = z3.Array('perm', BV64, BV64)
    data.segs.append(Seg(0, K, 8, {0: [f'ptr:{seqs.id}:{stride}', 8, perm]}, name='gating'))
    j = s64('jstar')
    s.ghost['jstar'] = j
    s.ghost['qstar'] = z3.Select(perm, j)
    s.ghost['B'] = s64('B')
    s.ghost['Lj'] = s64('L0')
    s.ghost['has'] = z3.ULT(j, K)
    s.ghost['K'] = K
    s.ghost['L0'] = s.ghost['Lj']
    s.assume(z3.ULT(K, bv(1 << 32)), s.g('B') >= bv(-1), s.g('B') <= bv(LIM), s.g('Lj') >= bv(-1), s.g('Lj') <= bv(LIM))
    s.assume(z3.Implies(s.g('has'), s.g('Lj') >= s.g('B')))
    ctx.eng.cand_gens = [scalar_gen(anchors=[('B', lambda st: st.ghost['B']), ('L0', lambda st: st.ghost['L0'])]), min_gen(data.id)]
    return seqs, data, K


def vec_cells(s, rid, off, data, K):
    r = s.wreg(rid)
    r.cells[off] = (8, Ptr(data.id, 0))
    r.cells[off + 8] = (8, Ptr(data.id, K * bv(8)))
    r.cells[off + 16] = (8, Ptr(data.id, K * bv(8)))


def progress(st, g, rid, stride=8):
    """element index denoted by a loop variable: an integer counter, or a pointer into region rid"""
    v = g(st)
    if isinstance(v, Ptr):
        if v.r != rid:
            return None
        c, t = linform(v.o)
        if c % stride or any(k % stride for _, k in t.values()):
            return None
        return oz(from_lin(c // stride, {i: (x, k // stride) for i, (x, k) in t.items()}))
    if z3.is_bv(v) and v.size() == 64:
        return v
    if z3.is_bv(v) and v.size() == 32:
        return z3.SignExt(32, v)
    return None


def min_gen(rid):
    """for every (m, i): consumers already visited are not below m, m never drops below min(entry m, B)"""

    def gen(eng, entry, hs, M, header):
        vs = CN.loop_vars(eng, entry, hs, M)
        out = []
        ints = [(n, g) for n, g, k in vs if k == 64 and not n.startswith('ghost')]
        ps = CN.passes(eng, entry, hs, M, hs.ghost['jstar'], lambda st, g: progress(st, g, rid))
        prog = [(n, g) for n, g, k in vs if k in ('ptr', 64, 32) and not n.startswith('ghost')]
        for n, g in prog:
            if not isinstance(g(hs), Ptr):
                continue

            def bnd(st, g=g):
                i = progress(st, g, rid)
                return None if i is None else z3.ULE(i, st.ghost['K'])

            out.append(Cand(f"{n} within range", bnd))
        for n, g in ints:
            e0 = g(entry)
            out.append(Cand(f"{n} >= min(entry,B)", lambda st, g=g, e0=e0: z3.Or(g(st) >= e0, g(st) >= st.ghost['B'])))
            out.append(Cand(f"{n} in range", lambda st, g=g: z3.And(g(st) >= bv(-1), g(st) <= bv(I64MAX))))
            out.append(Cand(f"no consumer is below {n}", lambda st, g=g: z3.Implies(st.ghost['has'], g(st) <= st.ghost['Lj'])))
            for n2, D in ps:
                CN.implied(out, f"visited consumers >= {n} ({n2})", lambda st, D=D: z3.And(st.ghost['has'], D(st)), lambda st, g=g: g(st) <= st.ghost['Lj'])
        return out

    return gen


def min_post(st, m, m0):
    """contract of the minimum computation: m <= m0, m <= every consumer, m >= min(m0, B)"""
    return [("result <= initial minimum", m <= m0),
            ("result <= every tracked sequence", z3.Implies(st.g('has'), m <= st.g('Lj'))),
            ("result is not below the minimum of the tracked sequences", z3.Or(m >= m0, m >= st.g('B')))]


MINRX = r'disruptor4cpp::util::get_minimum_sequence<[^(]*\(std::vector<.*> const&, long\)'


def min_contract(eng, s, I, args, fn):
    """callee contract for the two-argument minimum; its body is proved in its own unit"""
    m0 = args[1]
    m = s64('min')
    l2 = s64('Lj')
    s.assume(l2 >= s.g('Lj'), l2 <= bv(LIM))
    s.setg('Lj', l2)
    s.assume(*[f for _, f in min_post(s, m, m0)])
    s.assume(m >= bv(-1))
    return m
