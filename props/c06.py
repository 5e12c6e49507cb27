"""C06: ring buffer slots - every sequence has a slot, sequences less than a buffer length apart never share memory"""
import z3
from kvc.check import *
from props.seqmodel import *

HARNESS = 'c06_ring.cpp'


def seg_region(ctx, s, init='undef'):
    r = s.new_region('rb', ctx.const('c_sizeof_rb'), init)
    P = Ptr(r.id, 0)
    ev = ctx.acc('a_events', P).o
    n, st, sz = ctx.const('c_n'), ctx.const('c_stride'), ctx.const('c_sizeof_ev')
    f = {0: ['int', 8, z3.Array('fa', BV64, z3.BitVecSort(64))], 8: ['int', 4, z3.Array('fb', BV64, z3.BitVecSort(32))], 12: ['int', 4, z3.Array('fc', BV64, z3.BitVecSort(32))]}
    for o in range(16, sz, 8):
        f[o] = ['int', 8, z3.Array(f'fd{o}', BV64, z3.BitVecSort(64))]
    r.segs.append(Seg(ev, n, st, f, name='events'))
    an = ctx.const('c_availn')
    if an:
        r.segs.append(Seg(ctx.acc('a_avail', P).o, n, an // n, {0: ['int', an // n, z3.Array('av', BV64, z3.BitVecSort(8 * an // n))]}, name='flags'))
    return P, ev, n, st, sz


def at(ctx, s, fn, P, q):
    outs = ctx.eng.run_fn(s, ctx.fn(fn), [P, q])
    for o in outs:
        if o[0] != 'ret':
            ctx.eng.oblige(o[1], "slot access never throws", False)
    return [(o[1], o[2]) for o in outs if o[0] == 'ret']


def unit_index(ctx):
    e = ctx.eng
    s = ctx.state()
    P, ev, n, stride, sz = seg_region(ctx, s, 'input')
    a, b = s64('a'), s64('b')
    LIMN = bv(LIM)
    s.assume(a >= 0, b >= 0, a <= LIMN, b <= LIMN)
    ctx.cover('precondition', s)
    for st, pa in at(ctx, s, 'h_at', P, a):
        e.oblige(st, "the slot lies inside the buffer", z3.And(z3.BoolVal(pa.r == P.r), z3.UGE(oz(pa.o), bv(ev)), z3.ULE(oz(pa.o), bv(ev + n * stride - sz))))
        e.oblige(st, "the slot is aligned", z3.URem(oz(pa.o) - bv(ev), bv(8)) == bv(0))
        for st1, pc in at(ctx, st.copy(), 'h_cat', P, a):
            e.oblige(st1, "const and non-const access give the same slot", e.ptr_eq(st1, pa, pc))
        for st1, pc in at(ctx, st.copy(), 'h_at', P, a + bv(n)):
            e.oblige(st1, "a slot is reused exactly one buffer length later", e.ptr_eq(st1, pa, pc))
        for st1, pb in at(ctx, st, 'h_at', P, b):
            d = oz(pa.o) - oz(pb.o)
            st1.assume(a != b, a - b < bv(n), b - a < bv(n))
            e.oblige(st1, "sequences less than a buffer length apart never share memory", z3.Or(z3.And(d > 0, d >= bv(sz)), z3.And(d < 0, -d >= bv(sz))))


def loopgen(js, ev, stride):
    def pos(st, g):
        v = g(st)
        if isinstance(v, Ptr):
            c, t = linform(oadd(v.o, -ev))
            c = scval_int(c)
            if c % stride or any(scval_int(k) % stride for _, k in t.values()):
                return None
            return oz(from_lin((c // stride) & M64, {i: (x, (scval_int(k) // stride) & M64) for i, (x, k) in t.items()}))
        return v if z3.is_bv(v) and v.size() == 64 else z3.SignExt(32, v) if z3.is_bv(v) and v.size() == 32 else None

    def gen(eng, entry, hs, M, header):
        out = []
        G = lambda st: st.ghost['cnt']
        J = js
        if ('g', 'cnt') in M:
            for c in (0, 1):
                out.append(Cand(f"cnt=={c}", lambda st, c=c: G(st) == bv(c, 8)))
        for nm, g, k in CN.loop_vars(eng, entry, hs, M):
            if k not in (32, 64) or nm.startswith('ghost'):
                continue
            w = (lambda g, k: lambda st: z3.SignExt(32, g(st)) if k == 32 else g(st))(g, k)
            out.append(Cand(f"{nm} >= 0", lambda st, w=w: w(st) >= 0))
            out.append(Cand(f"{nm} <= n", lambda st, w=w: w(st) <= st.ghost['n']))
        segs = sorted({(k2[0], k2[2]) for k2 in M if len(k2) == 4 and k2[1] == 's'})
        for nm, D in CN.passes(eng, entry, hs, M, J, pos):
            if ('g', 'cnt') in M:
                out.append(Cand(f"initialised once if {nm}", lambda st, D=D: G(st) == z3.If(D(st), bv(1, 8), bv(0, 8))))
            for rid, gi in segs:
                for fo in hs.mem[rid].segs[gi].fields:
                    CN.implied(out, f"slot {fo} set if {nm}", D, lambda st, rid=rid, gi=gi, fo=fo: z3.Select(st.mem[rid].segs[gi].fields[fo][2], J) == st.ghost[f'v{fo}'])
        return out

    return gen


def unit_value(null):
    def run(ctx):
        e = ctx.eng
        s = ctx.state()
        P, ev, n, stride, sz = seg_region(ctx, s)
        v = s.new_region('value', sz, 'input')
        for o in range(0, sz, 8):
            if o == 8:
                continue
            v.cells[o] = (8, fbv(f'v{o}', 64))
        v.cells[8] = (4, fbv('v8', 32))
        v.cells[12] = (4, fbv('v12', 32))
        for o, (z, x) in v.cells.items():
            s.ghost[f'v{o}'] = x
        s.ghost['n'] = bv(n)
        J = s64('J')
        s.assume(J >= 0, J < bv(n))
        e.cand_gens = [scalar_gen(), loopgen(J, ev, stride)]
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn('h_ctor_value'), [P, Ptr(None, 0) if null else Ptr(v.id, 0)]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "construction does not throw", False)
                continue
            e.oblige(st, "construction finishes", True)
            if null:
                continue
            q = s64('q')
            st.assume(q >= 0, q <= bv(LIM), z3.URem(q, bv(n)) == J)
            for st1, p in at(ctx, st, 'h_at', P, q):
                st1.assume(oz(p.o) == bv(ev) + J * bv(stride))
                for fo, f in st1.mem[P.r].segs[0].fields.items():
                    e.oblige(st1, f"every slot starts as a copy of the value (+{fo})", z3.Select(f[2], J) == st.ghost[f'v{fo}'])

    return run


def unit_fn(ctx):
    e = ctx.eng
    s = ctx.state()
    P, ev, n, stride, sz = seg_region(ctx, s)
    s.ghost.update(cnt=bv(0, 8), n=bv(n))
    J = s64('J')
    s.assume(J >= 0, J < bv(n))

    def init(eng, st, I, args, fn):
        p = args[0]
        off = oz(p.o) - bv(ev)
        eng.oblige(st, "the initialiser is given a slot of the buffer", z3.And(z3.BoolVal(p.r == P.r), z3.ULE(off, bv((n - 1) * stride)), z3.URem(off, bv(stride)) == bv(0)))
        hit = off == J * bv(stride)
        eng.oblige(st, "no slot is initialised twice", z3.Implies(hit, st.g('cnt') == bv(0, 8)))
        st.setg('cnt', simp(z3.If(hit, st.g('cnt') + bv(1, 8), st.g('cnt'))))
        return None

    e.contract(r'^kvc_init$', init)
    e.cand_gens = [scalar_gen(), loopgen(J, ev, stride)]
    ctx.cover('precondition', s)
    for o in e.run_fn(s, ctx.fn('h_ctor_fn'), [P]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "construction does not throw", False)
            continue
        e.oblige(st, "every slot is initialised exactly once", st.g('cnt') == bv(1, 8))


UNITS = [Unit('index', unit_index), Unit('ctor_value', unit_value(False)), Unit('ctor_null', unit_value(True)), Unit('ctor_fn', unit_fn)]
CONFIGS = [('N8', ('-DKN=8', '-DKD=1')), ('N2big', ('-DKN=2', '-DKD=15', '-DKP=multi')), ('N1', ('-DKN=1', '-DKD=6')), ('N4096', ('-DKN=4096', '-DKD=7', '-DKP=multi'))]
QUICK_CONFIGS = 4
DRIVERS = [dict(src='d06.cpp', libs=['-lspdlog', '-lfmt', '-lpthread'], secs=2)]
ASSUMPTIONS = ['sequences are between 0 and 2^62', 'event types are trivially copyable in the checked instantiations', 'allocation and placement of the buffer object itself are the caller\'s']
BOUNDED = 'buffers of 1..1024 slots with std::string, vector and packed events, both producer types'
EXPLANATION = 'slot addressing and both initialising constructors, for every sequence up to 2^62 and every slot; buffer sizes and event sizes are the listed configurations'
