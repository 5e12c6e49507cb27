"""C01: the lock free stack hands every element to at most one party, loses none, and is a LIFO

Rely/guarantee.  The two Treiber lists (`head`: elements available, `free`: unused nodes) are abstract
sequences (V updates so far, n members, member sequence); between any two shared accesses other
threads may apply any number of pushes and pops.  Representation: the 32-bit head word is
(V mod 2^16, last member or UNDEF), and the link of the last member is the one before it (or UNDEF).
Every successful CAS of the verified thread must be a push of the node it owns, linked to the current
last member, or a pop of the last member, and must advance the tag by one."""
import z3
from kvc.check import *
from kvc import cands as CN
from kvc.cands import *

HARNESS = 'c01_stack.cpp'
U16 = z3.BitVecSort(16)
UND = bv(65535, 16)
ACQ, REL = ('acquire', 'seq_cst', 'acq_rel'), ('release', 'seq_cst', 'acq_rel')


def top(s, h):
    n, seq = s.g(h + 'n'), s.g(h + 'seq')
    return z3.If(n == bv(0), UND, z3.Select(seq, n - bv(1)))


def below(s, h):
    n, seq = s.g(h + 'n'), s.g(h + 'seq')
    return z3.If(z3.UGT(n, bv(1)), z3.Select(seq, n - bv(2)), UND)


def word(s, h):
    return z3.Concat(top(s, h), z3.Extract(15, 0, s.g(h + 'V')))


def rep(s, h):
    """instances of the representation invariant that the argument needs"""
    n, seq, N = s.g(h + 'n'), s.g(h + 'seq'), s.g('N')
    s.assume(z3.ULE(n, N))
    for k in (1, 2):
        s.assume(z3.Implies(z3.UGE(n, bv(k)), z3.ULT(z3.ZeroExt(48, z3.Select(seq, n - bv(k))), N)))
    s.assume(z3.Implies(z3.UGE(n, bv(2)), z3.Select(seq, n - bv(1)) != z3.Select(seq, n - bv(2))))
    # linear ownership: a node this thread holds is in neither list
    for k in (1, 2):
        s.assume(z3.Implies(z3.And(s.g('own') == bv(1, 8), z3.UGE(n, bv(k))), z3.Select(seq, n - bv(k)) != s.g('mine')))


def env(s, lists='hf'):
    """any number of operations by other threads"""
    for h in lists:
        V, n, seq = s.g(h + 'V'), s.g(h + 'n'), s.g(h + 'seq')
        V2, n2, seq2 = fbv(h + 'V', 64), fbv(h + 'n', 64), fresh(h + 'seq', seq.sort())
        s.assume(z3.UGE(V2, V), z3.Implies(V2 == V, z3.And(n2 == n, seq2 == seq)))
        # bounded-tag assumption: fewer than 2^16 updates of one list between a read of its head and the CAS based on it
        s.assume(z3.ULT(V2 - s.g(h + 'oV'), bv(65536)), z3.ULT(V2, bv(1 << 62)))
        s.setg(h + 'V', V2)
        s.setg(h + 'n', n2)
        s.setg(h + 'seq', seq2)
        if h == 'h':
            d, d2 = s.g('hd'), fresh('hd', s.g('hd').sort())
            s.assume(z3.Implies(V2 == V, d2 == d))
            s.setg('hd', d2)
        rep(s, h)


def observe(s, h):
    s.setg(h + 'oV', s.g(h + 'V'))
    s.setg(h + 'o', word(s, h))
    s.setg(h + 'empty', simp(z3.If(s.g(h + 'n') == bv(0), bv(1, 8), s.g(h + 'empty'))))


class HeadHook:
    def __init__(self, h):
        self.h = h

    def load(self, eng, s, p, ty, order):
        if ty.width != 32:
            raise Unsupported("head word read with another width")
        env(s)
        observe(s, self.h)
        s.setg(self.h + 'acq', bv(1 if order in ACQ else 0, 8))
        return s.g(self.h + 'o')

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "a list head changes only by compare-and-swap", False)
        raise Infeasible()

    def rmw(self, *a):
        raise Unsupported("atomic rmw on a list head")

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        h = self.h
        env(s)
        succ = x[0] if isinstance(x, (tuple, list)) else x
        cur = word(s, h)
        bad = s.copy()
        observe(bad, h)
        bad.setg(h + 'acq', bv(1 if (x[1] if isinstance(x, (tuple, list)) else x) in ACQ else 0, 8))
        outs = [(bad, 'val', Agg([bad.g(h + 'o'), z3.BoolVal(False)]))]
        s.assume(e == cur)
        name = {'h': 'element list', 'f': 'free list'}[h]
        eng.oblige(s, f"{name}: every update advances the tag by one", z3.Extract(15, 0, n) == z3.Extract(15, 0, cur) + bv(1, 16))
        for st, b in eng.branch(s, s.g('own') == bv(1, 8)):
            V, nn, seq = st.g(h + 'V'), st.g(h + 'n'), st.g(h + 'seq')
            if b:
                m = st.g('mine')
                eng.oblige(st, f"{name}: push adds exactly the node the caller owns", z3.Extract(31, 16, n) == m)
                eng.oblige(st, f"{name}: the pushed node links to the current top", z3.Select(st.g('link')(st), z3.ZeroExt(48, m)) == top(st, h))
                eng.oblige(st, f"{name}: push releases the node's content", succ in REL, 'order')
                if h == 'h':
                    eng.oblige(st, "the element is stored before it is pushed", z3.And(st.g('wrote') == bv(1, 8), z3.Select(st.g('datav')(st), z3.ZeroExt(48, m)) == st.g('arg')))
                    st.setg('hd', z3.Store(st.g('hd'), nn, z3.Select(st.g('datav')(st), z3.ZeroExt(48, m))))
                else:
                    eng.oblige(st, "the element is taken out before its node is recycled", st.g('read') == bv(1, 8))
                st.setg(h + 'seq', z3.Store(seq, nn, m))
                st.setg(h + 'n', nn + bv(1))
                st.setg(h + 'push', st.g(h + 'push') + bv(1, 8))
                st.setg('own', bv(0, 8))
            else:
                eng.oblige(st, f"{name}: only a non-empty list is popped", nn != bv(0))
                st.assume(nn != bv(0))
                eng.oblige(st, f"{name}: pop makes exactly the next member the new top", z3.Extract(31, 16, n) == below(st, h))
                eng.oblige(st, f"{name}: pop acquires the node's content", succ in ACQ, 'order')
                m = z3.Select(seq, nn - bv(1))
                st.setg('mine', simp(m))
                st.setg('own', bv(1, 8))
                st.setg(h + 'n', nn - bv(1))
                st.setg(h + 'pop', st.g(h + 'pop') + bv(1, 8))
                if h == 'h':
                    v = z3.Select(st.g('hd'), nn - bv(1))
                    st.setg('val', v)
                    st.assume(z3.Select(st.g('datav')(st), z3.ZeroExt(48, m)) == v)
            st.setg(h + 'V', V + bv(1))
            outs.append((st, 'val', Agg([e, z3.BoolVal(True)])))
        return outs


class LinkHook:
    """next[] links: a node in a list is linked below its predecessor; its owner alone writes it"""

    def idx(self, p):
        c, t = linform(p.o)
        if c % 2 or any(k % 2 for _, k in t.values()):
            raise Unsupported("link accessed at an unexpected offset")
        return oz(from_lin(c // 2, {i: (x, k // 2) for i, (x, k) in t.items()}))

    def load(self, eng, s, p, ty, order):
        i = self.idx(p)
        eng.load(s, p, ty)  # bounds
        s.assume(z3.ULT(i, s.g('N')))
        env(s)
        v = fbv('link', 16)
        own = z3.And(s.g('own') == bv(1, 8), z3.ZeroExt(48, s.g('mine')) == i)
        s.assume(z3.Implies(own, v == z3.Select(s.g('link')(s), i)))
        for h in 'hf':
            # without acquiring the head first, the link of its top need not be visible
            s.assume(z3.Implies(z3.And(s.g(h + 'acq') == bv(1, 8), s.g(h + 'n') != bv(0), z3.ZeroExt(48, top(s, h)) == i), v == below(s, h)))
        return v

    def store(self, eng, s, p, v, ty, order):
        i = self.idx(p)
        eng.oblige(s, "a link is written only by the thread that owns the node", z3.And(s.g('own') == bv(1, 8), z3.ZeroExt(48, s.g('mine')) == i))
        env(s)
        eng.store(s, p, v, ty)
        return None

    def cmpxchg(self, *a):
        raise Unsupported("link rmw")

    rmw = cmpxchg


class DataHook:
    def idx(self, p):
        c, t = linform(p.o)
        if c % 8 or any(k % 8 for _, k in t.values()):
            raise Unsupported("element accessed at an unexpected offset")
        return oz(from_lin(c // 8, {i: (x, k // 8) for i, (x, k) in t.items()}))

    def own(self, eng, s, p, what):
        eng.oblige(s, f"an element is {what} only while its node is owned", z3.And(s.g('own') == bv(1, 8), z3.ZeroExt(48, s.g('mine')) == self.idx(p)))

    def load(self, eng, s, p, ty, order):
        self.own(eng, s, p, 'read')
        s.setg('read', bv(1, 8))
        return eng.load(s, p, ty)

    def store(self, eng, s, p, v, ty, order):
        self.own(eng, s, p, 'written')
        s.setg('wrote', bv(1, 8))
        eng.store(s, p, v, ty)
        return None

    def cmpxchg(self, *a):
        raise Unsupported("element rmw")

    rmw = cmpxchg


def setup(ctx):
    e = ctx.eng
    s = ctx.state()
    N = fbv('N', 64)
    s.assume(z3.ULE(N, bv(65535)))
    nodes = s.new_region('nodes', None, 'input')
    nodes.segs.append(Seg(0, N, ctx.const('c_sizeof_node'), {0: ['int', 2, z3.Array('link', BV64, U16)]}, name='links'))
    nodes.hooks = {'*': LinkHook()}
    data = s.new_region('data', None, 'input')
    data.segs.append(Seg(0, N, 8, {0: ['int', 8, z3.Array('data', BV64, BV64)]}, name='elements'))
    data.hooks = {'*': DataHook()}
    nid, did = nodes.id, data.id
    st = s.new_region('stack', ctx.const('c_sizeof_st'), 'input')
    P = Ptr(st.id, 0)
    off = {n: ctx.acc('a_' + n, P).o for n in ('buf_ptr', 'buf', 'head', 'free', 'data')}
    st.cells[off['buf_ptr']] = (8, Ptr(nid, 0))
    st.cells[off['buf']] = (8, Ptr(nid, 0))
    st.cells[off['data']] = (8, Ptr(did, 0))
    st.cells[off['data'] + 8] = (8, Ptr(did, N * bv(8)))
    st.cells[off['data'] + 16] = (8, Ptr(did, N * bv(8)))
    st.hooks = {off['head']: HeadHook('h'), off['free']: HeadHook('f')}
    s.ghost.update(N=N, own=bv(0, 8), mine=bv(0, 16), arg=fbv('arg', 64), val=fbv('val', 64), wrote=bv(0, 8), read=bv(0, 8),
                   hd=z3.Array('hd', BV64, BV64))
    for h in 'hf':
        s.ghost.update({h + 'V': fbv(h + 'V', 64), h + 'n': fbv(h + 'n', 64), h + 'seq': z3.Array(h + 'seq', BV64, U16), h + 'oV': bv(0), h + 'o': bv(0, 32),
                        h + 'empty': bv(0, 8), h + 'push': bv(0, 8), h + 'pop': bv(0, 8), h + 'acq': bv(0, 8)})
        s.ghost[h + 'oV'] = s.g(h + 'V')
        s.ghost[h + 'o'] = word(s, h)
        rep(s, h)
    s.ghost['link'] = lambda x: x.mem[nid].segs[0].fields[0][2]
    s.ghost['datav'] = lambda x: x.mem[did].segs[0].fields[0][2]
    e.cand_gens = [gen]
    return s, P


def gen(eng, entry, hs, M, header):
    out = []
    for h in 'hf':
        for k in ('oV', 'o', 'V'):
            pass
        out.append(Cand(f"{h}: observed no later than now", lambda st, h=h: z3.And(z3.ULE(st.ghost[h + 'oV'], st.ghost[h + 'V']), z3.ULT(st.ghost[h + 'V'], bv(1 << 62)))))
        out.append(Cand(f"{h}: tag window", lambda st, h=h: z3.ULT(st.ghost[h + 'V'] - st.ghost[h + 'oV'], bv(65536))))
        out.append(Cand(f"{h}: observed word is current while no update happened", lambda st, h=h: z3.Implies(st.ghost[h + 'oV'] == st.ghost[h + 'V'], st.ghost[h + 'o'] == word(st, h))))
        out.append(Cand(f"{h}: tag of the observed word", lambda st, h=h: z3.Extract(15, 0, st.ghost[h + 'o']) == z3.Extract(15, 0, st.ghost[h + 'oV'])))
        out.append(Cand(f"{h}: observed index in range", lambda st, h=h: z3.Or(z3.Extract(31, 16, st.ghost[h + 'o']) == UND, z3.ULT(z3.ZeroExt(48, z3.Extract(31, 16, st.ghost[h + 'o'])), st.ghost['N']))))
        out.append(Cand(f"{h}: empty seen if observed empty", lambda st, h=h: z3.Implies(z3.Extract(31, 16, st.ghost[h + 'o']) == UND, st.ghost[h + 'empty'] == bv(1, 8))))
        for k in ('acq', 'empty', 'push', 'pop'):
            if ('g', h + k) in M:
                for c in (0, 1):
                    out.append(Cand(f"{h}{k}=={c}", lambda st, h=h, k=k, c=c: st.ghost[h + k] == bv(c, 8)))
        for i, x in enumerate(rep_facts(hs, h)):
            out.append(Cand(f"{h}: rep {i}", lambda st, h=h, i=i: rep_facts(st, h)[i]))
    for k in ('own', 'wrote', 'read'):
        if ('g', k) in M:
            for c in (0, 1):
                out.append(Cand(f"{k}=={c}", lambda st, k=k, c=c: st.ghost[k] == bv(c, 8)))
    for k in ('mine', 'val', 'arg'):
        if ('g', k) in M:
            e0 = entry.ghost[k]
            out.append(Cand(f"{k} unchanged", lambda st, k=k, e0=e0: st.ghost[k] == e0))
    if ('g', 'val') in M or True:
        out.append(Cand("owned element holds the popped value", lambda st: z3.Implies(st.ghost['own'] == bv(1, 8), z3.Select(st.ghost['datav'](st), z3.ZeroExt(48, st.ghost['mine'])) == st.ghost['val'])))
        out.append(Cand("owned element holds the argument", lambda st: z3.Implies(st.ghost['own'] == bv(1, 8), z3.Select(st.ghost['datav'](st), z3.ZeroExt(48, st.ghost['mine'])) == st.ghost['arg'])))
    for n, g, kd in CN.loop_vars(eng, entry, hs, M):
        if n.startswith('ghost'):
            continue
        for h in 'hf':
            if kd == 32:
                out.append(Cand(f"{n} is the observed word of {h}", lambda st, g=g, h=h: g(st) == st.ghost[h + 'o']))
            if kd == 16:
                out.append(Cand(f"{n} is the observed tag of {h}", lambda st, g=g, h=h: g(st) == z3.Extract(15, 0, st.ghost[h + 'o'])))
                out.append(Cand(f"{n} is the observed index of {h}", lambda st, g=g, h=h: g(st) == z3.Extract(31, 16, st.ghost[h + 'o'])))
    return out


def rep_facts(s, h):
    n, seq, N = s.g(h + 'n'), s.g(h + 'seq'), s.g('N')
    fs = [z3.ULE(n, N)]
    for k in (1, 2):
        fs.append(z3.Implies(z3.UGE(n, bv(k)), z3.ULT(z3.ZeroExt(48, z3.Select(seq, n - bv(k))), N)))
        fs.append(z3.Implies(z3.And(s.g('own') == bv(1, 8), z3.UGE(n, bv(k))), z3.Select(seq, n - bv(k)) != s.g('mine')))
    fs.append(z3.Implies(z3.UGE(n, bv(2)), z3.Select(seq, n - bv(1)) != z3.Select(seq, n - bv(2))))
    return fs


def unit_push(which):
    def run(ctx):
        e = ctx.eng
        s, P = setup(ctx)
        if which == 'h_push_move':
            a = s.new_region('arg', 8)
            a.cells[0] = (8, s.g('arg'))
            args = [P, Ptr(a.id, 0)]
        else:
            args = [P, s.g('arg')]
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(which), args):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "push never throws", False)
                continue
            r = o[2]
            e.oblige(st, "push keeps no node to itself", st.g('own') == bv(0, 8))
            e.oblige(st, "a successful push moves one node from the free list to the element list",
                     z3.Implies(r, z3.And(st.g('hpush') == bv(1, 8), st.g('fpop') == bv(1, 8), st.g('hpop') == bv(0, 8), st.g('fpush') == bv(0, 8))))
            e.oblige(st, "a failed push changes nothing",
                     z3.Implies(z3.Not(r), z3.And(st.g('hpush') == bv(0, 8), st.g('fpop') == bv(0, 8), st.g('hpop') == bv(0, 8), st.g('fpush') == bv(0, 8), st.g('wrote') == bv(0, 8))))
            e.oblige(st, "push fails only if no node was free", z3.Implies(z3.Not(r), st.g('fempty') == bv(1, 8)))

    return run


def unit_pop(ctx):
    e = ctx.eng
    s, P = setup(ctx)
    a = s.new_region('out', 8)
    o0 = fbv('out0', 64)
    a.cells[0] = (8, o0)
    aid = a.id
    ctx.cover('precondition', s)
    for o in e.run_fn(s, ctx.fn('h_pop'), [P, Ptr(aid, 0)]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "pop never throws", False)
            continue
        r = o[2]
        out = st.mem[aid].cells[0][1]
        e.oblige(st, "pop keeps no node to itself", st.g('own') == bv(0, 8))
        e.oblige(st, "a successful pop moves one node from the element list to the free list",
                 z3.Implies(r, z3.And(st.g('hpop') == bv(1, 8), st.g('fpush') == bv(1, 8), st.g('hpush') == bv(0, 8), st.g('fpop') == bv(0, 8))))
        e.oblige(st, "a successful pop returns the element that was on top", z3.Implies(r, out == st.g('val')))
        e.oblige(st, "a failed pop changes nothing",
                 z3.Implies(z3.Not(r), z3.And(st.g('hpush') == bv(0, 8), st.g('fpop') == bv(0, 8), st.g('hpop') == bv(0, 8), st.g('fpush') == bv(0, 8), out == o0)))
        e.oblige(st, "pop fails only if no element was available", z3.Implies(z3.Not(r), st.g('hempty') == bv(1, 8)))


def unit_ctor(which):
    def run(ctx):
        e = ctx.eng
        s = ctx.state()
        st0 = s.new_region('stack', ctx.const('c_sizeof_st'), 'undef')
        P = Ptr(st0.id, 0)
        off = {n: ctx.acc('a_' + n, P).o for n in ('buf_ptr', 'buf', 'head', 'free', 'data')}
        N, J = fbv('cap', 64), fbv('j', 64)
        s.assume(z3.ULT(J, N))
        s.ghost.update(cnt=bv(0, 8), N=N)
        hid = {}

        def new_arr(eng, st, I, args, fn):
            r = st.new_region('nodes', None)
            n = z3.LShR(args[0], bv(1))
            st.assume(args[0] == n + n)
            r.segs.append(Seg(0, n, 2, {0: ['int', 2, z3.Array('link', BV64, U16)]}, name='links'))
            hid['n'] = r.id
            return Ptr(r.id, 0)

        def resize(eng, st, I, args, fn):
            v = args[0]
            eng.oblige(st, "there is one element per node", args[1] == N)
            r = st.new_region('data', None)
            r.segs.append(Seg(0, args[1], 8, {0: ['int', 8, z3.K(BV64, bv(0))]}, name='elements'))
            eng.cell_store(st, v.r, v.o, 8, Ptr(r.id, 0))
            eng.cell_store(st, v.r, v.o + 8, 8, Ptr(r.id, args[1] * bv(8)))
            eng.cell_store(st, v.r, v.o + 16, 8, Ptr(r.id, args[1] * bv(8)))
            hid['d'] = r.id
            return None

        def init(eng, st, I, args, fn):
            p = args[0]
            eng.oblige(st, "the initialiser gets an element of the stack", p.r == hid.get('d'))
            i = z3.LShR(oz(p.o), bv(3))
            eng.oblige(st, "the initialiser gets a whole element inside the stack", z3.And(oz(p.o) == (i << bv(3)), z3.ULT(i, N)))
            st.setg('cnt', simp(z3.If(i == J, st.g('cnt') + bv(1, 8), st.g('cnt'))))
            return None

        e.contract(r'^operator new\[\]\(unsigned long\)$', new_arr)
        e.contract(r'^std::vector<long, .*>::resize\(unsigned long\)$', resize)
        e.contract(r'^cb_init$', init)

        def lgen(eng, entry, hs, M, header):
            out = []
            L = lambda st: st.mem[hid['n']].segs[0].fields[0][2]
            for n, g, kd in CN.loop_vars(eng, entry, hs, M):
                if kd != 64 or n.startswith('ghost'):
                    continue
                out.append(Cand(f"{n} <= N", lambda st, g=g: z3.ULE(g(st), N)))
                out.append(Cand(f"{n} <= N-1", lambda st, g=g: z3.ULE(g(st), N - bv(1))))
            for n, D in CN.passes(eng, entry, hs, M, J):
                CN.implied(out, f"linked if {n}", D, lambda st: z3.Select(L(st), J) == z3.Extract(15, 0, J + bv(1)))
                CN.implied(out, f"linked or last if {n}", D, lambda st: z3.Select(L(st), J) == z3.If(J == N - bv(1), UND, z3.Extract(15, 0, J + bv(1))))
                out.append(Cand(f"initialised once if {n}", lambda st, D=D: st.ghost['cnt'] == z3.If(D(st), bv(1, 8), bv(0, 8))))
            out.append(Cand("cnt 0", lambda st: st.ghost['cnt'] == bv(0, 8)))
            return out

        e.cand_gens = [scalar_gen(), lgen]
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(which), [P, N]):
            st = o[1]
            if o[0] == 'throw':
                e.oblige(st, "only a capacity beyond 65535 is refused", z3.And(z3.UGT(N, bv(65535)), z3.BoolVal(o[2][1] == '_ZTISt12length_error')))
                continue
            check_ctor(e, st, P, off, hid, N, J, which)
        # empty stack
        s = ctx.state()
        st0 = s.new_region('stack', ctx.const('c_sizeof_st'), 'undef')
        P = Ptr(st0.id, 0)
        N = J = bv(0)
        s.ghost.update(cnt=bv(0, 8), N=N)
        for o in e.run_fn(s, ctx.fn(which), [P, N]):
            st = o[1]
            if o[0] == 'throw':
                e.oblige(st, "capacity 0 is accepted", False)
                continue
            w = lambda k: e.load(st, P.add(off[k]), I32)
            e.oblige(st, "a stack of capacity 0 is empty", z3.Extract(31, 16, w('head')) == UND)
            e.oblige(st, "a stack of capacity 0 has no free node", z3.Extract(31, 16, w('free')) == UND)

    return run


class _I32:
    kind, size, width = 'int', 4, 32


I32 = _I32()


def check_ctor(e, st, P, off, hid, N, J, which):
    w = lambda k: e.load(st, P.add(off[k]), I32)
    L = st.mem[hid['n']].segs[0].fields[0][2]
    r = st.mem[P.r]
    e.oblige(st, "a capacity is accepted only if it can be indexed", z3.ULE(N, bv(65535)))
    e.oblige(st, "a new stack holds all its elements: the list starts at the first node", z3.Extract(31, 16, w('head')) == bv(0, 16))
    e.oblige(st, "a new stack holds all its elements: every node links to the next, the last ends the list",
             z3.Select(L, J) == z3.If(J == N - bv(1), UND, z3.Extract(15, 0, J + bv(1))))
    e.oblige(st, "a new stack has no free node", z3.Extract(31, 16, w('free')) == UND)
    if which == 'h_ctor':
        e.oblige(st, "every element is initialised exactly once", st.g('cnt') == bv(1, 8))
    b1, b2 = r.cells[off['buf_ptr']][1], r.cells[off['buf']][1]
    e.oblige(st, "nodes are the allocated buffer", isinstance(b1, Ptr) and isinstance(b2, Ptr) and b1.r == b2.r == hid['n'] and b1.o == b2.o == 0)


def unit_lemma(ctx):
    """counting lemma over the contracts above: the four list updates, in any order by any threads, keep
    free + held-by-pushers == outside; so whoever returns an element it took finds a free node"""
    e = ctx.eng
    s = ctx.state()
    v = {k: fbv(k, 64) for k in ('H', 'F', 'tp', 'tq', 'out')}  # in list, free, held by pushers, held by poppers, elements outside
    N = fbv('N', 64)
    inv = lambda x: z3.And(x['F'] + x['tp'] == x['out'], x['H'] + x['F'] + x['tp'] + x['tq'] == N, z3.ULE(x['tp'], x['out']),
                           *[z3.ULE(x[k], N) for k in x], z3.ULE(N, bv(65535)))
    z = dict(H=N, F=bv(0), tp=bv(0), tq=bv(0), out=bv(0))
    e.oblige(s, "initially: every node is in the element list", z3.Implies(z3.ULE(N, bv(65535)), inv(z)))
    s.assume(inv(v))
    ctx.cover('invariant', s)
    one = bv(1)
    up = lambda **k: {**v, **k}
    steps = {'pop takes a node from the element list': (z3.UGT(v['H'], bv(0)), up(H=v['H'] - one, tq=v['tq'] + one)),
             'pop recycles its node and returns the element': (z3.UGT(v['tq'], bv(0)), up(tq=v['tq'] - one, F=v['F'] + one, out=v['out'] + one)),
             'push takes a free node': (z3.And(z3.UGT(v['F'], bv(0)), z3.ULT(v['tp'], v['out'])), up(F=v['F'] - one, tp=v['tp'] + one)),
             'push inserts its node': (z3.UGT(v['tp'], bv(0)), up(tp=v['tp'] - one, H=v['H'] + one, out=v['out'] - one))}
    for n, (g, x) in steps.items():
        e.oblige(s, f"counting invariant preserved: {n}", z3.Implies(g, inv(x)))
    e.oblige(s, "an element taken from the stack can always be put back", z3.Implies(z3.ULT(v['tp'], v['out']), z3.UGT(v['F'], bv(0))))


UNITS = [Unit('lemma: elements can be put back', unit_lemma), Unit('push copy', unit_push('h_push')), Unit('push move', unit_push('h_push_move')), Unit('pop', unit_pop),
         Unit('constructor', unit_ctor('h_ctor')), Unit('constructor, no initialiser', unit_ctor('h_ctor_null'))]
DRIVERS = [dict(src='d01.cpp', secs=4, libs=['-lpthread', '-latomic']), dict(src='d01.cpp', secs=4, libs=['-lpthread', '-latomic'], san=TSAN)]
ASSUMPTIONS = ['fewer than 2^16 updates of one list happen between a thread reading its head and its compare-and-swap (the 16-bit tag does not lap)',
               'elements are plain values in the proof (T = long); assignment of T is the type\'s own business',
               'memory is exhausted never (allocation failure not modelled)', 'lock-freedom / termination is not proved',
               'the argument about visibility of links uses the C++11 release/acquire model: every head update is an acquire-release read-modify-write, the head that leads to a link is acquired']
BOUNDED = 'sequential histories against a LIFO model for capacities 0..12 and around 2^8, 2^15, 2^16; concurrent histories of 2..6 threads on 1..4 elements with per-element ownership checks, also under ThreadSanitizer'
EXPLANATION = 'push, pop and the constructor for every capacity, every abstract list content and any number of concurrent operations by other threads at every shared access'
