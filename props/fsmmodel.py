"""Objects of the state machine over the abstract strings, lists and maps of kvc.stl"""
import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import *

HARNESS = 'c08_fsm.cpp'
A64 = z3.ArraySort(BV64, BV64)
arr = lambda n: fresh(n, A64)
NSP = '_ZTVN4kpsr3fsm'


class Fsm:
    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = S = Stl(ctx, s)
        self.nt, self.ns = ctx.const('c_sizeof_trans'), ctx.const('c_sizeof_state')
        P0 = lambda a: self.off(a)
        # transitions
        r = s.new_region('transobj', None)
        self.DE, self.EV = arr('DEST'), arr('EVENT')
        r.segs.append(Seg(0, bv(1 << 40), self.nt, {0: ['const', 8, None, Ptr('@' + NSP + '14TransitionImplE', 16)], P0('a_tdest'): ['int', 8, self.DE], P0('a_tev'): ['int', 8, self.EV]}, name='transobj'))
        self.tr = r.id
        self.TO = arr('TOBJ')
        self.elT = S.elem_type('T', r'shared_ptr<kpsr::fsm::Transition', 16, {0: [f'ptr:{r.id}:{self.nt}', 8, self.TO], 8: ['opaque', 8, None]}, self.tok_t)
        # states
        r = s.new_region('stateobj', None)
        self.SID, self.SL = arr('STATEID'), arr('STRANS')
        r.segs.append(Seg(0, bv(1 << 40), self.ns, {0: ['const', 8, None, Ptr('@' + NSP + '9StateImplE', 16)], P0('a_sid'): ['int', 8, self.SID], P0('a_strans'): [S.list_kind(self.elT), 8, self.SL]}, name='stateobj'))
        self.so = r.id
        self.SO = arr('SOBJ')
        self.elS = S.elem_type('S', r'shared_ptr<kpsr::fsm::State(?!Machine)', 16, {0: [f'ptr:{r.id}:{self.ns}', 8, self.SO], 8: ['opaque', 8, None]}, self.tok_s)
        fn = ctx.const('c_sizeof_fn')
        self.OF, self.AF = arr('OBS'), arr('ACT')
        tf = lambda st, p: [S.fget(st, p)]
        self.elO = S.elem_type('O', r'function<void \(.*, bool\)>', fn, {0: ['int', 8, self.OF]}, tf)
        self.elA = S.elem_type('A', r'function<void \(.*const&\)>', fn, {0: ['int', 8, self.AF]}, tf)
        e.cand_gens = [scalar_gen(), self.gen]
        self.extra = []

    def off(self, acc):
        """offset of a member (objects are addressed from their start)"""
        q = self.s.new_region('probe', 4096)
        return self.ctx.acc(acc, Ptr(q.id, 0)).o

    def tok_t(self, st, p):
        o = self.e.load(st, p, PT)
        return [self.S.sget(st, o.add(self.off('a_tdest'))), self.S.sget(st, o.add(self.off('a_tev')))]

    def tok_s(self, st, p):
        o = self.e.load(st, p, PT)
        return [self.S.sget(st, o.add(self.off('a_sid'))), self.S.vget(st, o.add(self.off('a_strans')), self.elT)]

    def str(self, name, v=None, st=None):
        st = st or self.s
        v = self.S.fresh_id(st) if v is None else v
        r = st.new_region(name, 32)
        r.cells[0] = (8, v)
        return Ptr(r.id, 0), v

    def func(self, name):
        r = self.s.new_region(name, 32)
        v = fbv(name, 64)
        r.cells[0] = (8, v)
        return Ptr(r.id, 0), v

    # ---- the machine
    def machine(self, fresh_object=False):
        s, e, S, ctx = self.s, self.e, self.S, self.ctx
        r = s.new_region('machine', ctx.const('c_sizeof_sm'), 'undef')
        self.P = P = Ptr(r.id, 0)
        self.KO = arr('KEYSTATE')
        self.map = S.map_at_obj(s, P.add(self.off('a_table')), 'table', {0: [f'ptr:{self.so}:{self.ns}', 8, self.KO], 8: ['opaque', 8, None]}, 16, lambda st: [(0, Ptr(self.so, 0), PT)])
        self.q = S.queue_at(s, P.add(self.off('a_queue')), 'q')
        if fresh_object:
            return P
        e.store(s, P, Ptr('@' + NSP + '16StateMachineImplE', 16), PT)
        self.idv, self.ini, self.cur0 = S.fresh_id(s), S.fresh_id(s), S.fresh_id(s)
        self.at('a_id', self.idv)
        self.at('a_initial', self.ini)
        self.at('a_current', self.cur0)
        b = fbv('started', 1)
        self.started0 = b
        e.store(s, P.add(self.off('a_started')), z3.If(b, bv(1, 8), bv(0, 8)), I8)
        self.O0 = fbv('OBSERVERS', 64)
        S.vset(s, P.add(self.off('a_observers')), self.elO, self.O0)
        self.nO = S.vlen(s, self.elO, self.O0)
        s.assume(z3.ULT(self.O0, bv(1 << 30)))
        self.H0, self.T0 = s.g('qH'), s.g('qT')
        s.ghost.update(N=bv(0), P0=s.g(self.map['g']))
        return P

    def at(self, acc, v):
        self.e.store(self.s, self.P.add(self.off(acc)), v, I64)

    def cur(self, st):
        return self.e.load(st, self.P.add(self.off('a_current')), I64)

    def started(self, st):
        return self.e.load(st, self.P.add(self.off('a_started')), I8) != bv(0, 8)

    def obs(self, st):
        return self.S.vget(st, self.P.add(self.off('a_observers')), self.elO)

    def ident(self, st):
        return self.e.load(st, self.P.add(self.off('a_id')), I64)

    def initial(self, st):
        return self.e.load(st, self.P.add(self.off('a_initial')), I64)

    # ---- candidates: pointers and counters against ghosts
    def gen(self, eng, entry, hs, M, header):
        out = self.S.map_cands(entry, hs, M)
        vs = loop_vars(eng, entry, hs, M)
        its = []
        for n, g, w in vs:
            if w == 'ptr' and isinstance(g(hs), Ptr):
                el = self.S.by_rid(g(hs).r)
                if el is not None:
                    def lj(st, g=g, el=el):
                        p = g(st)
                        return self.S.split(el, p.o) if isinstance(p, Ptr) else (None, None)

                    its.append((n, lj, el))
            elif w == 64 and not n.startswith('ghost'):
                its.append((n, lambda st, g=g: (None, g(st)), None))
        if 'N' in entry.ghost:
            N0 = entry.ghost['N']
            for n, lj, el in its:
                out.append(Cand(f"calls so far == {n}", lambda st, lj=lj: st.ghost['N'] == N0 + lj(st)[1]))
        for n, lj, el in its:
            if el is not None:
                def le(st, lj=lj, el=el):
                    l, j = lj(st)
                    return z3.ULE(j, el.len(l))

                out.append(Cand(f"{n} within its list", le))
            else:
                for sl, lid in list(self.S.seen.values()):
                    out.append(Cand(f"{n} within a list", lambda st, lj=lj, sl=sl, lid=lid: z3.ULE(lj(st)[1], sl.len(lid))))
        if 'qH' in hs.ghost:
            out.append(Cand('H<=T', lambda st: z3.ULE(st.ghost['qH'], st.ghost['qT'])))
        for x in self.extra:
            out += x(entry, hs, its, vs)
        return out


def rets(M, fn, args, throws=False):
    e = M.e
    n = 0
    for o in e.run_fn(M.s, M.ctx.fn(fn), args):
        if o[0] != 'ret':
            e.oblige(o[1], "no operation throws", False)
            continue
        n += 1
        yield o[1], o[2]
    e.oblige(M.s, "the operation can complete", n > 0)


class Listener(Fsm):
    MAPS = (('oo', 'a_loo'), ('act', 'a_lact'), ('per', 'a_lper'))

    def __init__(self, ctx, fresh_object=False):
        Fsm.__init__(self, ctx)
        s, e, S = self.s, self.e, self.S
        r = s.new_region('listener', ctx.const('c_sizeof_lst'), 'undef')
        self.P = Ptr(r.id, 0)
        self.m = {}
        for n, a in self.MAPS:
            self.m[n] = S.map_at_obj(s, self.P.add(self.off(a)), n, {0: [S.list_kind(self.elA), 8, arr('LISTS_' + n)]}, 24, lambda st: [(0, Ptr(self.elA.rid, 0), PT)])
        if fresh_object:
            return
        self.idv = S.fresh_id(s)
        self.at('a_lid', self.idv)
        s.ghost['N'] = bv(0)
        self.start = {n: (s.g(m['g']), S.field(s, m, 0)) for n, m in self.m.items()}

    def list0(self, n, k):
        P, A = self.start[n]
        l = z3.If(z3.Select(P, k), z3.Select(A, k), EMPTY)
        self.s.assume(z3.ULT(l, bv(1 << 30)))
        return l

    def list(self, st, n, k):
        m = self.m[n]
        return z3.If(z3.Select(st.g(m['g']), k), z3.Select(self.S.field(st, m, 0), k), EMPTY)

    def lident(self, st):
        return self.e.load(st, self.P.add(self.off('a_lid')), I64)

    def full(self, st, x):
        return z3.If(self.idv == EMPTY, x, self.S.cat(st, self.S.cat(st, self.idv, self.S.lit(':')), x))
