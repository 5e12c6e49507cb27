"""C03: producers never overrun a consumer and claims are exact (single and multi producer sequencers)"""
import z3
from kvc.check import *
from props.seqmodel import *

HARNESS = 'c03_sequencer.cpp'


def unit_min(two):
    def run(ctx):
        for nm in (['h_min2', 'h_min2c'] if two else ['h_min1', 'h_min1c']):
            s = ctx.state()
            seqs, data, K = gating_setup(ctx, s)
            v = s.new_region('vec', 24)
            vec_cells(s, v.id, 0, data, K)
            m0 = s64('m0')
            s.assume(m0 >= bv(-1))
            ctx.cover('precondition', s)
            args = [Ptr(v.id, 0)] + ([m0] if two else [])
            if not two:
                ctx.eng.contract(MINRX, min_contract)
                m0 = bv(I64MAX)
            outs = ctx.eng.run_fn(s, ctx.fn(nm), args)
            for o in outs:
                if o[0] != 'ret':
                    ctx.eng.oblige(o[1], f"{nm}: no exception", False)
                    continue
                for n, f in min_post(o[1], o[2], m0):
                    ctx.eng.oblige(o[1], f"{nm}: {n}", f)

    return run


def sp_state(ctx):
    s = ctx.state()
    seqs, data, K = gating_setup(ctx, s)
    o = s.new_region('sp', ctx.const('c_sizeof_sp'), 'input')
    P = Ptr(o.id, 0)
    off = {n: ctx.acc('a_sp_' + n, P).o for n in ('gating', 'cursor', 'next_value', 'cached')}
    vec_cells(s, o.id, off['gating'], data, K)
    nv, ca, cu = s64('next_value'), s64('cached'), s64('C0')
    r = s.wreg(o.id)
    r.cells[off['next_value']] = (8, nv)
    r.cells[off['cached']] = (8, ca)
    h = CursorHook('cursor', shared=False)
    r.hooks = {off['cursor'] + ctx.acc('a_seq_value', Ptr('X', 0)).o: h}
    s.ghost['C0'] = cu
    s.ghost['Cset'] = z3.BoolVal(False)
    s.assume(nv >= bv(-1), nv <= bv(LIM), ca >= bv(-1), ca <= bv(LIM), cu >= bv(-1), cu <= nv)
    # representation invariant: the cached minimum is a lower bound of every consumer's progress,
    # and claimed slots never overran one
    s.assume(z3.Implies(s.g('has'), ca <= s.g('Lj')))
    ctx.eng.contract(MINRX, min_contract)
    return s, P, off, nv, ca, cu


def getc(s, P, off):
    return s.mem[P.r].cells[off][1]


def check_claim(ctx, st, P, off, nv, n64, ret, NB, lbl):
    e = ctx.eng
    e.oblige(st, f"{lbl}: returns the end of a contiguous range of exactly n new slots", ret == nv + n64)
    e.oblige(st, f"{lbl}: the claim is recorded (next claim continues after it)", getc(st, P, off['next_value']) == ret)
    e.oblige(st, f"{lbl}: no unread slot of any consumer is claimed", z3.Implies(st.g('has'), ret - bv(NB) <= st.g('Lj')))
    e.oblige(st, f"{lbl}: at most one buffer of slots is outstanding", n64 <= bv(NB))
    e.oblige(st, f"{lbl}: cached minimum stays a lower bound", z3.Implies(st.g('has'), getc(st, P, off['cached']) <= st.g('Lj')))
    e.oblige(st, f"{lbl}: nothing is published by claiming", z3.Not(st.g('Cset')))


def unchanged(ctx, st, P, off, nv, lbl):
    e = ctx.eng
    e.oblige(st, f"{lbl}: a rejected claim claims nothing", getc(st, P, off['next_value']) == nv)
    e.oblige(st, f"{lbl}: cached minimum stays a lower bound", z3.Implies(st.g('has'), getc(st, P, off['cached']) <= st.g('Lj')))
    e.oblige(st, f"{lbl}: nothing is published by a rejected claim", z3.Not(st.g('Cset')))


def unit_sp_next(kind):
    def run(ctx):
        NB = ctx.const('c_N')
        for nm in {'next': ['h_sp_next', 'h_sp_next1'], 'try': ['h_sp_try_next', 'h_sp_try_next1']}[kind]:
            s, P, off, nv, ca, cu = sp_state(ctx)
            one = nm.endswith('1')
            n = bv(1, 32) if one else fbv('n', 32)
            n64 = z3.SignExt(32, n)
            ctx.cover('precondition', s)
            outs = ctx.eng.run_fn(s, ctx.fn(nm), [P] if one else [P, n])
            e = ctx.eng
            for o in outs:
                st = o[1]
                if o[0] == 'ret':
                    e.oblige(st, f"{nm}: n >= 1 on success", n >= bv(1, 32))
                    check_claim(ctx, st, P, off, nv, n64, o[2], NB, nm)
                elif o[0] == 'throw':
                    ti = o[2][1]
                    if ti == '_ZTISt16invalid_argument':
                        e.oblige(st, f"{nm}: invalid_argument only for n < 1", n < bv(1, 32))
                    elif ti.endswith('insufficient_capacity_exceptionE') and kind == 'try':
                        e.oblige(st, f"{nm}: insufficient capacity is reported only for n >= 1", n >= bv(1, 32))
                        e.oblige(st, f"{nm}: insufficient capacity is reported only when the slots are not free",
                                 z3.Not(z3.And(n64 <= bv(NB), nv + n64 - bv(NB) <= st.g('B'))))
                    else:
                        e.oblige(st, f"{nm}: unexpected exception {ti}", False)
                    unchanged(ctx, st, P, off, nv, nm)

    return run


def unit_sp_has(ctx):
    NB = ctx.const('c_N')
    s, P, off, nv, ca, cu = sp_state(ctx)
    n = fbv('n', 32)
    n64 = z3.SignExt(32, n)
    ctx.cover('precondition', s)
    e = ctx.eng
    for o in e.run_fn(s, ctx.fn('h_sp_has'), [P, n]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        r = o[2]
        e.oblige(st, "capacity reported only if no consumer would be overrun", z3.Implies(z3.And(r, st.g('has')), nv + n64 - bv(NB) <= st.g('Lj')))
        e.oblige(st, "capacity reported only up to the buffer size", z3.Implies(r, n64 <= bv(NB)))
        e.oblige(st, "capacity denied only if the slots are not free", z3.Implies(z3.Not(r), z3.Not(z3.And(n64 <= bv(NB), nv + n64 - bv(NB) <= st.g('B')))))
        unchanged(ctx, st, P, off, nv, 'has_available_capacity')
    s, P, off, nv, ca, cu = sp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_sp_remaining'), [P]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        r = o[2]
        e.oblige(st, "remaining capacity never exceeds the free slots", z3.Implies(st.g('has'), r <= bv(NB) - (nv - st.g('Lj'))))
        e.oblige(st, "remaining capacity never exceeds the buffer size", r <= bv(NB))
        e.oblige(st, "remaining capacity counts every free slot", z3.Or(r >= bv(NB), r >= bv(NB) - (nv - st.g('B'))))
        unchanged(ctx, st, P, off, nv, 'remaining_capacity')



def add_gen(rid, key_set, key_push):
    """registered so far: consumer j* has been reset and recorded once the loop passed it"""

    def gen(eng, entry, hs, M, header):
        out = []
        for n, g, k in CN.loop_vars(eng, entry, hs, M):
            if k not in ('ptr', 64, 32) or n.startswith('ghost'):
                continue

            def f(st, g=g, what=0):
                i = progress(st, g, rid)
                if i is None:
                    return None
                j = st.ghost['aj']
                return [z3.Implies(z3.ULT(j, i), z3.And(st.ghost[key_set], st.ghost[key_push] == bv(1))),
                        z3.Implies(z3.UGE(j, i), st.ghost[key_push] == bv(0)), z3.ULE(i, st.ghost['AK']), st.ghost['npush'] == i][what]

            for w in range(4):
                out.append(Cand(f"registration progress {n} #{w}", lambda st, f=f, w=w: f(st, what=w)))
        return out

    return gen


class AddHook:
    def __init__(self, stride, cur):
        self.stride = stride
        self.cur = cur

    def load(self, eng, s, p, ty, order):
        raise Unsupported("new consumer read")

    def store(self, eng, s, p, v, ty, order):
        i = oz(osub(p.o, 0))
        from math import gcd
        c, t = linform(p.o)
        i = oz(from_lin(c // self.stride, {k: (x, q // self.stride) for k, (x, q) in t.items()}))
        eng.oblige(s, "a consumer being registered starts at the cursor, never beyond it", v == self.cur(s))
        s.setg('aset', simp(z3.Or(s.g('aset'), i == s.g('ap'))))
        return None

    cmpxchg = rmw = load


def unit_add(pfx):
    def run(ctx):
        e = ctx.eng
        if pfx == 'sp':
            s, P, off, nv, ca, cu = sp_state(ctx)
            cur = lambda st: st.g('C0')
        else:
            import props.seqmp as M2
            s, P, off, cu, A, NB = M2.mp_state(ctx)
            cur = lambda st: st.g('C0')
        stride = ctx.const('c_sizeof_sequence')
        K = s64('AK')
        ns = s.new_region('NEWSEQS', None, 'input')
        ns.hooks = {'*': AddHook(stride, cur)}
        d = s.new_region('NEWDATA', None, 'input')
        perm = z3.Array('aperm', BV64, BV64)
        d.segs.append(Seg(0, K, 8, {0: [f'ptr:{ns.id}:{stride}', 8, perm]}, name='added'))
        v = s.new_region('addvec', 24)
        vec_cells(s, v.id, 0, d, K)
        j = s64('aj')
        s.assume(z3.ULT(K, bv(1 << 30)), z3.ULT(j, K))
        p = z3.BitVec('pidx', 64)
        s.ghost.update(AK=K, aj=j, ap=z3.Select(perm, j), aset=z3.BoolVal(False), apush=bv(0), npush=bv(0))

        def push(eng, st, I, args, fn):
            q = args[1]
            x = eng.load(st, q, type('T', (), dict(kind='ptr', size=8, width=64))())
            if not isinstance(x, Ptr) or x.r != ns.id:
                eng.oblige(st, "only the sequences passed in are registered", False)
                return None
            c, t = linform(x.o)
            i = oz(from_lin(c // stride, {k: (y, z // stride) for k, (y, z) in t.items()}))
            # j* is registered exactly when its own turn comes (sequences are registered in order)
            eng.oblige(st, "sequences are registered one by one", i == z3.Select(perm, st.g('npush')))
            st.setg('apush', simp(z3.If(st.g('npush') == st.g('aj'), st.g('apush') + bv(1), st.g('apush'))))
            st.setg('npush', simp(st.g('npush') + bv(1)))
            return None

        e.contract(r'std::vector<disruptor4cpp::sequence\*.*>::push_back', push)
        e.contract(r'std::vector<disruptor4cpp::sequence\*.*>::(emplace_back|insert)', lambda *a: (_ for _ in ()).throw(Unsupported('vector insertion by another member')))
        e.cand_gens = e.cand_gens + [add_gen(d.id, 'aset', 'apush')]
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(f'h_{pfx}_add'), [P, Ptr(v.id, 0)]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            e.oblige(st, "every sequence passed in is reset to the cursor", st.g('aset'))
            e.oblige(st, "every sequence passed in is registered exactly once", z3.And(st.g('apush') == bv(1), st.g('npush') == K))

    return run


def unit_min_of(pfx):
    """get_minimum_sequence() and (multi producer) remaining_capacity()"""

    def run(ctx):
        e = ctx.eng
        NB = ctx.const('c_N')

        def mk():
            if pfx == 'sp':
                s, P, off, *_ = sp_state(ctx)
                ctx.untouched = lambda st: z3.Not(st.g('Cset'))
            else:
                import props.seqmp as M2
                s, P, off, *_ = M2.mp_state(ctx)
                ctx.untouched = lambda st: z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset')))
            return s, P

        s, P = mk()
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(f'h_{pfx}_minimum'), [P]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            for n, f in min_post(st, o[2], bv(I64MAX)):
                e.oblige(st, f"get_minimum_sequence: {n}", f)
            e.oblige(st, "get_minimum_sequence: claims and publishes nothing", ctx.untouched(st))
        if pfx == 'mp':
            s, P = mk()
            for o in e.run_fn(s, ctx.fn('h_mp_remaining'), [P]):
                st = o[1]
                if o[0] != 'ret':
                    e.oblige(st, "no exception", False)
                    continue
                r = o[2]
                e.oblige(st, "remaining capacity never exceeds the free slots", z3.Implies(st.g('has'), r <= bv(NB) - (st.g('Clast') - st.g('Lj'))))
                e.oblige(st, "remaining capacity never exceeds the buffer size", r <= bv(NB))
                e.oblige(st, "remaining_capacity: claims and publishes nothing", ctx.untouched(st))

    return run


def fin_idx(st, P, off, d):
    v = st.mem[P.r].cells[off['gating'] + 8][1]
    return progress(st, lambda _: v, d.id)


def rem_gen(d, P, off, target, stride):
    def A(st):
        return st.mem[d.id].segs[0].fields[0][2]

    def gen(eng, entry, hs, M, header):
        out = []
        ln = lambda st: fin_idx(st, P, off, d)
        A0 = A(entry)
        out.append(Cand("unless something was removed the list is as before", lambda st: z3.Implies(z3.Not(st.ghost['er']), z3.And(ln(st) == st.ghost['K'], A(st) == A0))))
        out.append(Cand("list length", lambda st: z3.ULE(ln(st), st.ghost['K'])))
        for n, g, k in CN.loop_vars(eng, entry, hs, M):
            if n.startswith('ghost'):
                continue
            if k == 'ptr' and isinstance(g(hs), Ptr) and g(hs).r == d.id or k in (32, 64):
                def f(st, g=g, w=0):
                    i = progress(st, g, d.id)
                    if i is None:
                        return None
                    return [z3.ULE(i, ln(st)), z3.Implies(z3.ULT(st.ghost['w'], i), z3.Select(A(st), st.ghost["w"]) * bv(stride) != target * bv(stride))][w]

                for w in range(2):
                    out.append(Cand(f"{n}: visited positions do not hold the removed consumer #{w}", lambda st, f=f, w=w: f(st, w=w)))
            if k == 8:
                out.append(Cand(f"{n} tells whether something was removed", lambda st, g=g: (g(st) & bv(1, 8) == bv(1, 8)) == st.ghost['er']))
                out.append(Cand(f"{n} is a bool", lambda st, g=g: z3.ULE(g(st), bv(1, 8))))
        return out

    return gen


def unit_remove(pfx):
    def run(ctx):
        e = ctx.eng
        if pfx == 'sp':
            s, P, off, *_ = sp_state(ctx)
        else:
            import props.seqmp as M2
            s, P, off, *_ = M2.mp_state(ctx)
        stride = ctx.const('c_sizeof_sequence')
        v0 = s.mem[P.r].cells[off['gating']][1]
        d = s.mem[v0.r]
        t = s64('removed')
        s.assume(z3.ULT(t, bv(1 << 32)), z3.ULT(s.g('K'), bv(1 << 30)))
        q = Ptr([r for r in s.mem if s.mem[r].name == 'SEQS'][0], t * bv(stride))
        w = s64('w')
        s.ghost.update(w=w, er=z3.BoolVal(False))
        g0 = s.mem[d.id].segs[0].fields[0]
        A0 = g0[2]

        def erase(eng, st, I, args, fn):
            pos = args[1]
            i = progress(st, lambda _: pos, d.id)
            if i is None or len(args) != 2 or not isinstance(args[0], Ptr) or args[0].r != P.r:
                raise Unsupported("erase with another signature")
            ln = fin_idx(st, P, off, d)
            sg = st.wreg(d.id).segs[0]
            A = sg.fields[0][2]
            eng.oblige(st, "erase is given a registered position", z3.ULT(i, ln))
            eng.oblige(st, "only the consumer passed in is removed", z3.Select(A, i) * bv(stride) == t * bv(stride))
            A2 = fresh('perm', A.sort())
            ww = st.g('w')
            st.assume(z3.Select(A2, ww) == z3.If(z3.ULT(ww, i), z3.Select(A, ww), z3.Select(A, ww + bv(1))))
            sg.fields[0][2] = A2
            st.wreg(P.r).cells[off['gating'] + 8] = (8, Ptr(d.id, simp((ln - bv(1)) * bv(8))))
            st.setg('er', z3.BoolVal(True))
            return pos

        e.contract(r'std::vector<disruptor4cpp::sequence\*.*>::erase', erase)
        e.contract(r'std::vector<disruptor4cpp::sequence\*.*>::(push_back|emplace_back|insert|emplace|clear|pop_back|resize|assign|swap|operator=)', lambda *a: (_ for _ in ()).throw(Unsupported('gating list changed by another member')))
        e.cand_gens = e.cand_gens + [rem_gen(d, P, off, t, stride)]
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(f'h_{pfx}_remove'), [P, q]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            r = o[2] if z3.is_bool(o[2]) else o[2] != bv(0, o[2].size())
            ln = fin_idx(st, P, off, d)
            A = st.mem[d.id].segs[0].fields[0][2]
            e.oblige(st, "after the removal the consumer is not registered any more", z3.Implies(z3.ULT(w, ln), z3.Select(A, w) * bv(stride) != t * bv(stride)))
            e.oblige(st, "removal is reported exactly when the consumer was registered", z3.And(r == st.g('er'), z3.Implies(z3.And(z3.ULT(w, st.g('K')), z3.Select(A0, w) * bv(stride) == t * bv(stride)), r)))
            e.oblige(st, "when the consumer was not registered the list is unchanged", z3.Implies(z3.Not(r), z3.And(ln == st.g('K'), A == A0)))

    return run


class SeqHook:
    """one atomic sequence read and written by several threads: every access is one step on the current value"""

    def __init__(self, e):
        self.e = e

    def load(self, eng, s, p, ty, order):
        eng.oblige(s, "sequence is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        v = s64('seqv')
        s.setg('cur', v)
        s.setg('acc', simp(s.g('acc') + bv(1)))
        return v

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "sequence is published with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        s.setg('new', v)
        s.setg('upd', simp(s.g('upd') + bv(1)))
        return None

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        ok, bad = s, s.copy()
        eng.oblige(ok, "a compare-and-set compares with the value the caller expected", e == ok.g('exp'))
        ok.setg('cur', e)
        ok.setg('new', n)
        ok.setg('upd', simp(ok.g('upd') + bv(1)))
        v = s64('other')
        return [(ok, 'val', Agg([e, z3.BoolVal(True)])), (bad, 'val', Agg([v, z3.BoolVal(False)]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        if op not in ('add', 'sub'):
            raise Unsupported('rmw ' + op)
        eng.oblige(s, "sequence is published with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        old = s64('seqv')
        s.setg('cur', old)
        s.setg('new', simp(old + v if op == 'add' else old - v))
        s.setg('upd', simp(s.g('upd') + bv(1)))
        return old


def unit_sequence(ctx):
    e = ctx.eng
    for nm in ('get', 'set', 'cas', 'add', 'inc'):
        s = ctx.state()
        r = s.new_region('sequence', ctx.const('c_sizeof_sequence'), 'input')
        P = Ptr(r.id, 0)
        r.hooks = {ctx.acc('a_seq_value', Ptr('X', 0)).o: SeqHook(e)}
        a, b = s64('a'), s64('b')
        s.ghost.update(cur=s64('cur'), new=s64('new'), upd=bv(0), acc=bv(0), exp=a)
        ctx.cover(f'{nm} precondition', s)
        for o in e.run_fn(s, ctx.fn('h_seq_' + nm), [P] + {'get': [], 'set': [a], 'cas': [a, b], 'add': [a], 'inc': []}[nm]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, f"{nm}: no exception", False)
                continue
            v, up = o[2], st.g('upd')
            if nm == 'get':
                e.oblige(st, "get: returns the current value and changes nothing", z3.And(v == st.g('cur'), up == bv(0), st.g('acc') == bv(1)))
            elif nm == 'set':
                e.oblige(st, "set: stores the value, once", z3.And(st.g('new') == a, up == bv(1)))
            elif nm == 'cas':
                r = v if z3.is_bool(v) else v != bv(0, v.size())
                e.oblige(st, "compare_and_set: tells whether it changed the value", r == (up == bv(1)))
                e.oblige(st, "compare_and_set: changes it from the expected to the new value", z3.Implies(r, z3.And(st.g('cur') == a, st.g('new') == b)))
            else:
                n = a if nm == 'add' else bv(1)
                e.oblige(st, f"{nm}: adds exactly the increment, in one step", z3.And(up == bv(1), st.g('new') == st.g('cur') + n))
                e.oblige(st, f"{nm}: returns the value it produced", v == st.g('new'))


def unit_sp_ctor(ctx):
    e = ctx.eng
    s = ctx.state()
    o = s.new_region('sp', ctx.const('c_sizeof_sp'), 'undef')
    P = Ptr(o.id, 0)
    for oo in e.run_fn(s, ctx.fn('h_sp_ctor'), [P]):
        st = oo[1]
        if oo[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        c = st.mem[P.r].cells
        sv = ctx.acc('a_seq_value', Ptr('X', 0)).o
        for n in ('next_value', 'cached'):
            e.oblige(st, f"a new sequencer has claimed nothing ({n})", c[ctx.acc('a_sp_' + n, P).o][1] == bv(-1))
        e.oblige(st, "a new sequencer has published nothing", c[ctx.acc('a_sp_cursor', P).o + sv][1] == bv(-1))


import props.seqmp as _mp
UNITS = [Unit('min2', unit_min(True)), Unit('min1', unit_min(False)), Unit('sp_next', unit_sp_next('next')),
         Unit('sp_try_next', unit_sp_next('try')), Unit('sp_capacity', unit_sp_has), Unit('sp_ctor', unit_sp_ctor),
         Unit('sp_add_gating', unit_add('sp')), Unit('mp_add_gating', unit_add('mp')),
         Unit('mp_next', _mp.unit_mp_next('next')), Unit('mp_try_next', _mp.unit_mp_next('try')),
         Unit('mp_capacity', _mp.unit_mp_has), Unit('sp_minimum', unit_min_of('sp')), Unit('mp_minimum', unit_min_of('mp')),
         Unit('sp_remove_gating', unit_remove('sp')), Unit('mp_remove_gating', unit_remove('mp')), Unit('sequence', unit_sequence)]
CONFIGS = [('N8', ('-DKN=8',)), ('N2', ('-DKN=2',)), ('N1024', ('-DKN=1024',)), ('N65536', ('-DKN=65536',))]
QUICK_CONFIGS = 2
DRIVERS = [dict(src='d03.cpp', secs=4), dict(src='d03t.cpp', san=TSAN, secs=3)]
ASSUMPTIONS = ['sequences stay below 2^62 (int64 counters do not wrap)',
               'consumers are registered before claiming starts and only ever advance their own sequence (rely condition)',
               'at most 2^32 consumers', 'one producer thread per single producer sequencer (rely condition)',
               'atomics: cells are accessed through rely/guarantee steps; acquire/release orders are obligations, weak-memory reorderings beyond that are not modelled',
               'termination of next() (capacity eventually freed by consumers) is not proved: partial correctness']
BOUNDED = 'real-thread runs of next/try_next (random schedules, buffers of 2..64 slots)'
EXPLANATION = 'claim, capacity and registration contracts of both sequencers, for every number of consumers, every counter value below 2^62 and every interleaving with other threads (rely/guarantee at each atomic access); buffer sizes are the listed configurations'
