"""C03/C04 multi producer sequencer contracts (units are listed by props/c03.py and props/c04.py)"""
import z3
from kvc.check import *
from props.seqmodel import *

HARNESS = 'c03_sequencer.cpp'


def mp_state(ctx):
    s = ctx.state()
    seqs, data, K = gating_setup(ctx, s)
    o = s.new_region('mp', ctx.const('c_sizeof_mp'), 'input')
    P = Ptr(o.id, 0)
    off = {n: ctx.acc('a_mp_' + n, P).o for n in ('gating', 'cursor', 'cache', 'avail')}
    vec_cells(s, o.id, off['gating'], data, K)
    NB = ctx.const('c_N')
    r = s.wreg(o.id)
    sv = ctx.acc('a_seq_value', Ptr('X', 0)).o
    r.hooks = {off['cursor'] + sv: CursorHook('cursor', True), off['cache'] + sv: CacheHook()}
    A = z3.Array('avail', BV64, z3.BitVecSort(32))
    r.segs.append(Seg(off['avail'], NB, 4, {0: ['int', 4, A]}, name='avail', hook=FlagHook()))
    cu = s64('C0')
    s.ghost.update(C0=cu, Clast=cu, Cset=z3.BoolVal(False), casn=bv(0), casfrom=s64('cf'), casto=s64('ct'),
                   cache_set=z3.BoolVal(False))
    s.assume(cu >= bv(-1), cu <= bv(LIM))
    ctx.eng.contract(MINRX, min_contract)
    return s, P, off, cu, A, NB


class FlagHook:
    """availability flags: written by the publishing producer, read by consumers"""

    def load(self, eng, s, p, ty, order):
        eng.oblige(s, "publication flag is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        return eng.load(s, p, ty)

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "publication flag is written with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        eng.store(s, p, v, ty)
        return None

    def cmpxchg(self, *a):
        raise Unsupported("flag cas")

    rmw = cmpxchg


def avail(s, P):
    return s.mem[P.r].segs[0].fields[0][2]


def unit_mp_next(kind):
    def run(ctx):
        NB = ctx.const('c_N')
        e = ctx.eng
        for nm in {'next': ['h_mp_next', 'h_mp_next1'], 'try': ['h_mp_try_next', 'h_mp_try_next1']}[kind]:
            s, P, off, cu, A, NB = mp_state(ctx)
            one = nm.endswith('1')
            n = bv(1, 32) if one else fbv('n', 32)
            n64 = z3.SignExt(32, n)

            def on_claim(eng, st, frm, to):
                eng.oblige(st, f"{nm}: the claim takes a contiguous range of exactly n new slots", to == frm + n64)
                eng.oblige(st, f"{nm}: no unread slot of any consumer is claimed", z3.Implies(st.g('has'), to - bv(NB) <= st.g('Lj')))
                eng.oblige(st, f"{nm}: at most one buffer of slots is outstanding", n64 <= bv(NB))
                eng.oblige(st, f"{nm}: one claim per call", st.g('casn') == bv(0))

            s.ghost['on_claim'] = on_claim
            ctx.cover('precondition', s)
            outs = e.run_fn(s, ctx.fn(nm), [P] if one else [P, n])
            for o in outs:
                st = o[1]
                e.oblige(st, f"{nm}: publication flags untouched by claiming", avail(st, P) == A)
                if o[0] == 'ret':
                    e.oblige(st, f"{nm}: n >= 1 on success", n >= bv(1, 32))
                    e.oblige(st, f"{nm}: returns the end of the range it claimed", z3.And(st.g('casn') == bv(1), o[2] == st.g('casto')))
                elif o[0] == 'throw':
                    ti = o[2][1]
                    e.oblige(st, f"{nm}: a rejected claim claims nothing", z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset'))))
                    if ti == '_ZTISt16invalid_argument':
                        e.oblige(st, f"{nm}: invalid_argument only for n < 1", n < bv(1, 32))
                    elif ti.endswith('insufficient_capacity_exceptionE') and kind == 'try':
                        e.oblige(st, f"{nm}: insufficient capacity is reported only for n >= 1", n >= bv(1, 32))
                        e.oblige(st, f"{nm}: insufficient capacity is reported only when the slots are not free",
                                 z3.Not(z3.And(n64 <= bv(NB), st.g('Clast') + n64 - bv(NB) <= st.g('B'))))
                    else:
                        e.oblige(st, f"{nm}: unexpected exception {ti}", False)

    return run


def unit_mp_has(ctx):
    e = ctx.eng
    s, P, off, cu, A, NB = mp_state(ctx)
    n = fbv('n', 32)
    n64 = z3.SignExt(32, n)
    ctx.cover('precondition', s)
    for o in e.run_fn(s, ctx.fn('h_mp_has'), [P, n]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        r = o[2]
        c = st.g('Clast')
        e.oblige(st, "capacity reported only if no consumer would be overrun", z3.Implies(z3.And(r, st.g('has')), c + n64 - bv(NB) <= st.g('Lj')))
        e.oblige(st, "capacity reported only up to the buffer size", z3.Implies(r, n64 <= bv(NB)))
        e.oblige(st, "capacity denied only if the slots are not free", z3.Implies(z3.Not(r), z3.Not(z3.And(n64 <= bv(NB), c + n64 - bv(NB) <= st.g('B')))))
        e.oblige(st, "has_available_capacity claims nothing", z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset')), avail(st, P) == A))
    s, P, off, cu, A, NB = mp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_mp_remaining'), [P]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        r = o[2]
        c = st.g('Clast')
        e.oblige(st, "remaining capacity never exceeds the free slots", z3.Implies(st.g('has'), r <= bv(NB) - (c - st.g('Lj'))))
        e.oblige(st, "remaining capacity never exceeds the buffer size", r <= bv(NB))
        e.oblige(st, "remaining capacity counts every free slot", z3.Or(r >= bv(NB) - (c - cu), r >= bv(NB) - (c - st.g('B'))))
        e.oblige(st, "remaining_capacity claims nothing", z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset')), avail(st, P) == A))


def slot(v, NB):
    return v & bv(NB - 1)


def flag(v, NB):
    sh = NB.bit_length() - 1
    return z3.Extract(31, 0, z3.LShR(v, bv(sh)))


def isav(A, v, NB):
    return z3.Select(A, slot(v, NB)) == flag(v, NB)


def unit_mp_avail(ctx):
    e = ctx.eng
    # is_available
    s, P, off, cu, A, NB = mp_state(ctx)
    v = s64('v')
    s.assume(v >= bv(0), v <= bv(LIM))
    ctx.cover('precondition', s)
    for o in e.run_fn(s, ctx.fn('h_mp_is_available'), [P, v]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        e.oblige(st, "is_available(v) iff v's own lap was published into its slot", o[2] == isav(A, v, NB))
        e.oblige(st, "is_available changes nothing", avail(st, P) == A)
    # publish one
    s, P, off, cu, A, NB = mp_state(ctx)
    v = s64('v')
    k = s64('k')
    s.assume(v >= bv(0), v <= bv(LIM), k >= bv(0), k <= bv(LIM))
    for o in e.run_fn(s, ctx.fn('h_mp_publish'), [P, v]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        A2 = avail(st, P)
        e.oblige(st, "publish(v) makes exactly v available", isav(A2, v, NB))
        e.oblige(st, "publish(v) leaves every other slot alone", z3.Implies(slot(k, NB) != slot(v, NB), z3.Select(A2, slot(k, NB)) == z3.Select(A, slot(k, NB))))
        e.oblige(st, "publishing claims nothing", z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset'))))


def pub_gen(P, NB, A, lo, k):
    def gen(eng, entry, hs, M, header):
        out = []
        for n, g, kd in CN.loop_vars(eng, entry, hs, M):
            if kd not in (64,):
                continue
            out.append(Cand(f"slots not yet reached by {n} untouched", lambda st, g=g: z3.Implies(z3.Or(k < lo, k >= g(st)),
                       z3.Or(z3.Select(avail(st, P), slot(k, NB)) == z3.Select(A, slot(k, NB)), z3.And(lo <= k - bv(NB), k - bv(NB) < g(st)), z3.And(lo <= k + bv(NB), k + bv(NB) < g(st)), z3.UGE(k - lo, bv(NB))))))
            out.append(Cand(f"{n} <= hi+1", lambda st, g=g: g(st) <= st.ghost['hi'] + bv(1)))
            out.append(Cand(f"{n} >= lo", lambda st, g=g: g(st) >= lo))
            out.append(Cand(f"{n} >= lo-1", lambda st, g=g: g(st) >= lo - bv(1)))
            out.append(Cand(f"{n} <= hi", lambda st, g=g: g(st) <= st.ghost['hi']))
        for n, D in CN.passes(eng, entry, hs, M, k):
            CN.implied(out, f"k published once {n}", lambda st, D=D: z3.And(D(st), k >= lo, k <= st.ghost['hi']), lambda st: isav(avail(st, P), k, NB))
        return out

    return gen


def unit_mp_publish2(ctx):
    e = ctx.eng
    s, P, off, cu, A, NB = mp_state(ctx)
    lo, hi, k = s64('lo'), s64('hi'), s64('k')
    s.assume(lo >= bv(0), lo <= bv(LIM), hi <= bv(LIM), hi >= lo - bv(1), k >= bv(0), k <= bv(LIM), hi - lo < bv(NB), k < lo + bv(NB), k > lo - bv(NB))
    s.ghost['hi'] = hi
    ctx.cover('precondition', s)
    e.cand_gens = e.cand_gens + [pub_gen(P, NB, A, lo, k)]
    for o in e.run_fn(s, ctx.fn('h_mp_publish2'), [P, lo, hi]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        A2 = avail(st, P)
        inr = z3.And(lo <= k, k <= hi)
        e.oblige(st, "publish(lo,hi) makes every sequence of the range available", z3.Implies(inr, isav(A2, k, NB)))
        e.oblige(st, "publish(lo,hi) leaves slots outside the range alone",
                 z3.Implies(z3.And(k >= lo, k > hi), z3.Select(A2, slot(k, NB)) == z3.Select(A, slot(k, NB))))
        e.oblige(st, "publishing claims nothing", z3.And(st.g('casn') == bv(0), z3.Not(st.g('Cset'))))


def high_gen(P, NB, A, lo, k):
    def gen(eng, entry, hs, M, header):
        out = []
        for n, g, kd in CN.loop_vars(eng, entry, hs, M):
            if kd != 64:
                continue
            for d in (0, 1):
                out.append(Cand(f"everything before {n}+{d} is published", lambda st, g=g, d=d: z3.Implies(z3.And(k >= lo, k < g(st) + bv(d)), isav(avail(st, P), k, NB))))
            out.append(Cand(f"{n} <= av+1", lambda st, g=g: g(st) <= st.ghost['av'] + bv(1)))
            out.append(Cand(f"{n} <= av", lambda st, g=g: g(st) <= st.ghost['av']))
            out.append(Cand(f"{n} >= lo", lambda st, g=g: g(st) >= lo))
            out.append(Cand(f"{n} >= lo-1", lambda st, g=g: g(st) >= lo - bv(1)))
        return out

    return gen


def unit_mp_highest(ctx):
    e = ctx.eng
    s, P, off, cu, A, NB = mp_state(ctx)
    lo, av, k = s64('lo'), s64('av'), s64('k')
    s.assume(lo >= bv(0), lo <= bv(LIM), av >= bv(-1), av <= bv(LIM), k >= bv(0), k <= bv(LIM))
    s.ghost['av'] = av
    ctx.cover('precondition', s)
    e.cand_gens = e.cand_gens + [high_gen(P, NB, A, lo, k)]
    for o in e.run_fn(s, ctx.fn('h_mp_highest'), [P, lo, av]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        r = o[2]
        e.oblige(st, "never beyond the last unpublished sequence: everything up to the result is published", z3.Implies(z3.And(lo <= k, k <= r), isav(A, k, NB)))
        e.oblige(st, "never beyond what was asked for", r <= av)
        e.oblige(st, "result is not below the lower bound - 1", z3.Implies(lo <= av, r >= lo - bv(1)))
        e.oblige(st, "stops only at a sequence that is not published", z3.Implies(r < av, z3.Not(isav(A, r + bv(1), NB))))
        e.oblige(st, "reading availability changes nothing", avail(st, P) == A)


def unit_mp_ctor(ctx):
    e = ctx.eng
    s = ctx.state()
    o = s.new_region('mp', ctx.const('c_sizeof_mp'), 'undef')
    P = Ptr(o.id, 0)
    off = {n: ctx.acc('a_mp_' + n, P).o for n in ('gating', 'cursor', 'cache', 'avail')}
    NB = ctx.const('c_N')
    s.wreg(o.id).segs.append(Seg(off['avail'], NB, 4, {0: ['int', 4, z3.Array('junk', BV64, z3.BitVecSort(32))]}, name='avail'))
    k = s64('k')
    s.assume(k >= bv(0), k <= bv(LIM))
    e.unroll = lambda *a: False
    def gen(eng, entry, hs, M, header):
        out = []

        def pos(st, g):
            i = progress(st, g, P.r, 4)
            return i - bv(off['avail'] // 4) if i is not None and isinstance(g(st), Ptr) else i

        for n, D in CN.passes(eng, entry, hs, M, slot(k, NB), pos):
            CN.implied(out, f'slots initialised if {n}', D, lambda st: z3.Select(st.mem[P.r].segs[0].fields[0][2], slot(k, NB)) == bv(-1, 32))
        return out
    e.cand_gens = [scalar_gen(), gen]
    for oo in e.run_fn(s, ctx.fn('h_mp_ctor'), [P]):
        st = oo[1]
        if oo[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        e.oblige(st, "a new sequencer has published nothing in the first 2^31 laps", z3.Implies(z3.ULT(k, bv(NB << 31)), z3.Not(isav(avail(st, P), k, NB))))
        r = st.mem[P.r]
        sv = ctx.acc('a_seq_value', Ptr('X', 0)).o
        for n in ('cursor', 'cache'):
            e.oblige(st, f"a new sequencer's {n} is the initial value", r.cells[off[n] + sv][1] == bv(-1))



SIGRX = r'busy_spin_wait_strategy::signal_all_when_blocking'


def sig_contract(check):
    def h(eng, s, I, args, fn):
        check(eng, s)
        s.setg('sig', z3.BoolVal(True))
        return None

    return h


def unit_mp_signal(ctx):
    """publish makes the event visible before waking waiters, and always wakes them"""
    e = ctx.eng
    NB = ctx.const('c_N')
    s, P, off, cu, A, NB = mp_state(ctx)
    v = s64('v')
    s.assume(v >= bv(0), v <= bv(LIM))
    s.ghost['sig'] = z3.BoolVal(False)
    e.contract(SIGRX, sig_contract(lambda eng, st: eng.oblige(st, "publish(v) wakes waiters only after v is available", isav(avail(st, P), v, NB))))
    for o in e.run_fn(s, ctx.fn('h_mp_publish'), [P, v]):
        e.oblige(o[1], "publish(v) wakes the waiting consumers", o[1].g('sig') if o[0] == 'ret' else False)


def unit_mp_signal2(ctx):
    e = ctx.eng
    s, P, off, cu, A, NB = mp_state(ctx)
    lo, hi, k = s64('lo'), s64('hi'), s64('k')
    s.assume(lo >= bv(0), hi <= bv(LIM), hi >= lo, hi - lo < bv(NB), k >= lo, k <= hi)
    s.ghost['hi'] = hi
    s.ghost['sig'] = z3.BoolVal(False)
    e.cand_gens = e.cand_gens + [pub_gen(P, NB, A, lo, k)]
    e.contract(SIGRX, sig_contract(lambda eng, st: eng.oblige(st, "publish(lo,hi) wakes waiters only after the whole range is available", isav(avail(st, P), k, NB))))
    for o in e.run_fn(s, ctx.fn('h_mp_publish2'), [P, lo, hi]):
        e.oblige(o[1], "publish(lo,hi) wakes the waiting consumers", o[1].g('sig') if o[0] == 'ret' else False)


def unit_mp_claim(ctx):
    e = ctx.eng
    s, P, off, cu, A, NB = mp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_mp_get_cursor'), [P]):
        e.oblige(o[1], "get_cursor reports the cursor", o[2] == o[1].g('Clast') if o[0] == 'ret' else False)
        e.oblige(o[1], "get_cursor changes nothing", z3.Not(o[1].g('Cset')))
    s, P, off, cu, A, NB = mp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_mp_bufsize'), [P]):
        e.oblige(o[1], "get_buffer_size is the configured size", o[2] == bv(NB) if o[0] == 'ret' else False)
