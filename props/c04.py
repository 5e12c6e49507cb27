"""C04: an event becomes visible exactly when its own lap was published"""
import z3
from kvc.check import *
from props.seqmodel import *
import props.seqmp as M
import props.c03 as S

HARNESS = 'c03_sequencer.cpp'


def unit_sp_publish(ctx):
    e = ctx.eng
    for nm in ('h_sp_publish', 'h_sp_publish2'):
        s, P, off, nv, ca, cu = S.sp_state(ctx)
        lo, v = s64('lo'), s64('v')
        s.assume(v >= bv(0), v <= bv(LIM), lo >= bv(0), lo <= v)
        s.ghost['sig'] = z3.BoolVal(False)
        e.contracts.clear()
        e._hc = {}
        e.contract(MINRX, min_contract)
        e.contract(M.SIGRX, M.sig_contract(lambda eng, st: eng.oblige(st, f"{nm}: waiters are woken only after the cursor has moved", st.g('C0') == v)))
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(nm), [P, v] if nm == 'h_sp_publish' else [P, lo, v]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            e.oblige(st, f"{nm}: the cursor is exactly the highest published sequence", z3.And(st.g('C0') == v, st.g('Cset')))
            e.oblige(st, f"{nm}: waiting consumers are woken", st.g('sig'))
            e.oblige(st, f"{nm}: publishing claims nothing", S.getc(st, P, off['next_value']) == nv)


def unit_sp_avail(ctx):
    e = ctx.eng
    s, P, off, nv, ca, cu = S.sp_state(ctx)
    v = s64('v')
    for o in e.run_fn(s, ctx.fn('h_sp_is_available'), [P, v]):
        e.oblige(o[1], "is_available(v) iff the cursor has reached v", o[2] == (v <= cu) if o[0] == 'ret' else False)
        e.oblige(o[1], "is_available changes nothing", z3.Not(o[1].g('Cset')))
    s, P, off, nv, ca, cu = S.sp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_sp_get_cursor'), [P]):
        e.oblige(o[1], "get_cursor is the highest published sequence", o[2] == cu if o[0] == 'ret' else False)
    s, P, off, nv, ca, cu = S.sp_state(ctx)
    lo, av = s64('lo'), s64('av')
    for o in e.run_fn(s, ctx.fn('h_sp_highest'), [P, lo, av]):
        e.oblige(o[1], "with one producer everything up to the available cursor is published", o[2] == av if o[0] == 'ret' else False)
    s, P, off, nv, ca, cu = S.sp_state(ctx)
    for o in e.run_fn(s, ctx.fn('h_sp_claim'), [P, v]):
        e.oblige(o[1], "claim(v) makes v the last claimed sequence and publishes nothing", z3.And(S.getc(o[1], P, off['next_value']) == v, z3.Not(o[1].g('Cset'))) if o[0] == 'ret' else False)


UNITS = [Unit('mp_avail', M.unit_mp_avail), Unit('mp_publish_range', M.unit_mp_publish2), Unit('mp_highest', M.unit_mp_highest),
         Unit('mp_ctor', M.unit_mp_ctor), Unit('mp_signal', M.unit_mp_signal), Unit('mp_signal_range', M.unit_mp_signal2), Unit('mp_cursor', M.unit_mp_claim),
         Unit('sp_publish', unit_sp_publish), Unit('sp_avail', unit_sp_avail)]
CONFIGS = S.CONFIGS
QUICK_CONFIGS = 2
DRIVERS = [dict(src='d03.cpp', secs=4, flags=['-DONLY_AVAIL']), dict(src='d03t.cpp', san=TSAN, secs=3)]
ASSUMPTIONS = ['sequences stay below 2^62; per-slot lap counters are 32 bit: availability is exact within 2^32 laps of a slot (2^31 for a slot never published)',
               'published ranges are ranges the caller claimed (at most one buffer long, non-negative)',
               'atomics: acquire/release orders on the cursor and flags are obligations; weak-memory reorderings beyond that are not modelled']
BOUNDED = 'random publish/query histories, buffers of 2..64 slots'
EXPLANATION = 'availability contracts of both sequencers for all sequences below 2^62 and all flag contents; loops by inferred inductive invariants; buffer sizes are the listed configurations'
