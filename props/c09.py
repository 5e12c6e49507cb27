"""C09: actions of a state machine listener"""
from .fsmmodel import *

WHAT = {'oo': 'one-off', 'act': 'permanent', 'per': 'periodic'}


def expect(M, k, ch):
    """(number of calls, function id of call N)"""
    S, s = M.S, M.s
    l1, l2, l3 = (M.list0(n, k) for n in ('oo', 'act', 'per'))
    n1, n2, n3 = (S.vlen(s, M.elA, l) for l in (l1, l2, l3))
    n1, n2 = z3.If(ch, n1, bv(0)), z3.If(ch, n2, bv(0))
    fn = lambda l, j: z3.Select(M.AF, l * bv(B) + j)
    return (n1, n1 + n2, n1 + n2 + n3), lambda N: z3.If(z3.ULT(N, n1), fn(l1, N), z3.If(z3.ULT(N, n1 + n2), fn(l2, N - n1), fn(l3, N - n1 - n2)))


def unit_update(fn, reent):
    def run(ctx):
        M = Listener(ctx)
        e, s, S = M.e, M.s, M.S
        K, k = M.str('state')
        j = S.fresh_id(s)
        ch = z3.Bool('changed')
        (c1, c2, total), seq = expect(M, k, ch)
        for n in M.m:
            M.list0(n, j)

        def on_begin(st, p):
            if p.r in S.maps:
                st.ghost['member'] = True

        S.on_begin = on_begin

        def call(st, I, f, args, P):
            N = st.g('N')
            e.oblige(st, "actions are told the state", S.sget(st, args[0]) == k)
            if not reent:
                e.oblige(st, "exactly the actions of the state run, each once, in order of registration, permanent and one-off ones only on a change", z3.And(z3.ULT(N, total), f == seq(N)))
            if not reent:
                e.oblige(st, "a one-off action is unregistered before it runs", z3.Implies(z3.And(ch, N == bv(0), z3.ULT(bv(0), c1)), M.list(st, 'oo', k) == EMPTY))
            e.oblige(st, "actions may change the registrations while they run", z3.BoolVal(not st.ghost.get('member')))
            st.setg('N', simp(N + bv(1)))
            if reent:  # whatever actions do to the listener
                for m in M.m.values():
                    st.setg(m['g'], fresh('act_P', z3.ArraySort(BV64, z3.BoolSort())))
                    f_ = st.wreg(m['rid']).segs[0].fields[40]
                    f_[2] = arr('act_L')
                    st.writes.add((m['rid'], 's', 0, 40)) if hasattr(st, 'writes') else None
            return [(st, 'val', None)]

        S.on_call = call

        def cands(entry, hs, its, vs):
            out = []
            for nm, lj, el in its:
                for b in (bv(0), c1, c2):
                    out.append(Cand(f'calls == {nm} + earlier ones', lambda st, lj=lj, b=b: st.ghost['N'] == b + lj(st)[1]))
            return out

        M.extra.append(cands)
        if not reent:
            for nm, c in (('one-off actions run', z3.ULT(bv(0), c1)), ('permanent actions run', z3.ULT(c1, c2)), ('periodic actions run', z3.ULT(c2, total))):
                q = s.copy()
                q.assume(c)
                ctx.cover(nm, q)
        for st, r in rets(M, fn, [M.P, K, ch]):
            e.oblige(st, "the listener keeps its machine's id", M.lident(st) == M.idv)
            if reent:
                continue
            e.oblige(st, "every action of the state runs", st.g('N') == total)
            for n in M.m:
                gone = z3.And(j == k, ch) if n == 'oo' else F_
                e.oblige(st, f"{WHAT[n]} actions stay registered" + (" until their state is entered" if n == 'oo' else ""), M.list(st, n, j) == z3.If(gone, EMPTY, M.list0(n, j)))

    return run


def unit_register(ctx):
    for fn, own in (('h_ladd', 'act'), ('h_laddoo', 'oo'), ('h_laddper', 'per'), ('h_lrm', None), ('h_lrmall', None)):
        M = Listener(ctx)
        e, s, S = M.e, M.s, M.S
        args = [M.P]
        j = S.fresh_id(s)
        for n in M.m:
            M.list0(n, j)
        if fn != 'h_lrmall':
            K, k = M.str('state')
            args.append(K)
            full = M.full(s, k)
        if own:
            F, f = M.func('action')
            args.append(F)
        for st, r in rets(M, fn, args):
            e.oblige(st, "the listener keeps its machine's id", M.lident(st) == M.idv)
            for n in M.m:
                l = M.list0(n, j)
                if n == own:
                    l = z3.If(j == full, M.elA.append(l, [f]), l)
                elif n == 'per' and fn == 'h_lrm':
                    l = z3.If(j == full, EMPTY, l)
                elif n == 'per' and fn == 'h_lrmall':
                    l = EMPTY
                e.oblige(st, f"{fn[2:]}: {WHAT[n]} actions after a registration or removal", M.list(st, n, j) == l)


def unit_ctor(ctx):
    M = Listener(ctx, True)
    e, s, S = M.e, M.s, M.S
    I_, i = M.str('id')
    j = S.fresh_id(s)
    for st, r in rets(M, 'h_lctor', [M.P, I_]):
        e.oblige(st, "a new listener is for its machine", M.lident(st) == i)
        for n in M.m:
            e.oblige(st, "a new listener has no actions", M.list(st, n, j) == EMPTY)


UNITS = [Unit('updateCurrentState', unit_update('h_lupd', False)), Unit('updateCurrentState, actions that change the listener', unit_update('h_lupd', True)), Unit('getObserverFunc', unit_update('h_lobs', False)),
         Unit('addAction, addOneOffAction, addPeriodicAction, removeActions', unit_register), Unit('construction', unit_ctor)]
DRIVERS = [dict(src='d09.cpp', secs=4, srcs=['state_machine/modules/state_machine/src/state_machine_listener.cpp'], flags=['-fno-access-control'])]
ASSUMPTIONS = ['std::string, vector, unordered_map and function by contract over abstract values (kvc/stl.py)', 'allocation never fails; actions do not throw and do not destroy the listener', 'a listener is used by one thread at a time']
BOUNDED = 'random histories of up to 30 registrations, removals and notifications, with actions that register, remove or notify'
EXPLANATION = 'StateMachineListener: addAction, addOneOffAction, addPeriodicAction, removeActions, updateCurrentState (also through getObserverFunc), construction, for every set of registrations'
