"""C08: state machine transitions and notifications"""
from .fsmmodel import *


def setup(ctx, observers=True):
    """a machine in any state; the expected transition of an update, found by the first-match rule"""
    M = Fsm(ctx)
    e, s, S = M.e, M.s, M.S
    M.machine()
    return M


def cover(ctx, s, name, c):
    q = s.copy()
    q.assume(c)
    ctx.cover(name, q)


def expect(M, T):
    """(state, head of the queue, changed) an update has to reach, by definition of the first match"""
    s, S = M.s, M.S
    so = z3.Select(M.KO, M.cur0)
    L = z3.Select(M.SL, so)
    n = S.vlen(s, M.elT, L)
    s.assume(z3.ULT(L, bv(1 << 30)), z3.ULT(so, bv(1 << 40)))
    tr = lambda j: z3.Select(M.TO, L * bv(B) + j)
    Q = S.qitem
    hit, jf = fbv('hit', 64), fbv('jf', 64)
    s.assume(z3.ULE(M.H0, hit), z3.ULE(hit, T), z3.Implies(hit != T, z3.And(z3.ULT(jf, n), z3.Select(M.EV, tr(jf)) == Q(hit))))
    known = z3.Select(s.g('P0'), M.cur0)

    def hook(st, l, j):
        ev = z3.Select(M.EV, tr(j))
        for i in (simp(st.g('qH') - bv(1)), st.g('qH')):
            st.assume(z3.Implies(z3.And(l == L, z3.ULT(j, n), z3.ULE(M.H0, i), z3.ULT(i, hit)), ev != Q(i)), z3.Implies(z3.And(l == L, i == hit, hit != T, z3.ULT(j, jf)), ev != Q(i)))
        st.assume(z3.ULT(z3.Select(M.TO, l * bv(B) + j), bv(1 << 40)))

    M.elT.hook = hook
    taken = hit != T
    act = z3.And(M.started0, known)
    cur = z3.If(z3.And(act, taken), z3.Select(M.DE, tr(jf)), M.cur0)
    H = z3.If(act, z3.If(taken, hit + bv(1), T), M.H0)
    H1 = lambda st: simp(st.ghost['qH'] - bv(1))

    def cands(entry, hs, its, vs):
        out = [Cand('before the first match', lambda st: z3.ULE(st.ghost['qH'], hit)), Cand('up to the first match', lambda st: z3.ULE(H1(st), hit)), Cand('consumed', lambda st: z3.ULE(M.H0, st.ghost['qH'])),
               Cand('one consumed', lambda st: z3.ULT(M.H0, st.ghost['qH']))]
        for nm, lj, el in its:
            out.append(Cand(f'{nm} up to the match', lambda st, lj=lj: z3.Or(z3.ULT(H1(st), hit), z3.And(H1(st) == hit, z3.ULE(lj(st)[1], jf)))))
            out.append(Cand(f'{nm} up to the match (not consumed)', lambda st, lj=lj: z3.Or(z3.ULT(st.ghost['qH'], hit), z3.And(st.ghost['qH'] == hit, z3.ULE(lj(st)[1], jf)))))
        # a flag of the loop that tells whether the transition was taken
        qH = lambda st: st.ghost['qH']
        arrived = lambda st: M.cur(st) == z3.Select(M.DE, tr(jf))
        still = lambda st: M.cur(st) == M.cur0
        for fn, g, w in vs:
            if w != 8:
                continue
            out.append(Cand(f'{fn} is a flag', lambda st, g=g: z3.ULE(g(st), bv(1, 8))))
            for pol in (0, 1):
                yes = lambda st, g=g, pol=pol: g(st) != bv(pol, 8)
                no = lambda st, g=g, pol=pol: g(st) == bv(pol, 8)
                out.append(Cand(f'{fn}!={pol}: taken', lambda st, f=yes: z3.Implies(f(st), z3.And(taken, arrived(st)))))
                out.append(Cand(f'{fn}!={pol}: consumed', lambda st, f=yes: z3.Implies(f(st), qH(st) == hit + bv(1))))
                out.append(Cand(f'{fn}!={pol}: at the match', lambda st, f=yes: z3.Implies(f(st), qH(st) == hit)))
                out.append(Cand(f'{fn}=={pol}: not taken', lambda st, f=no: z3.Implies(f(st), still(st))))
                out.append(Cand(f'{fn}=={pol}: up to the match', lambda st, f=no: z3.Implies(f(st), z3.ULE(qH(st), hit))))
                out.append(Cand(f'{fn}=={pol}: up to the match (consumed)', lambda st, f=no: z3.Implies(f(st), z3.ULE(H1(st), hit))))
                for nm, lj, el in its:
                    out.append(Cand(f'{fn}=={pol}: {nm} up to the match', lambda st, f=no, lj=lj: z3.Implies(f(st), z3.Or(z3.ULT(H1(st), hit), z3.And(H1(st) == hit, z3.ULE(lj(st)[1], jf))))))
                    out.append(Cand(f'{fn}=={pol}: {nm} up to the match (not consumed)', lambda st, f=no, lj=lj: z3.Implies(f(st), z3.Or(z3.ULT(qH(st), hit), z3.And(qH(st) == hit, z3.ULE(lj(st)[1], jf))))))
        return out

    M.extra.append(cands)
    return cur, H, taken, act


def callbacks(M, cur, H, changed, started, T):
    e, S = M.e, M.S
    name = S.cat(M.s, S.cat(M.s, M.idv, S.lit(':')), cur)

    quiet = lambda st: z3.And(M.cur(st) == cur, st.ghost['qH'] == H, st.ghost['qT'] == T, M.started(st) == started, M.obs(st) == M.O0)
    M.extra.append(lambda entry, hs, its, vs: [Cand('nothing changes before the first call', lambda st: z3.Implies(st.ghost['N'] == bv(0), quiet(st)))])

    def on_begin(st, p):
        if p.r == M.P.r:
            st.ghost['member'] = True

    S.on_begin = on_begin

    def call(st, I, f, args, P):
        N = st.g('N')
        first = N == bv(0)
        e.oblige(st, "each observer is called once, in order of registration", z3.And(z3.ULT(N, M.nO), f == z3.Select(M.OF, M.O0 * bv(B) + N)))
        e.oblige(st, "observers are told the machine's id and its state", S.sget(st, args[0]) == name)
        c = args[1]
        e.oblige(st, "observers are told whether the state changed", (c if z3.is_bool(c) else c != 0) == changed)
        e.oblige(st, "observers run after the state changed", z3.Implies(first, z3.And(M.cur(st) == cur, st.g('qH') == H, st.g('qT') == T, M.started(st) == started)))
        e.oblige(st, "observers may change the observers while they run", z3.BoolVal(not st.ghost.get('member')))
        st.setg('N', simp(N + bv(1)))
        # whatever observers do to the machine
        P_ = M.P
        for a, w in (('a_current', 64), ('a_started', 8)):
            v = fbv('obs_' + a, w)
            if w == 8:
                st.assume(z3.ULE(v, 1))
            e.store(st, P_.add(M.off(a)), v, I64 if w == 64 else I8)
        l = fbv('obs_list', 64)
        st.assume(z3.ULT(l, bv(1 << 30)))
        S.vset(st, P_.add(M.off('a_observers')), M.elO, l)
        h, t = fbv('obs_H', 64), fbv('obs_T', 64)
        st.assume(z3.ULE(h, t), z3.ULE(t, bv(LIM)))
        st.setg('qH', h)
        st.setg('qT', t)
        return [(st, 'val', None)]

    S.on_call = call


def unchanged(M, st):
    return z3.And(M.ident(st) == M.idv, M.initial(st) == M.ini, st.g(M.map['g']) == st.g('P0'))


def unit_update(fn, enq):
    def run(ctx):
        M = setup(ctx)
        e, s = M.e, M.s
        args = [M.P]
        T = M.T0
        if enq:
            E, ev = M.str('event')
            args.append(E)
            T = z3.If(M.started0, M.T0 + bv(1), M.T0)
            s.assume(z3.Implies(M.started0, M.S.qitem(M.T0) == ev))
        cur, H, taken, act = expect(M, T)
        callbacks(M, cur, H, taken, z3.BoolVal(True), T)
        cover(ctx, s, 'a transition is taken', z3.And(act, taken, M.nO != bv(0)))
        cover(ctx, s, 'no transition is taken', z3.And(act, z3.Not(taken)))
        for st, r in rets(M, fn, args):
            N = st.g('N')
            e.oblige(st, "every observer is told once per update, none by a machine that is stopped or in an unknown state", N == z3.If(act, M.nO, bv(0)))
            quiet = N == bv(0)
            e.oblige(st, "an update takes the first matching transition of the first matching event", z3.Implies(quiet, M.cur(st) == cur))
            e.oblige(st, "events are consumed up to the one that matched, and kept behind it", z3.Implies(quiet, z3.And(st.g('qH') == H, st.g('qT') == T)))
            e.oblige(st, "an update neither starts nor stops the machine", z3.Implies(quiet, z3.And(M.started(st) == M.started0, M.obs(st) == M.O0)))
            e.oblige(st, "id, initial state and the state table stay", unchanged(M, st))

    return run


def unit_start(ctx):
    M = setup(ctx)
    e, s = M.e, M.s
    callbacks(M, M.cur0, M.H0, T_, T_, M.T0)
    for st, r in rets(M, 'h_start', [M.P]):
        e.oblige(st, "starting tells every observer the current state once", st.g('N') == M.nO)
        q = st.g('N') == bv(0)
        e.oblige(st, "a started machine runs", z3.Implies(q, M.started(st)))
        e.oblige(st, "starting keeps the state and the pending events", z3.Implies(q, z3.And(M.cur(st) == M.cur0, st.g('qH') == M.H0, st.g('qT') == M.T0)))
        e.oblige(st, "id, initial state and the state table stay", unchanged(M, st))


def unit_simple(ctx):
    for fn in ('h_stop', 'h_reset', 'h_enq', 'h_reg', 'h_unreg'):
        M = setup(ctx)
        e, s = M.e, M.s
        args = [M.P]
        if fn == 'h_enq':
            E, ev = M.str('event')
            args.append(E)
        if fn == 'h_reg':
            F, f = M.func('observer')
            args.append(F)
        for st, r in rets(M, fn, args):
            e.oblige(st, "id, initial state and the state table stay", unchanged(M, st))
            st_ = {'h_stop': F_, 'h_reset': F_}.get(fn, M.started0)
            e.oblige(st, "stop and reset stop the machine, nothing else does", M.started(st) == st_)
            e.oblige(st, "reset returns to the initial state, the others keep the state", M.cur(st) == (M.ini if fn == 'h_reset' else M.cur0))
            if fn == 'h_enq':
                e.oblige(st, "a running machine queues the event behind the others, a stopped one ignores it",
                         z3.And(st.g('qH') == M.H0, st.g('qT') == z3.If(M.started0, M.T0 + bv(1), M.T0), z3.Implies(M.started0, M.S.qitem(M.T0) == ev)))
            else:
                e.oblige(st, "pending events are kept", z3.And(st.g('qH') == M.H0, st.g('qT') == M.T0))
            e.oblige(st, "observers are added behind the others, removed all together, and otherwise kept",
                     M.obs(st) == (M.elO.append(M.O0, [f]) if fn == 'h_reg' else EMPTY if fn == 'h_unreg' else M.O0))


def unit_ctor(ctx):
    M = Fsm(ctx)
    e, s, S = M.e, M.s, M.S
    P = M.machine(True)
    I_, idv = M.str('id')
    J_, ini = M.str('initial')
    L = fbv('STATES', 64)
    s.assume(z3.ULT(L, bv(1 << 30)))
    n = S.vlen(s, M.elS, L)
    r = s.new_region('states', 24)
    V = Ptr(r.id, 0)
    S.vset(s, V, M.elS, L)
    k, last = fbv('key', 64), fbv('last', 64)
    ob = lambda j: z3.Select(M.SO, L * bv(B) + j)
    s.assume(z3.ULT(k, bv(LIM)), z3.ULE(last, n), z3.Implies(last != n, z3.Select(M.SID, ob(last)) == k))

    def hook(st, l, j):
        st.assume(z3.Implies(z3.And(l == L, z3.Or(last == n, z3.UGT(j, last))), z3.Select(M.SID, ob(j)) != k), z3.ULT(ob(j), bv(1 << 40)))

    M.elS.hook = hook
    KO = lambda st: S.field(st, M.map, 0)
    Pk = lambda st: z3.Select(st.ghost[M.map['g']], k)

    def cands(entry, hs, its, vs):
        out = [Cand('absent', lambda st: z3.Implies(last == n, z3.Not(Pk(st))))]
        for nm, lj, el in its:
            out.append(Cand(f'{nm} last wins', lambda st, lj=lj: z3.Implies(z3.And(last != n, z3.ULT(last, lj(st)[1])), z3.And(Pk(st), z3.Select(KO(st), k) == ob(last)))))
        return out

    M.extra.append(cands)
    for st, r in rets(M, 'h_ctor', [P, I_, V, J_]):
        e.oblige(st, "a new machine has its id and is in its initial state, stopped", z3.And(M.ident(st) == idv, M.initial(st) == ini, M.cur(st) == ini, z3.Not(M.started(st))))
        e.oblige(st, "a new machine has no observers and no events", z3.And(M.obs(st) == EMPTY, st.g('qH') == st.g('qT')))
        e.oblige(st, "exactly the given states are known by their ids (the last of equal ids)", z3.And(Pk(st) == (last != n), z3.Implies(last != n, z3.Select(KO(st), k) == ob(last))))


def unit_parts(ctx):
    M = Fsm(ctx)
    e, s, S = M.e, M.s, M.S
    r = s.new_region('transition', ctx.const('c_sizeof_trans'), 'undef')
    P = Ptr(r.id, 0)
    D, d = M.str('dest')
    E, ev = M.str('event')
    X, x = M.str('other')
    for st, _ in rets(M, 'h_tctor', [P, D, E]):
        for k, q, v in e.run_fn(st.copy(), ctx.fn('h_tcan'), [P, X]):
            e.oblige(q, "a transition matches exactly its event", z3.And(z3.BoolVal(k == 'ret'), (v if z3.is_bool(v) else v != 0) == (x == ev)) if k == 'ret' else False)
        R, _x = M.str('result', None, st)
        for k, q, v in e.run_fn(st, ctx.fn('h_tdest'), [P, R]):
            e.oblige(q, "a transition leads to its destination", S.sget(q, R) == d if k == 'ret' else False)
    M = Fsm(ctx)
    s, S = M.s, M.S
    r = s.new_region('state', ctx.const('c_sizeof_state'), 'undef')
    P = Ptr(r.id, 0)
    I_, i = M.str('id')
    L = fbv('TRANS', 64)
    s.assume(z3.ULT(L, bv(1 << 30)))
    V = Ptr(s.new_region('trans', 24).id, 0)
    S.vset(s, V, M.elT, L)
    for st, _ in rets(M, 'h_sctor', [P, I_, V]):
        R, _x = M.str('result', None, st)
        for k, q, v in e.run_fn(st, ctx.fn('h_sid'), [P, R]):
            e.oblige(q, "a state keeps its id", S.sget(q, R) == i if k == 'ret' else False)
            W = Ptr(q.new_region('res', 24).id, 0)
            for k2, q2, v2 in e.run_fn(q, ctx.fn('h_strans'), [P, W]):
                e.oblige(q2, "a state keeps its transitions in order", S.vget(q2, W, M.elT) == L if k2 == 'ret' else False)


UNITS = [Unit('update', unit_update('h_update', False)), Unit('enqueueAndUpdate', unit_update('h_enqupd', True)), Unit('start', unit_start), Unit('stop, reset, enqueueEvent, registerObserver, unregisterObservers', unit_simple),
         Unit('construction', unit_ctor), Unit('StateImpl, TransitionImpl', unit_parts)]
SRCS = ['state_machine/modules/state_machine/src/%s.cpp' % x for x in ('state_machine_impl', 'state_impl', 'transition_impl')]
DRIVERS = [dict(src='d08.cpp', secs=4, srcs=SRCS, flags=['-fno-access-control'])]
ASSUMPTIONS = ['std::string, vector, unordered_map, queue, function and shared_ptr by contract over abstract values (kvc/stl.py)', 'allocation never fails', 'a linear search of libstdc++ is replaced by the same search without unrolling (harness/shim.h)',
               'states and transitions of a machine are StateImpl and TransitionImpl', 'a machine is used by one thread at a time; observers may use it while they run but do not destroy it']
BOUNDED = 'random machines of up to 5 states and histories of up to 30 operations, with observers that update, register, unregister or stop'
EXPLANATION = 'StateMachineImpl (construction, start, stop, reset, enqueueEvent, update, enqueueAndUpdate, observers), StateImpl, TransitionImpl, for every table, event queue and list of observers'
