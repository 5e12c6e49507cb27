"""C17: an event reaches exactly the listeners registered for it, in order; one-time listeners once"""
from props.emmodel import *
from props.emmulti import MULTI, MULTI2
import re as _re


def rets(M, fn, args, may_throw=None):
    e = M.e
    n = 0
    for o in e.run_fn(M.s, M.ctx.fn(fn), args):
        if o[0] == 'throw':
            if may_throw is None or o[2][1] != may_throw:
                e.oblige(o[1], f"no exception leaves the operation", False)
                continue
            n += 1
            yield o[1], 'throw'
            continue
        if o[0] != 'ret':
            continue
        n += 1
        yield o[1], o[2]
    e.oblige(M.s, "the operation can complete", n > 0)


def string(M, name):
    s = M.s
    v = M.S.fresh_id(s)
    r = s.new_region(name, 32)
    r.cells[0] = (8, v)
    return Ptr(r.id, 0), v


def serve(ctx):
    M = Em(ctx)
    s = M.s
    M.w = fbv('listener', 64)
    s.assume(z3.ULT(M.w, W30), z3.ULT(M.k, bv(B)))
    key, M.key = string(M, 'subscriber')
    return M, key


def unlocked(M, st):
    M.e.oblige(st, "the lock is released", z3.Not(st.g('held')))


def served(M, st):
    """position kstar existed when the listeners were taken"""
    return z3.And(st.g('q'), z3.ULT(M.k, M.n(st.g('Wq'))))


def need_query(M, st):
    if not st.ghost.get('k?'):
        raise Unsupported('the listeners of the subscriber are not looked up by name')


def unit_emit(ctx):
    M, key = serve(ctx)
    e, s, w = M.e, M.s, M.w
    time = fbv('time', 64)
    ev = s.new_region('event', 4)
    ev.cells[0] = (4, fbv('event', 32))
    E = Ptr(ev.id, 0)

    def run(eng, st, I, args):
        t = M.token(args[0])
        need_query(M, st)
        W = st.g('Wq')
        eng.oblige(st, "no lock is held while a listener runs", z3.Not(st.g('held')))
        eng.oblige(st, "listeners are given the event", isinstance(args[1], Ptr) and args[1].r == E.r and oz(args[1].o).eq(oz(E.o)))
        eng.oblige(st, "listeners are told when the event was enqueued", args[2] == time)
        eng.oblige(st, "only listeners of the subscriber run", z3.And(st.g('q'), REG(W, t), z3.UGE(POS(W, t), LO(W, M.key)), z3.ULT(POS(W, t), HI(W, M.key))))
        me = t == w
        later = z3.And(REG(W, t), z3.UGT(POS(W, t), LO(W, M.key) + M.k), z3.ULT(POS(W, t), HI(W, M.key)))
        eng.oblige(st, "a listener is told of an event once", z3.Implies(z3.And(served(M, st), me), z3.Not(st.g('ran'))))
        eng.oblige(st, "listeners run in the order of their registration", z3.Implies(z3.And(served(M, st), me), z3.Not(st.g('ran2'))))
        eng.oblige(st, "a one-time listener runs only for the emission that claimed it", z3.Implies(z3.And(served(M, st), me, ONCE(w)), z3.Or(st.g('took'), st.g('mine'))))
        st.setg('ran', simp(z3.Or(st.g('ran'), me)))
        st.setg('ran2', simp(z3.Or(st.g('ran2'), later)))
        th = st.copy()
        return [(st, 'val', None)]

    M.cb = run
    ctx.cover('a listener is registered', s, z3.ULT(M.k, M.n(M.W0)))
    for st, r in rets(M, 'h_emit', [M.P, key, time, E]):
        need_query(M, st)
        k = served(M, st)
        e.oblige(st, "every listener registered for the subscriber is told, unless a one-time listener already ran", z3.Implies(k, z3.Or(st.g('ran'), z3.And(ONCE(w), z3.Or(st.g('skipped'), st.g('lost'))))))
        e.oblige(st, "a one-time listener that ran is not registered any more", z3.Implies(z3.And(k, ONCE(w), st.g('ran')), st.g('gone')))
        e.oblige(st, "only one-time listeners are unregistered by an emission", z3.Implies(z3.And(k, z3.Not(ONCE(w))), z3.Not(st.g('mine'))))
        e.oblige(st, "an emission registers nobody and discards nothing", z3.And(st.g('ins') == bv(0), st.g('clears') == bv(0), M.discarded(st) == M.d0))
        unlocked(M, st)


def unit_discard(ctx):
    M, key = serve(ctx)
    e, s, w = M.e, M.s, M.w
    M.x = x = fbv('foreign', 64)
    s.assume(z3.ULT(x, W30), z3.ULT(STT(w), W30))
    M.d0 = M.discarded(s)
    hf = M.handler_facts

    def facts(st, lid, j):  # foreign: the statistics of no listener of this subscriber
        hf(st, lid, j)
        st.assume(z3.Implies(z3.ULT(j, M.elH.len(lid)), STT(M.at(st, lid, j)) != x))

    M.handler_facts = facts
    for st, r in rets(M, 'h_discard', [M.P, key]):
        need_query(M, st)
        k = served(M, st)
        D = M.discarded(st)
        e.oblige(st, "a discarded event is counted once by every listener of the subscriber", z3.Implies(z3.And(k, STT(w) != bv(0)), z3.Select(D, STT(w)) == z3.Select(M.d0, STT(w)) + bv(1)))
        e.oblige(st, "a discarded event is counted by nobody else", z3.Select(D, x) == z3.Select(M.d0, x))
        e.oblige(st, "discarding changes no registration", z3.And(st.g('ins') == bv(0), st.g('ers') == bv(0), st.g('clears') == bv(0)))
        unlocked(M, st)


def find(ctx, null=True):
    M = Em(ctx)
    M.w = fbv('listener', 64)
    M.s.assume(z3.ULT(M.w, W30))
    M.id = fbv('id', 32)
    return M


def unit_remove(null):
    def run(ctx):
        M = find(ctx)
        e, s, w = M.e, M.s, M.w
        c = M.container(null)
        for st, r in rets(M, 'h_remove', [M.P, c, M.id], '_ZTISt16invalid_argument'):
            t = st.g('ertok')
            if r == 'throw':
                e.oblige(st, "an invalid id is reported only when nobody has it, and nothing changes", z3.And(st.g('ers') == bv(0), z3.Implies(REG(st.g('W'), w), LID(w) != M.id)))
                e.oblige(st, "no statistics are detached for an invalid id", st.g('det') == bv(0))
            else:
                e.oblige(st, "exactly the listener with the given id is removed", z3.And(st.g('ers') == bv(1), LID(t) == M.id))
                if null:
                    e.oblige(st, "without a container nothing is detached", st.g('det') == bv(0))
                else:
                    e.oblige(st, "the statistics of the removed listener are detached, once", z3.If(STT(t) == bv(0), st.g('det') == bv(0), z3.And(st.g('det') == bv(1), st.g('dets') == STT(t))) if 'dets' in st.ghost else z3.And(STT(t) == bv(0), st.g('det') == bv(0)))
            e.oblige(st, "no other listener is touched", z3.And(st.g('ins') == bv(0), st.g('clears') == bv(0)))
            unlocked(M, st)

    return run


def unit_removeall(null):
    def run(ctx):
        M = find(ctx)
        e, s, w = M.e, M.s, M.w
        s.ghost['dets'] = bv(0)
        M.at_clear = None
        S = M.S
        orig = S.mm_clear

        def clear(st, I, a, P, T):
            st.setg('regc', REG(st.g('W'), w))
            return orig(st, I, a, P, T)

        S.mm_clear = clear
        s.ghost['regc'] = F_
        for st, r in rets(M, 'h_removeall', [M.P, M.container(null)]):
            e.oblige(st, "all listeners are removed", st.g('clears') != bv(0))
            if null:
                e.oblige(st, "without a container nothing is detached", st.g('det') == bv(0))
            else:
                e.oblige(st, "the statistics of every removed listener are detached", z3.Implies(z3.And(st.g('regc'), STT(w) != bv(0)), st.g('dett')))
            unlocked(M, st)

    return run


def unit_stats(ctx):
    M = find(ctx)
    e, s, w = M.e, M.s, M.w
    out = s.new_region('result', 16)
    for st, r in rets(M, 'h_stats', [M.P, M.id, Ptr(out.id, 0)]):
        v = e.load(st, Ptr(out.id, 0), I64)
        e.oblige(st, "statistics are those of the listener with the given id", z3.Implies(z3.And(REG(st.g('W'), w), LID(w) == M.id), v == STT(w)))
        # nobody has the id: none
        f = st.g('found')
        e.oblige(st, "an unknown id has no statistics", z3.Or(v == bv(0), z3.And(f != bv(-1), STT(f) == v, LID(f) == M.id)))
        e.oblige(st, "asking for statistics changes no registration", z3.And(st.g('ins') == bv(0), st.g('ers') == bv(0), st.g('clears') == bv(0)))
        unlocked(M, st)


def unit_add(once, null=True):
    def run(ctx):
        M = find(ctx)
        e, s, w = M.e, M.s, M.w
        S = M.S
        sub, sv = string(M, 'subscriber')
        lst, lv = string(M, 'listener')
        f = s.new_region('callback', 32)
        cb = fbv('callback', 64)
        f.cells[0] = (8, cb)
        F = Ptr(f.id, 0)
        s.ghost['dets'] = bv(0)
        if once:
            it = rets(M, 'h_once', [M.P, sub, F])
        else:
            it = rets(M, 'h_on', [M.P, M.container(null), lst, sub, F])
        for st, r in it:
            e.oblige(st, "exactly one listener is registered", z3.And(st.g('ins') == bv(1), st.g('ers') == bv(0), st.g('clears') == bv(0)))
            e.oblige(st, "ids are handed out once", z3.And(r == st.g('last'), st.g('last') == st.g('last0') + bv(1, 32)))
            unlocked(M, st)
            p = st.ghost.get('insptr')
            if not isinstance(p, Ptr) or p.r not in st.mem:
                continue
            e.oblige(st, "it is registered for the named subscriber", st.ghost['inskey'] == sv)
            ld = lambda a, T: e.load(st, p.add(M.off(a)), T)
            e.oblige(st, "it has the id that is returned", ld('a_lid', I32) == r)
            e.oblige(st, "it holds the callback that was passed", S.fget(st, p.add(M.off('a_cb'))) == cb)
            o = ld('a_once', I8)
            e.oblige(st, "it runs once or repeatedly as asked", (o != bv(0, 8)) == z3.BoolVal(once))
            if M.flag is not None:
                e.oblige(st, "a new listener has not run yet", e.load(st, p.add(M.flag), I8) == bv(0, 8))
            t = ld('a_stats', I64)
            v = e.load(st, p, PT)
            ok = isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith('@_ZTV')
            e.oblige(st, "it is a listener object", ok)
            if ok:
                st.ghost['vt'] = v.r
                withst = 'WithStats' in v.r
                e.oblige(st, "a listener that keeps statistics has them", z3.BoolVal(not withst) if False else z3.Implies(z3.BoolVal(withst), t != bv(0)))
            if once:
                e.oblige(st, "one-time listeners keep no statistics", z3.And(t == bv(0), st.g('att') == bv(0)))
            else:
                e.oblige(st, "a listener has statistics of its own, under its name", z3.And(t != bv(0), t == st.g('mades'), st.g('made') == bv(1), st.g('maden') == sv, st.g('madeo') == lv))
                e.oblige(st, "its statistics are attached to the container, if there is one", st.g('att') == bv(0) if null else z3.And(st.g('att') == bv(1), st.g('atts') == t))
                e.oblige(st, "running it keeps its statistics", z3.BoolVal(ok and withst))

    return run


def unit_run(which):
    """runCallback of the two kinds of listeners, the callee contract of emitEvent"""

    def run(ctx):
        M = find(ctx)
        e, s, S = M.e, M.s, M.S
        g = [x for x in ctx.mod.globals if x.startswith('_ZTVN4kpsr16SafeEventEmitter') and which in x]
        if not g:
            raise Unsupported('no such listener class')
        e.load_global(s, '@' + g[0])
        slot = [i for i, b in M.slots.items() if b][0]
        v = s.mem['@' + g[0]].cells[16 + 8 * slot][1]
        fn = ctx.mod.funcs[v.r[1]]
        # a listener: an arbitrary registered one
        t = M.w
        s.assume(STT(t) != bv(0) if which == 'ListenerWithStats' else z3.BoolVal(True), z3.ULT(STT(t), W30))
        time = fbv('time', 64)
        ev = s.new_region('event', 4)
        ev.cells[0] = (4, fbv('event', 32))
        E = Ptr(ev.id, 0)
        s.ghost.update(calls=bv(0), started=F_, stopped=F_)
        fo = M.off('a_enqueued')
        enq = lambda st: st.mem[M.str].segs[0].fields[fo][2]
        q0 = enq(s)

        def call(st, I, f, args, P):
            e.oblige(st, "the listener's own callback runs, with the event", z3.And(f == CBK(t), z3.BoolVal(isinstance(args[0], Ptr) and args[0].r == E.r)))
            e.oblige(st, "the measurement includes the callback", z3.And(st.g('started') == z3.BoolVal(which == 'ListenerWithStats'), z3.Not(st.g('stopped'))))
            st.setg('calls', simp(st.g('calls') + bv(1)))
            return [(st, 'val', None), (st.copy(), 'throw', e.throw_new(st, '_ZTISt13runtime_error'))][:1]

        S.on_call = call

        def meas(name):
            def h(eng, st, I, a, f):
                eng.oblige(st, "statistics are the listener's own", z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].r == M.str), S.quot(a[0].o, M.nst) == STT(t)))
                st.setg(name, T_)
                return [(st, 'val', None)]

            return h

        e.contract(r'SubscriptionStats::startProcessMeasure', meas('started'))
        e.contract(r'SubscriptionStats::stopProcessMeasure', meas('stopped'))
        n = 0
        for o in e.run_fn(s, fn, [Ptr(M.lr, t * bv(M.nl)), E, time]):
            if o[0] != 'ret':
                e.oblige(o[1], "no exception", False)
                continue
            n += 1
            st = o[1]
            e.oblige(st, "the callback runs exactly once", st.g('calls') == bv(1))
            q = enq(st)
            if which == 'ListenerWithStats':
                e.oblige(st, "the measurement ends", st.g('stopped'))
                inc = st.ghost['now'] - time if 'now' in st.ghost else bv(0)
                e.oblige(st, "time spent in the queue is accounted", z3.Select(q, STT(t)) == z3.Select(q0, STT(t)) + z3.If(time == bv(0), bv(0), inc))
            else:
                e.oblige(st, "no statistics are touched", q == q0)
        e.oblige(s, "the operation can complete", n > 0)

    return run


SINGLE = {'new': [], 'listening with statistics': ['on'], 'listening': ['on0'], 'removed': ['on', 'remove'], 'removed, statistics kept': ['on', 'remove0'],
          'removed, had none': ['on0', 'remove']}


class Single:
    """an UnsafeSingleListenerEventEmitter brought into one of its abstract states, with arbitrary names, callbacks and statistics"""

    def __init__(self, ctx, path):
        M = self.M = Em(ctx)
        M.w = fbv('w', 64)
        M.id = None
        self.ctx, self.e, self.S = ctx, ctx.eng, M.S
        e, s = M.e, M.s
        self.n = 0
        self.o = s.new_region('single emitter', ctx.const('c_sizeof_ue'), 'undef')
        self.U = Ptr(self.o.id, 0)
        self.C = M.container(False)
        s.ghost.update(dets=bv(0), atts=bv(0), calls=bv(0), called=bv(0), callok=T_, started=bv(0), stopped=bv(0), own=T_)
        ev = s.new_region('event', 4)
        ev.cells[0] = (4, fbv('event', 32))
        self.E = Ptr(ev.id, 0)

        def call(st, I, f, args, P):
            st.setg('calls', simp(st.g('calls') + bv(1)))
            st.setg('called', f)
            st.setg('callok', simp(z3.And(st.g('callok'), z3.BoolVal(isinstance(args[0], Ptr) and args[0].r == self.E.r))))
            return [(st, 'val', None)]

        self.S.on_call = call

        def meas(name):
            def h(eng, st, I, a, f):
                ok = isinstance(a[0], Ptr) and a[0].r == M.str
                st.setg('own', simp(z3.And(st.g('own'), self.S.quot(a[0].o, M.nst) == st.ghost['m'][3])) if ok else F_)
                st.setg(name, simp(st.g(name) + bv(1)))
                return [(st, 'val', None)]

            return h

        e.contract(r'SubscriptionStats::startProcessMeasure', meas('started'))
        e.contract(r'SubscriptionStats::stopProcessMeasure', meas('stopped'))
        st = self.one(s, 'u_ctor', [self.U])
        st.ghost['m'] = (False, bv(0), bv(0), bv(0), False)  # registered, subscriber, callback, statistics, measured
        for op in path:
            st = self.op(st, op)
        self.st = st

    def one(self, st, fn, args):
        outs = [o for o in self.e.run_fn(st, self.ctx.fn(fn), args) if self.e.feasible(o[1])]
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise Unsupported(f'{fn} has {len(outs)} outcomes')
        self.r = outs[0][2]
        return outs[0][1]

    def str_(self, st, name):
        v = self.S.fresh_id(st)
        r = st.new_region(name, 32)
        r.cells[0] = (8, v)
        return Ptr(r.id, 0), v

    def fn(self, st):
        f = st.new_region('callback', 32)
        cb = fbv('callback', 64)
        st.assume(cb != bv(0), z3.ULT(cb, W30))
        f.cells[0] = (8, cb)
        return Ptr(f.id, 0), cb

    def stats(self, st):
        return self.e.load(st, self.ctx.acc('a_ustats', self.U), I64)

    def op(self, st, op, check=False):
        e, M = self.e, self.M
        ob = (lambda *a: e.oblige(*a)) if check else (lambda *a: None)
        reg, sub, cb, stt, measured = st.ghost['m']
        for k in ('att', 'det', 'calls', 'started', 'stopped', 'made'):
            st.setg(k, bv(0))
        st.setg('own', T_)
        st.setg('callok', T_)
        d0 = M.discarded(st)
        quiet = lambda x: z3.And(x.g('att') == bv(0), x.g('det') == bv(0), x.g('calls') == bv(0))
        if op in ('on', 'on0'):
            l, lv = self.str_(st, 'listener')
            s, sv = self.str_(st, 'subscriber')
            f, c = self.fn(st)
            st = self.one(st, 'u_on', [self.U, self.C if op == 'on' else NULL, l, s, f])
            ob(st, "the only listener has id 0", self.r == bv(0, 32))
            if reg:
                ob(st, "a second listener is not registered", z3.And(quiet(st), self.stats(st) == stt))
            else:
                t = self.stats(st)
                if op == 'on':
                    ob(st, "a new listener has statistics of its own, attached once, under its name", z3.And(t != bv(0), st.g('made') == bv(1), t == st.g('mades'), st.g('maden') == sv, st.g('madeo') == lv,
                                                                                                          st.g('att') == bv(1), st.g('atts') == t, st.g('det') == bv(0), st.g('calls') == bv(0)))
                else:
                    ob(st, "without a container a listener has no statistics", z3.And(quiet(st), t == bv(0)))
                st.ghost['m'] = (True, sv, c, t, op == 'on')
        elif op in ('remove', 'remove0', 'removeall', 'removeall0', 'removeother'):
            c = NULL if op.endswith('0') else self.C
            idv = bv(0, 32)
            if op == 'removeother':
                idv = fbv('id', 32)
                st.assume(idv != bv(0, 32))
            st = self.one(st, 'u_removeall' if 'all' in op else 'u_remove', [self.U, c] + ([] if 'all' in op else [idv]))
            if op == 'removeother':
                ob(st, "an unknown id removes nothing", z3.And(quiet(st), self.stats(st) == stt))
            elif op.endswith('0'):
                ob(st, "without a container nothing is attached or detached", quiet(st))
                st.ghost['m'] = (False, sub, cb, self.stats(st), measured)
            else:
                ob(st, "the statistics of the removed listener are detached, once, and forgotten",
                   z3.And(st.g('att') == bv(0), st.g('calls') == bv(0), self.stats(st) == bv(0), z3.If(stt == bv(0), st.g('det') == bv(0), z3.And(st.g('det') == bv(1), st.g('dets') == stt))))
                st.ghost['m'] = (False, sub, cb, bv(0), measured)
        elif op == 'emit':
            s, sv = self.str_(st, 'addressee')
            time = fbv('time', 64)
            q0 = st.mem[M.str].segs[0].fields[M.off('a_enqueued')][2]
            n = 0
            for o in e.run_fn(st, self.ctx.fn('u_emit'), [self.U, s, time, self.E]):
                x = o[1]
                n += 1
                if o[0] != 'ret':
                    ob(x, f"no exception leaves the operation ({o[0]} {o[2]})", False)
                    continue
                hit = sv == sub if reg else F_
                ob(x, "the listener runs once, exactly if it is registered for the subscriber", z3.If(hit, z3.And(x.g('calls') == bv(1), x.g('called') == cb, x.g('callok')), x.g('calls') == bv(0)))
                ob(x, "an emission changes no registration", z3.And(x.g('att') == bv(0), x.g('det') == bv(0), self.stats(x) == stt, M.discarded(x) == d0))
                m = bv(1 if measured else 0)
                ob(x, "its own statistics measure it, if it has any", z3.And(x.g('own'), x.g('started') == z3.If(hit, m, bv(0)), x.g('stopped') == x.g('started')))
                if measured and reg:
                    q = x.mem[M.str].segs[0].fields[M.off('a_enqueued')][2]
                    now = x.ghost.get('now')
                    ob(x, "time spent in the queue is accounted", z3.Implies(hit, z3.Select(q, stt) == z3.Select(q0, stt) + (z3.If(time == bv(0), bv(0), now - time) if now is not None else bv(0))))
            ob(st, "the operation can complete", n > 0)
        elif op == 'discard':
            s, sv = self.str_(st, 'addressee')
            x_ = fbv('other', 64)
            st.assume(x_ != stt, z3.ULT(x_, W30), z3.ULT(stt, W30))
            for o in e.run_fn(st, self.ctx.fn('u_discard'), [self.U, s]):
                x = o[1]
                if o[0] != 'ret':
                    ob(x, f"no exception leaves the operation ({o[0]} {o[2]})", False)
                    continue
                D = M.discarded(x)
                ob(x, "a discarded event is counted by nobody else", z3.And(quiet(x), z3.Select(D, x_) == z3.Select(d0, x_)))
                if reg:
                    ob(x, "a discarded event is counted once by the listener of the subscriber", z3.Implies(stt != bv(0), z3.Select(D, stt) == z3.Select(d0, stt) + z3.If(sv == sub, bv(1), bv(0))))
        elif op == 'stats':
            out = st.new_region('result', 16)
            idv = fbv('id', 32)
            for o in e.run_fn(st, self.ctx.fn('u_stats'), [self.U, idv, Ptr(out.id, 0)]):
                x = o[1]
                if o[0] != 'ret':
                    ob(x, f"no exception leaves the operation ({o[0]} {o[2]})", False)
                    continue
                v = e.load(x, Ptr(out.id, 0), I64)
                ob(x, "statistics are those of the listener, for its id only", z3.And(quiet(x), v == z3.If(idv == bv(0, 32), stt, bv(0))))
        elif op == 'once':
            s, sv = self.str_(st, 'subscriber')
            f, c = self.fn(st)
            for o in e.run_fn(st, self.ctx.fn('u_once'), [self.U, s, f]):
                ob(o[1], "one-time listeners are refused, and nothing changes", z3.And(z3.BoolVal(o[0] == 'throw' and o[2][1] == '_ZTISt16invalid_argument'), quiet(o[1]), self.stats(o[1]) == stt))
        return st


def unit_single(name):
    def run(ctx):
        U = Single(ctx, SINGLE[name])
        e = U.e
        reg, sub, cb, stt, measured = U.st.ghost['m']
        for op in ('on', 'on0', 'remove', 'remove0', 'removeall', 'removeall0', 'removeother', 'emit', 'discard', 'stats', 'once'):
            st = U.op(U.st.copy(), op, True)
            # the states considered are all there are
            r2, _, _, t2, m2 = st.ghost['m']
            has = simp(t2 != bv(0))
            if r2:
                e.oblige(st, "a listener has statistics exactly if it was registered with a container", has == z3.BoolVal(m2))
            elif not m2:
                e.oblige(st, "no statistics appear from nowhere", z3.Not(has))

    return run


UNITS = [Unit('emit', unit_emit), Unit('discard', unit_discard), Unit('remove', unit_remove(False)), Unit('remove without container', unit_remove(True)),
         Unit('remove all', unit_removeall(False)), Unit('remove all without container', unit_removeall(True)), Unit('statistics', unit_stats),
         Unit('on', unit_add(False, False)), Unit('on without container', unit_add(False, True)), Unit('once', unit_add(True)),
         Unit('run', unit_run('ListenerBase')), Unit('run with statistics', unit_run('ListenerWithStats'))]
UNITS += [Unit('single: ' + n, unit_single(n)) for n in SINGLE]
UNITS += MULTI + MULTI2
CONFIGS = [('default', ())]
CFLAGS = ('-I', f'{VERIF}/harness/sdk')
L = ['-lspdlog', '-lfmt', '-lpthread']
FL = ['-I', f'{VERIF}/harness/sdk']
DRIVERS = [dict(src='d17.cpp', flags=FL, libs=L, secs=4), dict(src='d17.cpp', flags=FL, libs=L, san=TSAN, secs=3)]
ASSUMPTIONS = ['the KlepsydraSDK classes (containers, statistics, clock) are stand-ins in harness/sdk, as they are not part of the repository; attaching and detaching only records',
               'std::multimap, std::vector, std::shared_ptr and std::mutex by contract: equal keys keep the order of insertion, iterators stay valid while the map is unchanged',
               'fewer than 2^32 registrations (ids do not wrap) and fewer than 2^24 listeners at a time; listeners of one emitter are registered and removed with the same container, or without any',
               'listeners do not throw; what other threads (and listeners themselves) do to the registrations happens while the lock is free',
               'the unsafe emitters are used by one thread; the one for several listeners has fewer than 2^24 listeners in its life, its loops over maps meet every entry once in any order, and its listeners do not register or remove listeners while it emits']
BOUNDED = 'random histories of up to 25 operations on each of the three emitters (on the safe one also from inside listeners, up to 20 deep) against a reference; up to 4 threads emitting to one-time and permanent listeners'
EXPLANATION = 'every operation of the safe emitter for any number of listeners, threads and registrations changing whenever the lock is free; every operation of the single-listener emitter in each of its states; every operation of the emitter for several listeners of one thread, for any contents of its maps and lists, with the invariant that ties them together (removing one of its listeners: in the thorough tier)'
