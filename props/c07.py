"""C07: an event processor delivers every event exactly once and in order, and halt() ends it"""
import z3
from kvc.check import *
from props.seqmodel import *

HARNESS = 'c07_processor.cpp'
T, F = z3.BoolVal(True), z3.BoolVal(False)


def env(s):
    """halt() from another thread: first clears `running`, then raises the alert; other threads may raise alerts too"""
    if s.ghost.get('noenv'):
        return
    h2, a2 = fbv('hs', 8), fbv('al', 1)
    h, a = s.g('hs'), s.g('A')
    s.assume(z3.UGE(h2, h), z3.ULE(h2, 2))
    s.assume(z3.Implies(a, a2), z3.Implies(z3.And(h != bv(2, 8), h2 == bv(2, 8)), a2))
    s.setg('run', simp(z3.And(s.g('run'), z3.Not(z3.And(h == bv(0, 8), h2 != bv(0, 8))))))
    s.setg('A', a2)
    s.setg('hs', h2)


class RunHook:
    def load(self, eng, s, p, ty, order):
        eng.oblige(s, "running flag is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        if z3.is_true(simp(s.g('started'))) or True:
            self.env(s)
        return simp(z3.If(s.g('run'), bv(1, ty.width), bv(0, ty.width)))

    def env(self, s):
        st = simp(s.g('started'))
        if z3.is_true(st):
            env(s)

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "running flag is written with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        self.env(s)
        s.setg('run', simp(z3.Extract(0, 0, v) == 1))
        s.setg('wrote', simp(z3.Extract(0, 0, v) == 1))
        s.setg('ended', T)
        return None

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        w = ty.width
        eng.oblige(s, "starting is an atomic false -> true transition", z3.And(z3.Extract(0, 0, e) == 0, z3.Extract(0, 0, n) == 1))
        ok, bad = s, s.copy()
        ok.setg('started', T)
        ok.setg('run', T)
        ok.setg('hs', bv(0, 8))
        bad.setg('busy', T)
        return [(ok, 'val', Agg([bv(0, w), T])), (bad, 'val', Agg([bv(1, w), F]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        if op != 'xchg':
            raise Unsupported('running rmw')
        # exchange(true) as a start
        ok, bad = s, s.copy()
        ok.setg('started', T)
        ok.setg('run', T)
        ok.setg('hs', bv(0, 8))
        bad.setg('busy', T)
        return [(ok, 'val', bv(0, ty.width)), (bad, 'val', bv(1, ty.width))]


class SeqHook:
    def load(self, eng, s, p, ty, order):
        return s.g('S')

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "progress is published with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        eng.oblige(s, "progress never passes an event that was not delivered", v <= s.g('E') - bv(1))
        eng.oblige(s, "progress never goes back", v >= s.g('S'))
        s.setg('S', v)
        return None

    def cmpxchg(self, *a):
        raise Unsupported('sequence rmw')

    rmw = cmpxchg


EVSTRIDE = 64


def setup(ctx, kind):
    e = ctx.eng
    s = ctx.state()
    s.ghost.update(started=F, run=F, hs=bv(0, 8), A=fbv('A0', 1), S=s64('S0'), E=s64('E'), av=s64('av0'), pend=F, nstart=bv(0, 8), nstop=bv(0, 8),
                   busy=F, cleared=F, wrote=T, ended=F, startexc=F, stopexc=F, called=F, tmo=F, evs=bv(0))
    s.assume(s.g('S') >= bv(-1), s.g('S') <= bv(LIM), s.g('E') == s.g('S') + bv(1))
    s.ghost['E0'] = s.g('E')
    rb = s.new_region('ringbuffer', None, 'input')
    bar = s.new_region('barrier', None, 'input')
    kh = s.new_region('handler', 8)
    ev = s.new_region('EVENTS', None, 'input')
    ev.segs.append(Seg(0, bv(1 << 40), EVSTRIDE, {0: ['int', 4, z3.Array('ev', BV64, z3.BitVecSort(32))]}, name='events'))
    e.suppress += 1
    (_, s, _), = [o for o in e.run_fn(s, ctx.fn('h_kh'), [Ptr(kh.id, 0)]) if o[0] == 'ret']
    p = s.new_region(kind, ctx.const('c_sizeof_' + kind), 'undef')
    outs = [o for o in e.run_fn(s, ctx.fn(f'h_{kind}_ctor'), [Ptr(p.id, 0), Ptr(rb.id, 0), Ptr(bar.id, 0)] + ([Ptr(kh.id, 0)] if kind == 'bep' else [])) if o[0] == 'ret']
    e.suppress -= 1
    (_, s, _), = outs
    P = Ptr(p.id, 0)
    so, ro = ctx.acc(f'a_{kind}_seq', P).o, ctx.acc(f'a_{kind}_running', P).o
    init = (s.mem[p.id].cells.get(so), s.mem[p.id].cells.get(ro))
    s.wreg(p.id).hooks = {so: SeqHook(), ro: RunHook()}
    B = Ptr(bar.id, 0)

    def index(eng, st, I, args, fn):
        eng.oblige(st, "events are taken from the processor's own ring buffer", args[0].r == rb.id and args[0].o == 0)
        q = args[1]
        c, t = linform(q)
        return Ptr(ev.id, from_lin((c * EVSTRIDE) & M64, {i: (x, (k * EVSTRIDE) & M64) for i, (x, k) in t.items()}))

    def slot_of(q):
        c, t = linform(q)
        return Ptr(ev.id, from_lin((c * EVSTRIDE) & M64, {i: (x, (k * EVSTRIDE) & M64) for i, (x, k) in t.items()}))

    def waitc(eng, st, I, args, fn):
        eng.oblige(st, "waits on its own barrier", args[0].r == bar.id)
        eng.oblige(st, "asks for exactly the next event not yet delivered", args[1] == st.g('E'))
        eng.oblige(st, "everything delivered so far is released to the producers before waiting", st.g('S') == st.g('E') - bv(1))
        eng.oblige(st, "a failed event is reported before going on", z3.Not(st.g('pend')))
        eng.oblige(st, "a failed timeout call is reported before going on", z3.Not(st.g('tpend')))
        eng.oblige(st, "an alert from before the start was cleared (a restarted processor does not trip over the old halt)", st.g('cleared'))
        eng.oblige(st, "on_start is called before events are awaited", z3.And(st.g('started'), st.g('nstart') == bv(1, 8)) if kind == 'bep' else st.g('started'))
        eng.oblige(st, "a halted processor does not wait without a pending alert (halt is never lost)", z3.Not(z3.And(st.g('hs') == bv(2, 8), z3.Not(st.g('A')))))
        env(st)
        al, tm = st.copy(), st.copy()
        av = s64('av')
        st.assume(av >= st.g('E') - bv(1), av <= bv(LIM))
        st.setg('av', av)
        st.setg('called', T)
        if kind == 'nop':
            st.setg('E', av + bv(1))
        al.assume(al.g('A'))
        tm.setg('tmo', T)
        return [(st, 'val', av), (al, 'enter', (ctx.fn('t_alert'), [])), (tm, 'enter', (ctx.fn('t_timeout'), []))]

    def clearc(eng, st, I, args, fn):
        eng.oblige(st, "the alert is cleared only by the thread that started running", st.g('started'))
        env(st)
        st.setg('A', F)
        st.setg('cleared', T)
        return None

    e.contract(r'disruptor4cpp::ring_buffer<.*>::operator\[\]\(long\)', index)
    e.contract(r'disruptor4cpp::sequence_barrier<.*>::wait_for\(long\)', waitc)
    e.contract(r'disruptor4cpp::sequence_barrier<.*>::clear_alert\(', clearc)

    def start(eng, st, I, args, fn):
        eng.oblige(st, "on_start is called once, after the processor has started", z3.And(st.g('started'), st.g('nstart') == bv(0, 8)))
        st.setg('nstart', st.g('nstart') + bv(1, 8))
        x = st.copy()
        x.setg('startexc', T)
        return [(st, 'val', None), (x, 'enter', (ctx.fn('t_std'), []))]

    def stop(eng, st, I, args, fn):
        eng.oblige(st, "on_shutdown is called once, while still marked as running by this thread", z3.And(st.g('nstop') == bv(0, 8), st.g('nstart') == bv(1, 8), z3.Not(st.g('ended'))))
        st.setg('nstop', st.g('nstop') + bv(1, 8))
        x = st.copy()
        x.setg('stopexc', T)
        return [(st, 'val', None), (x, 'enter', (ctx.fn('t_std'), []))]

    def event(eng, st, I, args, fn):
        pe, q, eob = args
        eng.oblige(st, "events are delivered once each and in order", q == st.g('E'))
        eng.oblige(st, "only available events are delivered", q <= st.g('av'))
        w = slot_of(q)
        eng.oblige(st, "the event handed over is the one of that sequence", eng.ptr_eq(st, pe, w) if isinstance(pe, Ptr) else False)
        b = eob if z3.is_bool(eob) else z3.Extract(0, 0, eob) == 1
        eng.oblige(st, "end of batch is flagged exactly on the last available event", b == (q == st.g('av')))
        eng.oblige(st, "a failed event is reported before the next one is delivered", z3.Not(st.g('pend')))
        st.setg('E', simp(q + bv(1)))
        env(st)
        x, y = st.copy(), st.copy()
        x.setg('pend', T)
        y.setg('fatal', T)
        return [(st, 'val', None), (x, 'enter', (ctx.fn('t_std'), [])), (y, 'enter', (ctx.fn('t_int'), []))]

    def timeout(eng, st, I, args, fn):
        eng.oblige(st, "on_timeout is called only after a timeout, with the processor's own progress", z3.And(st.g('tmo'), args[0] == st.g('S')))
        st.setg('tmo', F)
        x = st.copy()
        x.setg('tpend', T)
        return [(st, 'val', None), (x, 'enter', (ctx.fn('t_std'), []))]

    def eexc(eng, st, I, args, fn):
        xx, q, pe = args
        if z3.is_true(simp(st.g('tpend'))):
            eng.oblige(st, "a failing on_timeout is reported", z3.And(q == st.g('S'), z3.BoolVal(isinstance(pe, Ptr) and pe.r is None)))
            st.setg('tpend', F)
            return None
        eng.oblige(st, "on_event_exception only for an event that failed", st.g('pend'))
        eng.oblige(st, "on_event_exception names the failed event", q == st.g('E') - bv(1))
        w = slot_of(q)
        eng.oblige(st, "on_event_exception hands over the failed event", eng.ptr_eq(st, pe, w) if isinstance(pe, Ptr) else False)
        st.setg('pend', F)
        y = st.copy()
        y.setg('fatal', T)
        return [(st, 'val', None), (y, 'enter', (ctx.fn('t_int'), []))]

    def sexc(key):
        def f(eng, st, I, args, fn):
            eng.oblige(st, "start/shutdown failure is reported only when there was one", st.g(key))
            st.setg(key, F)
            return None

        return f

    for n, h in (('start', start), ('shutdown', stop), ('event', event), ('timeout', timeout), ('event_exc', eexc), ('start_exc', sexc('startexc')), ('shutdown_exc', sexc('stopexc'))):
        e.contract(r'^kvc_' + n + r'$', h)
    s.ghost['tpend'] = F
    s.ghost['fatal'] = F
    e.cand_gens = [scalar_gen(anchors=[(k, (lambda k: lambda st: st.ghost[k])(k)) for k in ('E', 'S', 'av')]), gen]
    return s, P, init, rb, bar


def gen(eng, entry, hs, M, header):
    out = []
    for k, v in hs.ghost.items():
        if ('g', k) not in M:
            continue
        if z3.is_bool(v):
            out.append(Cand(k, lambda st, k=k: st.ghost[k]))
            out.append(Cand('not ' + k, lambda st, k=k: z3.Not(st.ghost[k])))
        elif z3.is_bv(v) and v.size() == 8:
            for c in (0, 1):
                out.append(Cand(f"{k}=={c}", lambda st, k=k, c=c: st.ghost[k] == bv(c, 8)))
            out.append(Cand(f"{k}<=2", lambda st, k=k: z3.ULE(st.ghost[k], bv(2, 8))))
    G = lambda st, k: st.ghost[k]
    out.append(Cand("S == E-1", lambda st: G(st, 'S') == G(st, 'E') - bv(1)))
    out.append(Cand("S <= E-1", lambda st: G(st, 'S') <= G(st, 'E') - bv(1)))
    out.append(Cand("E <= av+1", lambda st: G(st, 'E') <= G(st, 'av') + bv(1)))
    out.append(Cand("E >= E0", lambda st: G(st, 'E') >= G(st, 'E0')))
    out.append(Cand("E <= LIM+1", lambda st: G(st, 'E') <= bv(LIM + 1)))
    out.append(Cand("S >= -1", lambda st: G(st, 'S') >= bv(-1)))
    out.append(Cand("halt not lost", lambda st: z3.Not(z3.And(G(st, 'hs') == bv(2, 8), z3.Not(G(st, 'A')), G(st, 'run')))))
    out.append(Cand("run iff not halted", lambda st: G(st, 'run') == (G(st, 'hs') == bv(0, 8))))
    for n, g, k in CN.loop_vars(eng, entry, hs, M):
        if k == 64 and not n.startswith('ghost'):
            out.append(Cand(f"{n} == E", lambda st, g=g: g(st) == G(st, 'E')))
            out.append(Cand(f"{n} == E-1", lambda st, g=g: g(st) == G(st, 'E') - bv(1)))
            out.append(Cand(f"{n} == S", lambda st, g=g: g(st) == G(st, 'S')))
            out.append(Cand(f"{n} == S+1", lambda st, g=g: g(st) == G(st, 'S') + bv(1)))
    return out


def unit_run(kind):
    def run(ctx):
        e = ctx.eng
        s, P, init, rb, bar = setup(ctx, kind)
        ctx.cover('precondition', s)
        e.oblige(s, "a new processor has consumed nothing", init[0][1] == bv(-1))
        e.oblige(s, "a new processor is not running", z3.Extract(0, 0, init[1][1]) == 0)
        n = 0
        for o in e.run_fn(s, ctx.fn(f'h_{kind}_run'), [P]):
            st = o[1]
            n += 1
            if o[0] == 'ret':
                e.oblige(st, "run returns only after a halt", z3.And(st.g('started'), st.g('hs') != bv(0, 8)))
                e.oblige(st, "after run the processor is not running", z3.And(st.g('ended'), z3.Not(st.g('wrote'))))
                e.oblige(st, "run does not swallow a fatal exception", z3.Not(st.g('fatal')))
                e.oblige(st, "no failure of the handler is left unreported", z3.Not(z3.Or(st.g('pend'), st.g('tpend'))))
                if kind == 'bep':
                    e.oblige(st, "on_start and on_shutdown are each called once", z3.And(st.g('nstart') == bv(1, 8), st.g('nstop') == bv(1, 8)))
                e.oblige(st, "a halted processor has released everything it delivered", st.g('S') == st.g('E') - bv(1))
            else:
                ti = o[2][1]
                if ti == '_ZTISt13runtime_error':
                    e.oblige(st, "a second run is rejected without side effects", z3.And(st.g('busy'), z3.Not(st.g('started')), z3.Not(st.g('ended')), st.g('S') == st.g('E') - bv(1),
                                                                                        st.g('nstart') == bv(0, 8), st.g('nstop') == bv(0, 8)))
                else:
                    e.oblige(st, f"an exception leaves run only if the handler raised a fatal one ({ti})", z3.And(st.g('fatal'), st.g('started')))
                    e.oblige(st, "after a fatal exception the processor is not running", z3.And(st.g('ended'), z3.Not(st.g('wrote'))))
                    if kind == 'bep':
                        e.oblige(st, "on_shutdown is called after a fatal exception", st.g('nstop') == bv(1, 8))
                e.oblige(st, "progress never passes an event that was not delivered (exit)", st.g('S') <= st.g('E') - bv(1))

    return run


def unit_halt(kind):
    def run(ctx):
        e = ctx.eng
        s, P, init, rb, bar = setup(ctx, kind)
        s.ghost.update(noenv=True, run=T, started=T, wrote=T, alerted=F)

        def alert(eng, st, I, args, fn):
            eng.oblige(st, "halt raises the processor's own barrier", args[0].r == bar.id)
            eng.oblige(st, "the processor is marked as stopped before it is woken", z3.Not(st.g('run')))
            st.setg('alerted', T)
            return None

        e.contract(r'disruptor4cpp::sequence_barrier<.*>::alert\(', alert)
        for o in e.run_fn(s, ctx.fn(f'h_{kind}_halt'), [P]):
            st = o[1]
            e.oblige(st, "halt marks the processor as stopped and wakes it", z3.And(z3.Not(st.g('run')), st.g('alerted')) if o[0] == 'ret' else False)
        s, P, init, rb, bar = setup(ctx, kind)
        s.ghost['noenv'] = True
        b = fbv('b', 1)
        s.ghost['run'] = b
        for o in e.run_fn(s, ctx.fn(f'h_{kind}_is_running'), [P]):
            r = o[2] if z3.is_bool(o[2]) else z3.Extract(0, 0, o[2]) == 1
            e.oblige(o[1], "is_running reports the running flag", r == b)

    return run


UNITS = [Unit('batch_run', unit_run('bep')), Unit('batch_halt', unit_halt('bep')), Unit('noop_run', unit_run('nop')), Unit('noop_halt', unit_halt('nop'))]

L = ['-lspdlog', '-lfmt', '-lpthread']
DRIVERS = [dict(src='d07.cpp', libs=L, secs=5), dict(src='d07.cpp', libs=L, san=TSAN, secs=4)]
ASSUMPTIONS = ['sequences stay below 2^62', 'the barrier keeps its contract (C05) and the ring buffer its own (C06)', 'handlers do not throw the library\'s alert/timeout exceptions',
               'on_start does not throw anything but std::exception', 'halt() is the only other writer of the running flag', 'logging has no effect',
               'termination of run() after halt is reduced to: run never waits again unless an alert is pending; that the wait then ends is C05']
BOUNDED = 'real threads: up to 3 producers, buffers of 16 slots, 0..3 halts and restarts at random moments, failing and fatal handlers, timeouts'
EXPLANATION = 'run() and halt() of both processors for every batch size, every exception a handler may raise, every number of iterations and a halt arriving at any point'
