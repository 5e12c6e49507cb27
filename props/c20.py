"""C20: an event loop, and a reader of a multiplexer, runs in one thread from its start until it is stopped"""
import re

import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import PT, I64, I32, I8, parse, base_name
from props.c16 import Pol, RATIO, T_, F_
from props.c18 import NStl, same

HARNESS = 'c20_loop.cpp'
CFLAGS = ('-I', f'{VERIF}/harness/sdk', '-I', '/usr/include/concurrentqueue/moodycamel')
RATIO = dict(RATIO, **{'std::ratio<1l, 1000000000l>': 0})


class Life(Pol):
    """threads, tasks and futures by contract, and so the processor of the ring (C07), the ring (C03, C05) and the base of a subscriber (C19).
    A thread begins, and ends by itself if a listener throws, at any time; its owner sees that when it looks."""

    def __init__(self, ctx, kind):
        self.kind = kind
        Pol.__init__(self, ctx)
        e, s = self.e, self.s
        self.S = NStl(ctx, s)
        c, first = e.contract, len(e.contracts)
        c(r'^disruptor4cpp::batch_event_processor<.*>::(run|halt|is_running)\(', self.proc)
        c(r'^(auto |bool |void |std::unique_ptr<.*> ?)?disruptor4cpp::(ring_buffer|single_producer_sequencer|multi_producer_sequencer)<.*>::[a-z_]+\(', self.ring)
        c(r'^kpsr::EventEmitterSubscriber<Ev>::(~)?EventEmitterSubscriber\(', self.base)
        c(r'^std::packaged_task<void \(\)>::get_future\(', self.get_future)
        c(r'^(std::future_status )?(std::future<void>|std::__basic_future<void>)::', self.future)
        c(r'std::this_thread::sleep_for<', self.sleep)
        c(r'^std::chrono::(_V2::)?steady_clock::now\(', self.now)
        c(r'disruptor4cpp::sequence_barrier<.*>::~sequence_barrier\(|^void std::default_delete<disruptor4cpp::sequence_barrier<|^std::default_delete<disruptor4cpp::sequence_barrier<', self.nothing)
        e.contracts[:] = e.contracts[first:] + e.contracts[:first]  # these come first
        if '__libc_single_threaded' in ctx.mod.globals:
            e.load_global(s, '@__libc_single_threaded')
            e.store(s, Ptr('@__libc_single_threaded', 0), bv(0, 8), I8)
        s.ghost.update(ended=F_, halted=F_, seen=F_, gate=F_, removed=0, barriers=(), futures={}, built=0, read=F_, clk=fbv('clock', 64), clkf=bv(0), clkb=bv(0))
        s.assume(z3.ULE(s.g('clk'), bv(1 << 50)))
        del s.ghost['stopped']
        e.cand_gens = [scalar_gen(), self.gen, self.flags]

    nothing = staticmethod(lambda eng, st, I, a, fn: [(st, 'val', None)])

    def acc(self, what):
        return f'a_{self.kind}_{what}'

    def limit(self, st):
        return self.e.load(st, self.ctx.acc(self.acc('timeout'), self.P), I64)

    def flags(self, eng, entry, hs, M, header):
        bs = [k[1] for k in M if k[0] == 'g' and z3.is_bool(hs.ghost.get(k[1]))]
        out = []
        for b in bs:
            for x in ('begun', 'ended', 'halted', 'seen', 'gate'):
                if b != x:
                    out.append(Cand(f'{b} -> {x}', lambda st, b=b, x=x: z3.Implies(st.ghost[b], st.g(x))))
                    out.append(Cand(f'{x} -> {b}', lambda st, b=b, x=x: z3.Implies(st.g(x), st.ghost[b])))
        if ('g', 'clk') in M:
            f0 = entry.ghost['clkf']
            out += [Cand('the clock was read', lambda st: st.g('read')), Cand('the first reading stays', lambda st: st.g('clkf') == f0),
                    Cand('the clock is sane', lambda st: z3.And(z3.ULE(st.g('clkf'), st.g('clkb')), z3.ULE(st.g('clkb'), st.g('clk')), z3.ULE(st.g('clk'), bv(1 << 61)))),
                    Cand('the time-out had not passed before the last nap', lambda st: self.passed(st, 'clkb') <= z3.If(self.to < bv(0), bv(0), self.to * bv(1000)))]
        return out

    def passed(self, st, k='clk'):
        """nanoseconds since the clock was first read"""
        return st.g(k) - st.g('clkf')

    def now(self, eng, st, I, a, fn):
        t = fbv('clock', 64)
        st.assume(z3.ULE(st.g('clk'), t), z3.ULE(t, bv(1 << 61)))
        r = st.g('read')
        st.setg('clkf', simp(z3.If(r, st.g('clkf'), t)))
        st.setg('clkb', simp(z3.If(r, st.g('clkb'), t)))
        st.setg('clk', t)
        st.setg('read', T_)
        return t

    def gave_up_late(self, st):
        return z3.Or(st.g('slept') > self.to, z3.And(st.g('read'), self.passed(st) > self.to * bv(1000)))

    # ---- the base of a subscriber
    def base(self, eng, st, I, a, fn):
        m = base_name(parse(fn.dem)[0][-1])
        if m.startswith('~'):
            eng.oblige(st, "a reader's thread has ended before the listeners are removed", z3.BoolVal(not st.ghost['live']))
            st.ghost['built'] -= 1
            return [(st, 'val', None)]
        st.ghost['built'] += 1
        # (container, type, name) or (container, emitter, name)
        self.S.sset(st, self.ctx.acc('a_es_name', a[0]), self.S.sget(st, a[3]))
        p = self.ctx.acc('a_es_emitter', a[0])
        eng.store(st, p, self.EMP, PT)
        eng.store(st, p.add(8), NULL, PT)
        return [(st, 'val', None)]

    # ---- the ring
    def ring(self, eng, st, I, a, fn):
        m = base_name(parse(fn.dem)[0][-1])
        if m == 'new_barrier':
            if len(a) != 2:
                raise Unsupported(fn.dem[:120])
            eng.oblige(st, "events are read from the ring that was given", same(a[1], self.R))
            b = Ptr(st.new_region('barrier', 64, 'undef').id, 0)
            st.ghost['barriers'] += (b.r,)
            eng.store(st, a[0], b, PT)
            return [(st, 'val', None)]
        if m == 'add_gating_sequences':
            p, q = eng.load(st, a[1], PT), eng.load(st, a[1].add(8), PT)
            n = cval(simp_(q.o - p.o)) if isinstance(p, Ptr) and p.r == q.r and not (isinstance(p.o, int) and isinstance(q.o, int)) else (q.o - p.o if isinstance(p, Ptr) and p.r == q.r else None)
            if n is None:
                raise Unsupported('the sequences that are added')
            ok = n == 8 and same(a[0], self.R) and same(eng.load(st, p, PT), self.seq(st))
            eng.oblige(st, "the position of the reader, and no other, is given to the ring it reads from", z3.BoolVal(bool(ok)))
            eng.oblige(st, "the position of a reader is given to the ring once per start, before it reads", z3.Not(z3.Or(st.g('gate'), st.g('begun'))))
            st.setg('gate', T_)
            return [(st, 'val', None)]
        if m == 'remove_gating_sequence':
            eng.oblige(st, "the position of a reader is taken from the ring only when its thread has ended", z3.BoolVal(not st.ghost['live']))
            eng.oblige(st, "the position of the reader, and no other, is taken from its ring", z3.BoolVal(same(a[0], self.R) and same(a[1], self.seq(st))))
            st.ghost['removed'] += 1
            return [(st, 'val', T_)]
        return NotImplemented if m in ('ring_buffer',) else self.unsup(fn)

    def unsup(self, fn):
        raise Unsupported('the ring: ' + fn.dem[:120])

    def proc_of(self, st):
        return self.e.load(st, self.ctx.acc(self.acc('proc'), self.P), PT)

    def seq(self, st):
        return self.ctx.acc({'el': 'a_lp_seq', 'ms': 'a_mp_seq'}[self.kind], self.proc_of(st))

    # ---- the processor
    def env(self, st):
        """the thread goes on"""
        if st.ghost['live']:
            b = z3.Or(st.g('begun'), fbv('begins', 1))
            st.setg('begun', b)
            st.setg('ended', z3.Or(st.g('ended'), z3.And(b, fbv('ends', 1))))

    def proc(self, eng, st, I, a, fn):
        m = base_name(parse(fn.dem)[0][-1])
        eng.oblige(st, "the processor of this reader is used", same(a[0], self.proc_of(st)))
        if m == 'is_running':
            self.env(st)
            return z3.And(st.g('begun'), z3.Not(st.g('ended')), z3.Not(st.g('halted')))
        if m == 'halt':
            self.env(st)
            st.setg('halted', z3.Or(st.g('halted'), st.g('begun')))  # a processor that is halted before it runs will run
            return [(st, 'val', None)]
        eng.oblige(st, "events are processed in the thread of the reader", z3.BoolVal(self.mode == 'thread'))
        eng.oblige(st, "the ring knows the position of a reader before it reads", st.g('gate'))
        st.setg('begun', T_)
        n = st.copy()
        n.setg('ended', T_)
        return [(st, 'val', None), (n, 'throw', eng.throw_new(n, '_ZTISt13runtime_error'))]

    # ---- tasks, futures and threads
    def callable(self, st, fn, p, a2=None):
        if 'std::function<void ()>' in fn.dem and 'lambda' not in fn.dem:
            q = Ptr(st.new_region('function', 32, 'undef').id, 0)
            o = self.e.run_fn(st, self.ctx.fn('h_keep0'), [q, p])
            if len(o) != 1 or o[0][0] != 'ret' or o[0][1] is not st:
                raise Unsupported('copying a function')
            return Ptr(('fn', self.ctx.fn('h_call0').name), 0), q, None
        ops = [f for f in self.ctx.mod.funcs.values() if '::operator()()' in f.dem and ('{lambda()#' in f.dem or "::'lambda" in f.dem) and f.dem[:f.dem.index('::operator()()')] in fn.dem and f.blocks]
        if len(ops) == 1:
            q = Ptr(st.new_region('closure', 8).id, 0)
            self.e.store(st, q, self.e.load(st, p, PT), PT)  # a closure that captures this and no more
            return Ptr(('fn', ops[0].name), 0), q, None
        return Pol.callable(self, st, fn, p, a2)

    def th_new(self, eng, st, I, a, fn):
        for k in ('begun', 'ended', 'halted', 'seen', 'gate'):
            st.setg(k, F_)
        t = cval(eng.load(st, a[1], I64)) if 'packaged_task<void ()>&&' in fn.dem else None
        r = Pol.th_new(self, eng, st, I, a, fn)
        if t is not None:
            st.ghost['futures'] = {**st.ghost['futures'], t: st.ghost['live'][-1]}
        return r

    def run(self, st, n, mode):
        f, obj, _ = self.calls[n]
        old, self.mode = self.mode, mode
        try:
            return self.e.run_fn(st, self.ctx.mod.funcs[f.r[1]], [obj])
        finally:
            self.mode = old

    def pause(self, eng, st, I, a, fn):
        if self.mode is not None:
            return [(st, 'val', None)]
        self.env(st)
        st.setg('seen', st.g('ended'))
        return [(st, 'val', None)]

    def sleep(self, eng, st, I, a, fn):
        m = re.search(r'sleep_for<long, (std::ratio<[^>]*>)', fn.dem)
        k = RATIO.get(m.group(1)) if m else None
        if k is None:
            raise Unsupported('sleep unit')
        d = eng.load(st, a[0], I64) * bv(k)
        if self.mode is None:
            eng.oblige(st, "what is waited for can still happen, or the wait is limited", z3.Or(z3.Not(st.g('seen')), z3.And(z3.BoolVal(self.limited), z3.Or(st.g('slept') <= self.limit(st), z3.And(st.g('read'), self.passed(st) <= self.limit(st) * bv(1000))))))
        st.setg('slept', st.g('slept') + d)
        t = fbv('clock', 64)
        st.assume(z3.ULE(st.g('clk') + d * bv(1000), t), z3.ULE(t, bv(1 << 61)))
        st.setg('clkb', st.g('clk'))
        st.setg('clk', t)
        return self.pause(eng, st, I, a, fn)

    def ends(self, st):
        return z3.Or(st.g('ended'), st.g('halted'))

    def th_join(self, eng, st, I, a, fn):
        v = cval(eng.load(st, a[0], I64))
        if v is None:
            raise Unsupported('joining a thread that depends on the input')
        eng.oblige(st, "only a thread that runs is joined", z3.BoolVal(v != 0))
        if v == 0:
            raise Infeasible()
        eng.oblige(st, "a thread that is waited for has ended, or was told to end when it could hear it", self.ends(st))
        st.assume(self.ends(st))
        st.setg('begun', T_)
        st.setg('ended', T_)
        st.ghost['live'] = tuple(x for x in st.ghost['live'] if x != v)
        st.ghost['joined'] += (v,)
        eng.store(st, a[0], bv(0), I64)
        return [(st, 'val', None)]

    def th_detach(self, eng, st, I, a, fn):
        eng.oblige(st, "a thread is not left to itself", False)
        raise Infeasible()

    def get_future(self, eng, st, I, a, fn):
        v = eng.load(st, a[1], I64)
        eng.oblige(st, "only a task that was not given away has a future to give", v != bv(0))
        eng.store(st, a[0], v, I64)
        return [(st, 'val', None)]

    def future(self, eng, st, I, a, fn):
        comps = parse(fn.dem)[0]
        m, cls = base_name(comps[-1]), base_name(comps[-2])
        if m == cls or m == 'operator=':  # from nothing, or from another one
            if len(a) > 1:
                v = eng.load(st, a[1], I64)
                eng.store(st, a[1], bv(0), I64)
            else:
                v = bv(0)
            eng.store(st, a[0], v, I64)
            return [(st, 'val', a[0] if m == 'operator=' else None)]
        if m.startswith('~'):
            return [(st, 'val', None)]
        if m == 'valid':
            return eng.load(st, a[0], I64) != bv(0)
        v = cval(eng.load(st, a[0], I64))
        if v is None:
            raise Unsupported('a future that depends on the input ' + str(eng.load(st, a[0], I64)))
        th = st.ghost['futures'].get(v)
        eng.oblige(st, "only the future of a thread is waited for", z3.BoolVal(v != 0))
        if m == 'wait_for':
            if th is None or th in st.ghost['joined']:
                was = z3.BoolVal(th is not None)
                if self.mode is None and th is None:
                    eng.oblige(st, "what is waited for can still happen", False)
                return z3.If(was, bv(0, 32), bv(1, 32))
            was = st.g('ended')
            self.env(st)
            r = fbv('ready', 1)
            st.assume(z3.Implies(r, st.g('ended')), z3.Implies(was, r))
            return z3.If(r, bv(0, 32), bv(1, 32))
        if m == 'wait':
            eng.oblige(st, "a thread that is waited for has ended, or was told to end when it could hear it", self.ends(st))
            st.assume(self.ends(st))
            st.setg('begun', T_)
            st.setg('ended', T_)
            return [(st, 'val', None)]
        raise Unsupported(fn.dem[:100])

    # ---- objects
    def ring_and_names(self):
        s = self.s
        self.EMP = Ptr(s.new_region('emitter', 8).id, 0)
        self.R = Ptr(s.new_region('ring', 1024, 'undef').id, 0)
        self.P = Ptr(s.new_region('reader', self.ctx.const('c_' + self.kind), 'undef').id, 0)
        self.to = fbv('TIMEOUT', 64)
        s.assume(self.to >= bv(-1), self.to <= bv(1 << 40))

    def string(self, s, v):
        r = Ptr(s.new_region('name', 32, 'undef').id, 0)
        s.assume(z3.ULT(v, bv(1 << 30)))
        self.S.sset(s, r, v)
        return r

    def thread(self, st):
        return self.e.load(st, self.ctx.acc(self.acc('thread'), self.P), I64)

    def running(self, st):
        return z3.And(st.g('begun'), z3.BoolVal(len(st.ghost['live']) == 1))

    def one_thread(self, st, n=1):
        return z3.And(z3.BoolVal(st.ghost['nthreads'] == n and len(st.ghost['live']) == 1), self.thread(st) == bv(st.ghost['live'][0] if st.ghost['live'] else -1))

    def none_left(self, st, what):
        self.e.oblige(st, f"{what}: no thread is left", z3.And(z3.BoolVal(not st.ghost['live']), self.thread(st) == bv(0)))

    def processor(self, st, what):
        """the processor reads this ring, by a barrier of its own, for the handler of this object"""
        k = {'el': 'lp', 'ms': 'mp'}[self.kind]
        p = self.proc_of(st)
        g = []
        for n in ('ring', 'handler', 'barrier', 'owned'):
            o = self.e.run_fn(st, self.ctx.fn(f'h_{k}_{n}'), [p])
            g.append(o[0][2])
        h = self.e.run_fn(st, self.ctx.fn(f'h_{self.kind}_hptr'), [self.P])[0][2]
        self.e.oblige(st, f"{what}: the reader reads the given ring for its own handler, by a barrier of its own",
                      z3.BoolVal(bool(same(g[0], self.R) and same(g[1], h) and same(g[2], g[3]) and g[2].r in st.ghost['barriers'])))


def simp_(x):
    return z3.simplify(x) if z3.is_expr(x) else x


def each(outs, *kinds):
    return [o[1] for o in outs if o[0] in kinds]


class Loop(Life):
    def __init__(self, ctx):
        Life.__init__(self, ctx, 'el')
        self.ring_and_names()
        s = self.s
        self.limited = True
        wm = Ptr(s.new_region('external emitter', 16).id, 0)
        self.e.store(s, wm, self.EMP, PT)
        self.e.store(s, wm.add(8), NULL, PT)
        self.name = fbv('name', 64)
        o = self.e.run_fn(s, ctx.fn('h_el'), [self.P, wm, self.R, self.string(s, self.name), self.to])
        self.e.oblige(s, "an event loop can be made", z3.BoolVal(len(o) == 1 and o[0][0] == 'ret'))
        self.s = o[0][1]

    def call(self, st, fn, limited=False):
        self.limited = limited
        st.setg('slept', bv(0))
        st.setg('read', F_)
        st.setg('seen', F_)
        return self.e.run_fn(st, self.ctx.fn(fn), [self.P])

    def start(self, st):
        return self.call(st, 'h_el_start', True)

    def started(self, st):
        return self.e.load(st, self.ctx.acc('a_el_started', self.P), I8) != bv(0, 8)


def unit_el_ctor(ctx):
    M = Loop(ctx)
    e, s = M.e, M.s
    M.none_left(s, 'a new loop')
    e.oblige(s, "a new loop is not started", z3.Not(M.started(s)))
    M.processor(s, 'a new loop')
    ctx.cover('any time-out', s)
    for o in e.run_fn(s.copy(), ctx.fn('h_el_running'), [M.P]):
        e.oblige(o[1], "a new loop is not running", z3.And(z3.BoolVal(o[0] == 'ret'), z3.Not(o[2])))
    b = Ptr(s.new_region('string', 32, 'undef').id, 0)
    for o in e.run_fn(s.copy(), ctx.fn('h_el_getname'), [M.P, b]):
        e.oblige(o[1], "a loop has the name it was given", z3.And(z3.BoolVal(o[0] == 'ret'), M.S.sget(o[1], b) == M.name))


def unit_el_start(ctx):
    M = Loop(ctx)
    e, s = M.e, M.s
    n = [0, 0]
    for o in M.start(s.copy()):
        if o[0] not in ('ret', 'throw'):
            continue
        st = o[1]
        e.oblige(st, "start makes exactly one thread", M.one_thread(st))
        if o[0] == 'ret':
            n[0] += 1
            e.oblige(st, "start returns only when the loop has begun", st.g('begun'))
            e.oblige(st, "a loop that was started says so", M.started(st))
        else:
            n[1] += 1
            e.oblige(st, "start gives up only after its time-out", M.gave_up_late(st))
        e.oblige(st, "start does not wait longer than its time-out", z3.Or(st.g('slept') <= bv(200), st.g('slept') <= M.to + bv(1000), z3.And(st.g('read'), M.passed(st, 'clkb') <= M.to * bv(1000) + bv(1000000))))
        ctx.cover('start ' + o[0], st)
        for o2 in M.start(st.copy()):
            if o2[0] in ('ret', 'throw'):
                e.oblige(o2[1], "starting a started loop does nothing", z3.And(z3.BoolVal(o2[0] == 'ret'), M.one_thread(o2[1])))
    e.oblige(s, "start can succeed", n[0] > 0)


def unit_el_thread(ctx):
    """what the thread does"""
    M = Loop(ctx)
    e, s = M.e, M.s
    n = 0
    for o in M.start(s.copy()):
        if o[0] not in ('ret', 'throw') or len(o[1].ghost['live']) != 1:
            continue
        st = o[1]
        for k in ('begun', 'ended', 'halted', 'gate'):
            st.setg(k, F_)
        v = st.ghost['live'][0]
        for q in M.run(st, v, 'thread'):
            if q[0] not in ('ret', 'throw'):
                continue
            n += 1
            e.oblige(q[1], "the thread of a loop processes the events of the ring", q[1].g('begun'))
            e.oblige(q[1], "the thread of a loop ends by itself only when a listener throws", z3.BoolVal(True))
    e.oblige(s, "the thread can end", n > 0)


def unit_el_stop(ctx):
    M = Loop(ctx)
    e, s = M.e, M.s
    for o in M.call(s.copy(), 'h_el_stop'):
        e.oblige(o[1], "stopping a loop that was not started does nothing", z3.BoolVal(o[0] == 'ret' and o[1].ghost['nthreads'] == 0))
    n = 0
    for o in M.start(s.copy()):
        if o[0] not in ('ret', 'throw'):
            continue
        what = 'stop' if o[0] == 'ret' else 'stop after a failed start'
        for q in M.call(o[1].copy(), 'h_el_stop'):
            if q[0] not in ('ret', 'throw'):
                continue
            st = q[1]
            n += 1
            e.oblige(st, f"{what} completes", z3.BoolVal(q[0] == 'ret'))
            M.none_left(st, what)
            e.oblige(st, f"{what}: the loop says that it is stopped", z3.Not(M.started(st)))
            k = 0
            for r in M.call(st.copy(), 'h_el_stop'):
                if r[0] in ('ret', 'throw'):
                    e.oblige(r[1], "stopping a stopped loop does nothing", z3.BoolVal(r[0] == 'ret'))
            for r in M.start(st.copy()):
                if r[0] not in ('ret', 'throw'):
                    continue
                k += r[0] == 'ret'
                e.oblige(r[1], "a stopped loop can be started again, in one new thread", M.one_thread(r[1], 2))
                if r[0] == 'ret':
                    e.oblige(r[1], "a restarted loop has begun", z3.And(r[1].g('begun'), M.started(r[1])))
                    for d in M.call(r[1].copy(), 'h_el_stop'):
                        if d[0] in ('ret', 'throw'):
                            e.oblige(d[1], "a restarted loop can be stopped", z3.BoolVal(d[0] == 'ret'))
                            M.none_left(d[1], 'second stop')
            e.oblige(st, "a stopped loop can be started again", k > 0)
    e.oblige(s, "a started loop can be stopped", n > 0)


def gone(M, e, st, o, what):
    e.oblige(st, f"{what}: destroying returns", z3.BoolVal(o == 'ret'))
    e.oblige(st, f"{what}: destroying leaves no thread", z3.BoolVal(not st.ghost['live']))
    e.oblige(st, f"{what}: the ring no longer waits for, or refers to, what was destroyed", z3.BoolVal(st.ghost['removed'] > 0 or st.ghost['nthreads'] == 0))


def unit_el_del(ctx):
    M = Loop(ctx)
    e, s = M.e, M.s
    for o in M.call(s.copy(), 'h_el_del'):
        if o[0] in ('ret', 'throw'):
            gone(M, e, o[1], o[0], 'a new loop')
    n = 0
    for o in M.start(s.copy()):
        if o[0] not in ('ret', 'throw'):
            continue
        for q in M.call(o[1].copy(), 'h_el_del'):
            if q[0] in ('ret', 'throw'):
                n += 1
                gone(M, e, q[1], q[0], 'a started loop' if o[0] == 'ret' else 'a loop that could not be started')
        for q in M.call(o[1].copy(), 'h_el_stop'):
            if q[0] == 'ret':
                for d in M.call(q[1], 'h_el_del'):
                    if d[0] in ('ret', 'throw'):
                        gone(M, e, d[1], d[0], 'a stopped loop')
    e.oblige(s, "a loop can be destroyed", n > 0)


# ---------------------------------------------------------------- readers of a multiplexer
class Reader(Life):
    def __init__(self, ctx):
        Life.__init__(self, ctx, 'ms')
        self.ring_and_names()
        s = self.s
        self.mux, self.sub = fbv('mux', 64), fbv('sub', 64)
        self.args = [self.P, NULL, self.string(s, self.mux), self.string(s, self.sub), self.R, self.to]

    def make(self):
        self.limited = True
        return self.e.run_fn(self.s, self.ctx.fn('h_ms'), self.args)

    def destroy(self, st):
        self.limited = False
        st.setg('slept', bv(0))
        st.setg('read', F_)
        st.setg('seen', F_)
        return self.e.run_fn(st, self.ctx.fn('h_ms_del'), [self.P])


def unit_ms_ctor(ctx):
    M = Reader(ctx)
    e, s = M.e, M.s
    n = 0
    ctx.cover('any time-out', s)
    for o in M.make():
        if o[0] not in ('ret', 'throw'):
            continue
        st = o[1]
        ctx.cover('making ' + o[0], st)
        if o[0] == 'ret':
            n += 1
            e.oblige(st, "a reader has exactly one thread", M.one_thread(st))
            e.oblige(st, "a reader that was made has begun", st.g('begun'))
            e.oblige(st, "a reader has the name of its multiplexer and its own", M.S.sget(st, ctx.acc('a_es_name', M.P)) == M.S.cat(st, M.mux, M.sub))
            M.processor(st, 'a reader')
        else:
            e.oblige(st, "making a reader gives up only after the time-out", M.gave_up_late(st))
            e.oblige(st, "a reader that could not be made leaves no thread", z3.BoolVal(not st.ghost['live']))
            e.oblige(st, "a reader that could not be made leaves nothing in the ring", z3.BoolVal(st.ghost['removed'] > 0))
            e.oblige(st, "a reader that could not be made is undone", z3.BoolVal(st.ghost['built'] == 0))
    e.oblige(s, "a reader can be made", n > 0)


def unit_ms_thread(ctx):
    M = Reader(ctx)
    e, s = M.e, M.s
    n = 0
    for o in M.make():
        if o[0] != 'ret' or len(o[1].ghost['live']) != 1:
            continue
        st = o[1]
        for k in ('begun', 'ended', 'halted', 'gate'):
            st.setg(k, F_)
        for q in M.run(st, st.ghost['live'][0], 'thread'):
            if q[0] not in ('ret', 'throw'):
                continue
            n += 1
            e.oblige(q[1], "the thread of a reader processes the events of the ring", q[1].g('begun'))
    e.oblige(s, "the thread can end", n > 0)


def unit_ms_del(ctx):
    M = Reader(ctx)
    e, s = M.e, M.s
    n = 0
    for o in M.make():
        if o[0] != 'ret':
            continue
        for q in M.destroy(o[1]):
            if q[0] in ('ret', 'throw'):
                n += 1
                gone(M, e, q[1], q[0], 'a reader')
                e.oblige(q[1], "a reader is destroyed as a whole", z3.BoolVal(q[1].ghost['built'] == 0))
    e.oblige(s, "a reader can be destroyed", n > 0)


UNITS = [Unit('EventLoop, construction', unit_el_ctor), Unit('EventLoop, start', unit_el_start), Unit('EventLoop, the thread', unit_el_thread), Unit('EventLoop, stop', unit_el_stop),
         Unit('EventLoop, destruction', unit_el_del), Unit('DataMultiplexerSubscriber, construction', unit_ms_ctor), Unit('DataMultiplexerSubscriber, the thread', unit_ms_thread),
         Unit('DataMultiplexerSubscriber, destruction', unit_ms_del)]
L = ['-lspdlog', '-lfmt', '-lpthread', '-ldl']
FL = ['-I', f'{VERIF}/harness/sdk']
DRIVERS = [dict(src='d20.cpp', flags=FL, libs=L, secs=4), dict(src='d20.cpp', flags=FL, libs=L, san=TSAN, secs=3)]
ASSUMPTIONS = ['std::thread, std::packaged_task, std::future and sleeping by contract: a new thread runs its task once, begins at any later point and ends by itself at any point after that (a listener throws); its owner sees this only when it looks',
               'the processor by the contract of C07 (it runs from when it begins until it is halted or a listener throws what is no std::exception; an order to halt that comes before it begins is lost), the ring by C03 and C05, the base class of a subscriber by C19',
               'one owner starts, stops and destroys, never from the thread of the loop itself; creating a thread does not fail; start-up time-outs from -1 us to 2^40 us',
               'the ring outlives its readers; a producer that runs while a reader of the data multiplexer is made or destroyed is excluded, as the code says (its list of positions has no lock)',
               'the KlepsydraSDK classes are stand-ins in harness/sdk; std::string by contract; std::function and smart pointers are libstdc++\'s own code']
BOUNDED = 'real threads: random cycles of start, stop, restart and destruction of loops and up to 3 readers, threads that begin up to 5 ms late (pthread_create interposed), time-outs from -1 us, listeners that throw, producers that go on afterwards'
EXPLANATION = 'construction, start, stop, destruction and the thread itself of event loops and of readers of a multiplexer, for every time-out and every moment at which the thread begins or ends by itself'
