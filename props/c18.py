"""C18: a published event enters its channel once and unchanged, or is counted as lost"""
import re

import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import PT, I64, I32, I8, Stl, parse, base_name, simp

HARNESS = 'c18_publish.cpp'
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
STK = r'^(bool )?kpsr::LockFreeStack<std::unique_ptr<Ev, std::default_delete<Ev> ?> ?>::'


class NStl(Stl):
    """only strings are abstract; smart pointers and std::function are libstdc++'s own code"""

    def select(self, fn):
        comps, params, tail = parse(fn.dem)
        comps = [c for c in comps if c not in ('__cxx11', '__detail', '_V2')]
        if len(comps) >= 3 and base_name(comps[-2]) in ('basic_string', 'char_traits') or len(comps) == 2 and ('basic_string<' in params or base_name(comps[-1]) == 'to_string'):
            return Stl.select(self, fn)
        return None


class Methods:
    """contract for the methods of a class template"""

    def __init__(self, cls, h):
        self.cls, self.h = cls, h

    def select(self, fn):
        comps, params, tail = parse(fn.dem)
        if len(comps) < 2 or base_name(comps[-2]) not in self.cls:
            return None
        m = base_name(comps[-1])
        if m in ('try_enqueue_bulk',) or m.startswith('~') or m == base_name(comps[-2]):
            return None
        return lambda eng, st, I, a, f: self.h(eng, st, I, a, m, f)


def same(p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r and oz(p.o).eq(oz(q.o))


class Pub:
    """events are regions; what happens to them is logged per path (the log does not change inside loops)"""

    def __init__(self, ctx, container=True):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = NStl(ctx, s)
        s.ghost.update(log=(), room=None, now=fbv('now0', 64), timed=F_)
        self.O = Ptr(self.ev(s, 'original'), 0)
        for n, k in (('cb_new', 'new'), ('cb_copy', 'copy'), ('cb_assign', 'assign'), ('cb_delete', 'delete'), ('cb_init', 'init'), ('cb_clone', 'clone'), ('cb_process', 'process')):
            e.contract(f'^{n}$', self.logger(k))
        e.contract(r'^cb_chan$', self.chan)
        e.contract(r'getCurrentNanosecondsAsLlu', self.now)
        e.contract(STK + r'LockFreeStack\(', self.k_ctor)
        e.contract(STK + r'~LockFreeStack\(', lambda eng, st, I, a, fn: self.log(st, 'stack gone') or [(st, 'val', None)])
        e.contract(STK + r'pop\(', self.k_pop)
        e.contract(STK + r'push<', self.k_push)
        e.cand_gens = [scalar_gen(), self.gen]
        self.C = Ptr(s.new_region('container', 8).id, 0) if container else NULL
        self.name = fbv('name', 64)
        self.N = self.string(s, self.name)

    def gen(self, eng, entry, hs, M, header):
        return []

    def ev(self, s, name):
        r = s.new_region(name, 16)
        r.cells[0], r.cells[8] = (8, fbv('a', 64)), (8, fbv('b', 64))
        return r.id

    def string(self, s, v):
        r = s.new_region('name', 32, 'undef')
        s.assume(z3.ULT(v, bv(1 << 30)))
        p = Ptr(r.id, 0)
        self.S.sset(s, p, v)
        return p

    def log(self, st, *x):
        st.ghost['log'] = st.ghost['log'] + (x,)

    def logger(self, k):
        def f(eng, st, I, a, fn):
            self.log(st, k, *a)
            return [(st, 'val', None)]

        return f

    def failing(self):
        """from here on callbacks may throw"""
        def wrap(k):
            def f(eng, st, I, a, fn):
                n = st.copy()
                self.log(st, k, *a)
                self.log(n, 'failed', k)
                return [(st, 'val', None), (n, 'throw', eng.throw_new(n, '_ZTISt13runtime_error'))]

            return f

        for k in ('init', 'clone', 'process'):
            self.e.contracts[:] = [c for c in self.e.contracts if c[0].pattern != f'^cb_{k}$']
            self.e.contract(f'^cb_{k}$', wrap(k))
        self.e._hc = {}

    def now(self, eng, st, I, a, fn):
        t = fbv('now', 64)
        st.setg('now', t)
        st.setg('timed', T_)
        return t

    def get(self, st, sp):
        return self.e.load(st, sp, PT)

    def enter(self, st, fn, args):
        return [(st, 'enter', (self.ctx.fn(fn), args))]

    # ---- the pool's stack: contracts proved in C01
    def k_ctor(self, eng, st, I, a, fn):
        st.ghost['cap'] = a[1]
        el = st.new_region('element', 8)
        el.cells[0] = (8, NULL)
        st.ghost['el'] = el.id
        return self.enter(st, 'h_callinit', [a[2], Ptr(el.id, 0)])

    def k_pop(self, eng, st, I, a, fn):
        n = st.copy()
        self.log(n, 'none left')
        eng.store(n, Ptr(n.ghost['el'], 0), NULL, PT)  # somebody else has our object
        J = self.e.load(st, Ptr(st.ghost['el'], 0), PT)
        outs = [(n, 'val', F_)]
        if not isinstance(J, Ptr) or J.r is None:
            return outs  # our object is out
        old = eng.load(st, a[1], PT)
        if not (isinstance(old, Ptr) and old.r is None):
            raise Unsupported('an element is taken into a handle that is not empty')
        eng.store(st, Ptr(st.ghost['el'], 0), NULL, PT)
        eng.store(st, a[1], J, PT)
        self.log(st, 'pop', J)
        return outs + [(st, 'val', T_)]

    def k_push(self, eng, st, I, a, fn):
        p = eng.load(st, a[1], PT)
        self.log(st, 'push', p)
        eng.store(st, a[1], NULL, PT)
        return T_

    # ---- an abstract channel
    def slot(self, st, size=16):
        return Ptr(st.new_region('channel slot', size, 'undef').id, 0)

    def chan(self, eng, st, I, a, fn):
        to = self.slot(st)
        self.log(st, 'chan', self.get(st, a[0]), to)
        return self.enter(st, 'h_keep', [to, a[0]])

    # ---- runs
    def run(self, st, fn, args, what, throws=False):
        out = []
        for o in self.e.run_fn(st, self.ctx.fn(fn), args):
            if o[0] == 'ret':
                out.append(o[1])
            elif o[0] == 'throw' and not throws:
                self.e.oblige(o[1], what + " does not throw", False)
            elif o[0] == 'throw':
                out.append(o)
        return out

    def shared(self, st):
        """an event shared by the caller: (event, shared_ptr)"""
        r = st.new_region('given', 16)
        r.cells[0], r.cells[8] = (8, fbv('a', 64)), (8, fbv('b', 64))
        p, sp = Ptr(r.id, 0), Ptr(st.new_region('given handle', 16, 'undef').id, 0)
        (q,) = self.run(st, 'h_mk', [sp, p], 'sharing')
        return q, p, sp

    def count(self, st, acc, P):
        return self.e.load(st, self.ctx.acc(acc, P), I64)

    def at(self, st, k):
        return [x for x in st.ghost['log'] if x[0] == k]

    def writes(self, L, p):
        """what wrote an event, in order"""
        return [x for x in L if x[0] in ('new', 'copy', 'assign', 'init', 'process') and same(x[1], p) or x[0] == 'clone' and same(x[2], p)]

    def made_from(self, st, p, O, L, cloner, init, pooled):
        """p was made from O, by the cloner or its own copy; O was left alone"""
        e = self.e
        w = self.writes(L, p)
        last = w[-1] if w else ('nothing',)
        ok = last[0] == 'clone' and same(last[1], O) if cloner else last[0] in ('copy', 'assign') and same(last[2], O)
        e.oblige(st, "the event in the channel is a copy of the published one" if not cloner else "the event in the channel was made by the cloner from the published one", ok)
        e.oblige(st, "an event is copied once", len([x for x in w if x[0] in ('clone', 'copy', 'assign')]) == 1)
        e.oblige(st, "the published event is left as it was", not self.writes(L, O))


def unit_pool(pool, init, clone):
    def run(ctx):
        e = ctx.eng
        X = Pub(ctx)
        s = X.s
        n = fbv('size', 32) if pool else bv(0, 32)
        s.assume(n > bv(0, 32), n <= bv(65535, 32)) if pool else None
        P = Ptr(s.new_region('publisher', ctx.const('c_tp'), 'undef').id, 0)
        tops = X.run(s, 'h_tp', [P, X.C, X.N, n, z3.BoolVal(init), z3.BoolVal(clone)], 'creating a publisher')
        e.oblige(s, "a publisher can be created", len(tops) >= 1)
        for s1 in tops:
            e.oblige(s1, "the allocations of the pool are counted", X.count(s1, 'a_alloc', P) == z3.ZeroExt(32, n))
            if pool:
                e.oblige(s1, "the pool has the requested size", s1.ghost['cap'] == z3.ZeroExt(32, n) if s1.ghost.get('cap') is not None else False)
            e.oblige(s1, "nothing is published before publishing", not X.at(s1, 'chan'))
            mark = len(s1.ghost['log'])
            ctx.cover('precondition', s1)
            for how in ('ref', 'shared', 'process'):
                q, O = s1.copy(), X.O
                if how == 'ref':
                    outs = X.run(q, 'h_pub_ref', [P, O], 'publishing')
                elif how == 'process':
                    outs = X.run(q, 'h_pub_proc', [P], 'publishing')
                else:
                    q, O, sp = X.shared(q)
                    outs = X.run(q, 'h_pub_sp', [P, sp], 'publishing')
                e.oblige(s1, "publishing returns", len(outs) >= 1)
                for st in outs:
                    full = st.ghost['log']
                    L = full[mark:]
                    ch = [x for x in L if x[0] == 'chan']
                    e.oblige(st, "a published event enters the channel exactly once", len(ch) == 1)
                    if len(ch) != 1:
                        continue
                    p, slot = ch[0][1], ch[0][2]
                    i = L.index(ch[0])
                    alloc = X.count(st, 'a_alloc', P) - X.count(s1, 'a_alloc', P)
                    if how == 'shared':
                        e.oblige(st, "a shared event is handed on as it is", same(p, O) and len(L) == 1)
                        e.oblige(st, "sharing an event allocates nothing", alloc == bv(0))
                        for t in X.run(st, 'h_drop', [slot], 'dropping'):
                            e.oblige(t, "an event somebody still shares is not freed", len(t.ghost['log']) == len(full))
                            for u in X.run(t, 'h_drop', [sp], 'dropping'):
                                e.oblige(u, "a shared event is freed by its last holder", len([x for x in u.ghost['log'][len(full):] if x[0] == 'delete' and same(x[1], p)]) == 1)
                        continue
                    taken = [x[1] for x in L if x[0] == 'pop']
                    fresh = not any(same(p, j) for j in taken)
                    e.oblige(st, "an event in the channel is the channel's own", isinstance(p, Ptr) and p.r is not None and p.r != O.r)
                    if pool:
                        e.oblige(st, "an event is taken from the pool while it has one", bool(taken) != fresh and len(taken) <= 1)
                    e.oblige(st, "only an event made anew counts as an allocation", alloc == bv(1 if fresh else 0))
                    e.oblige(st, "an event is complete before it enters the channel", not [x for x in X.writes(L[i:], p)])
                    e.oblige(st, "an event in the channel is neither freed nor in the pool", not [x for x in L if x[0] in ('delete', 'push') and same(x[1], p)])
                    if how == 'ref':
                        X.made_from(st, p, O, L, clone, init, pool)
                        if clone:
                            w = [x[0] for x in X.writes(full, p)]
                            e.oblige(st, "an event is initialised exactly once before it is cloned into", w == ['new'] + ['init'] * init + ['clone'])
                    else:
                        w = [x[0] for x in X.writes(L, p)]
                        e.oblige(st, "the callback prepares the event exactly once, after it was initialised", w == ['new'] * fresh + ['init'] * init + ['process'])
                    # what becomes of it
                    for t in X.run(st.copy(), 'h_drop', [slot], 'dropping'):
                        E = t.ghost['log'][len(full):]
                        e.oblige(t, "a dropped event returns to its pool, or is freed, exactly once", [x[0] for x in E if same(x[1], p)] == (['delete'] if fresh else ['push']))
                    if pool:
                        for t in X.run(st.copy(), 'h_kill', [P], 'destroying a publisher'):
                            if not [x for x in t.ghost['log'][len(full):] if x[0] == 'none left']:
                                continue  # unreachable: the pool holds no other object of ours
                            e.oblige(t, "a destroyed publisher leaves the events in the channel alone", not [x for x in t.ghost['log'][len(full):] if x[0] in ('delete', 'push') and same(x[1], p)])
                            m2 = len(t.ghost['log'])
                            for u in X.run(t, 'h_drop', [slot], 'dropping'):
                                e.oblige(u, "an event that outlives its pool is freed exactly once", [x[0] for x in u.ghost['log'][m2:] if same(x[1], p)] == ['delete'])

    return run


def unit_throw(pool, how):
    """a callback that throws: nothing enters the channel, nothing leaks"""

    def run(ctx):
        e = ctx.eng
        X = Pub(ctx)
        s = X.s
        P = Ptr(s.new_region('publisher', ctx.const('c_tp'), 'undef').id, 0)
        (s1,) = X.run(s, 'h_tp', [P, X.C, X.N, bv(4 if pool else 0, 32), T_, T_], 'creating a publisher')
        mark = len(s1.ghost['log'])
        X.failing()
        outs = e.run_fn(s1, ctx.fn('h_pub_ref' if how == 'ref' else 'h_pub_proc'), [P, X.O][: 2 if how == 'ref' else 1])
        n = 0
        for o in outs:
            st = o[1]
            L = st.ghost['log'][mark:]
            if o[0] != 'throw':
                e.oblige(st, "a failure of the callback is not hidden", not [x for x in L if x[0] == 'failed'])
                continue
            n += 1
            e.oblige(st, "the failure of the callback reaches the publishing code", o[2][1] == '_ZTISt13runtime_error')
            e.oblige(st, "an event that could not be made does not enter the channel", not [x for x in L if x[0] == 'chan'])
            for x in L:
                if x[0] in ('new', 'pop'):
                    e.oblige(st, "an event that could not be made returns to its pool, or is freed, exactly once", [y[0] for y in L if y[0] in ('delete', 'push') and same(y[1], x[1])] == (['push'] if x[0] == 'pop' else ['delete']))
        e.oblige(s1, "the callback can fail", n >= 1)

    return run


# ---------------------------------------------------------------- channels
class Chan(Pub):
    def __init__(self, ctx, container):
        Pub.__init__(self, ctx, container)
        e, s = self.e, self.s
        s.ghost.update(lost=bv(0), waited=F_)
        e.contract(r'kpsr::mem::SafeQueue<', Methods(('SafeQueue',), self.sq))
        e.contract(r'moodycamel::ConcurrentQueue<', Methods(('ConcurrentQueue',), self.cq))
        e.contract(r'std::this_thread::(sleep_for|yield)|^sched_yield$', self.wait)
        e.contract(r'disruptor4cpp::', Methods(('multi_producer_sequencer', 'single_producer_sequencer', 'ring_buffer'), self.ring))
        e.contract(r'^cb_emit$', self.emit)
        # an event that is still in the queue
        o = s.new_region('older', 24, 'undef')
        self.older = Ptr(o.id, 0)
        e.store(s, ctx.acc('a_edata', self.older), Ptr(self.ev(s, 'older event'), 0), PT)
        e.store(s, ctx.acc('a_edata', self.older).add(8), NULL, PT)
        e.store(s, ctx.acc('a_etime', self.older), fbv('older', 64), I64)

    def gen(self, eng, entry, hs, M, header):
        out = []
        if ('g', 'lost') in M:
            lost = lambda st: st.ghost['lost'] - entry.ghost['lost']
            for n, g, w in loop_vars(eng, entry, hs, M):
                if w in (32, 64) and not n.startswith('ghost'):
                    z = (lambda x: x) if w == 64 else (lambda x: z3.ZeroExt(32, x))
                    out.append(Cand(f'{n} counts the lost events', lambda st, g=g, z=z: z(g(st)) - z(g(entry)) == lost(st)))
            out.append(Cand('few events', lambda st: z3.ULT(st.ghost['lost'], bv(1 << 31))))
        return out

    def wait(self, eng, st, I, a, fn):
        st.setg('waited', T_)
        return [(st, 'val', bv(0, 32) if I.ty.kind == 'int' else None)]

    # ---- queues: contracts of C14 (SafeQueue), assumed for moodycamel's queue
    def sq(self, eng, st, I, a, m, fn):
        if m not in ('push', 'move_push', 'force_move_push'):
            raise Unsupported('SafeQueue::' + m)
        eng.oblige(st, "the event enters the publisher's own queue", same(a[0], self.Q))
        to = self.slot(st, self.ctx.const('c_ed'))
        if m == 'force_move_push':
            d = fbv('discarded', 32)
            self.log(st, 'queued', to, 'force')
            st.setg('lost', simp(st.g('lost') + z3.ZeroExt(32, d)))
            return self.enter(st, 'h_ed_n', [to, a[1], d])
        self.log(st, 'queued', to, 'wait')
        return self.enter(st, 'h_ed_t', [to, a[1]])

    def cq(self, eng, st, I, a, m, fn):
        if m not in ('try_enqueue', 'enqueue', 'try_dequeue_from_producer') or not same(a[0], self.Q):
            raise Unsupported('ConcurrentQueue: ' + fn.dem[-120:])
        eng.oblige(st, "a publisher uses its own part of the queue", same(a[1], self.tok))
        n = st.copy()
        if m == 'try_dequeue_from_producer':
            st.setg('lost', simp(st.g('lost') + bv(1)))
            st.assume(z3.ULT(st.g('lost'), bv(1 << 31)))
            return [(n, 'val', F_)] + self.enter(st, 'h_ed_set', [a[2], self.older])
        to = self.slot(st, self.ctx.const('c_ed'))
        self.log(st, 'queued', to, 'try' if m == 'try_enqueue' else 'force')
        return ([(n, 'val', F_)] if m == 'try_enqueue' else []) + self.enter(st, 'h_ed_t', [to, a[2]])

    def emit(self, eng, st, I, a, fn):
        self.log(st, 'emit', self.S.sget(st, a[0]), self.get(st, a[2]))
        return [(st, 'val', None)]

    # ---- ring buffers: contracts of C03 (claims), C04 (publication) and C06 (slots)
    def ring(self, eng, st, I, a, m, fn):
        ps = parse(fn.dem)[1]
        if not same(a[0], self.R) and not (isinstance(a[0], Ptr) and a[0].r == self.R.r):
            raise Unsupported('a foreign ring buffer')
        if m in ('try_next', 'next') and (not ps or cval(a[1]) == 1):
            eng.oblige(st, "a full ring buffer never holds the publisher up", m == 'try_next')
            seq = fbv('seq', 64)
            n = st.copy()
            st.assume(seq >= bv(0))
            self.log(st, 'claim', seq)
            if not self.at(n, 'full'):
                self.log(n, 'full')
            ti = [g for g in self.ctx.mod.globals if 'insufficient_capacity_exception' in g and g.startswith('_ZTI')]
            known = st.ghost['room']
            return [(st, 'val', seq)] * (known is not False) + [(n, 'throw', eng.throw_new(n, ti[0]))] * (known is not True)
        if m == 'has_available_capacity' and cval(a[1]) == 1:
            known = st.ghost['room']
            n = st.copy()
            if fn.dem.count('single'):  # nobody else claims
                st.ghost['room'], n.ghost['room'] = True, False
            if not self.at(n, 'full'):
                self.log(n, 'full')
            return [(st, 'val', T_)] * (known is not False) + [(n, 'val', F_)] * (known is not True)
        if m == 'publish' and ',' not in ps:
            c = self.at(st, 'claim')
            eng.oblige(st, "exactly the claimed slot is published, once", len(c) == 1 and not self.at(st, 'publish') and a[1] == c[0][1])
            self.log(st, 'publish', len(st.ghost['log']))
            return [(st, 'val', None)]
        if m == 'claim' and fn.dem.count('single'):
            c = self.at(st, 'claim')
            eng.oblige(st, "only the latest claim is given back, unpublished", len(c) == 1 and not self.at(st, 'publish') and not self.at(st, 'given back') and a[1] == c[0][1] - bv(1))
            self.log(st, 'given back')
            return [(st, 'val', None)]
        if not m.startswith('operator'):
            raise Unsupported('ring buffer: ' + fn.dem[-120:])
        c = self.at(st, 'claim')
        eng.oblige(st, "only the claimed slot is written, before it is published", len(c) == 1 and not self.at(st, 'publish') and a[1] == c[0][1])
        return self.slotp


def times(ctx, X, st, q, t, container):
    if container:
        X.e.oblige(st, "an event carries the time of its publication", z3.And(st.g('timed'), t == st.g('now')))


def unit_basic(conc, container, discard):
    def run(ctx):
        e = ctx.eng
        X = Chan(ctx, container)
        s = X.s
        X.Q = Ptr(s.new_region('queue', ctx.const('c_cq' if conc else 'c_sq'), 'undef').id, 0)
        X.tok = Ptr(s.new_region('token', 64, 'undef').id, 0)
        P = Ptr(s.new_region('publisher', ctx.const('c_cp' if conc else 'c_bp'), 'undef').id, 0)
        n = 0
        for s1 in X.run(s, 'h_cp' if conc else 'h_bp', [P, X.C, X.N, X.Q] + [X.tok] * conc + [z3.BoolVal(discard)], 'creating a publisher'):
            e.store(s1, ctx.acc('a_disc', P), fbv('discarded0', 64), I64)
            d0 = X.count(s1, 'a_disc', P)
            q, p, sp = X.shared(s1)
            mark = len(q.ghost['log'])
            ctx.cover('precondition', q)
            for st in X.run(q, 'h_pub_sp', [P, sp], 'publishing'):
                n += 1
                L = st.ghost['log'][mark:]
                e.oblige(st, "a published event enters the queue exactly once", len([x for x in L if x[0] == 'queued']) == 1)
                e.oblige(st, "every event the queue lost is counted exactly once", X.count(st, 'a_disc', P) - d0 == st.g('lost'))
                if not discard:
                    e.oblige(st, "a publisher that waits for room discards nothing", z3.And(st.g('lost') == bv(0), z3.BoolVal(not [x for x in L if x[0] == 'queued' and x[2] == 'force'])))
                else:
                    e.oblige(st, "a publisher that discards does not wait for room", z3.And(z3.Not(st.g('waited')), z3.BoolVal(not [x for x in L if x[0] == 'queued' and x[2] == 'wait'])))
                for x in [x for x in L if x[0] == 'queued'][:1]:
                    e.oblige(st, "a shared event is handed on as it is", same(X.get(st, ctx.acc('a_edata', x[1])), p) and len(L) == 1)
                    times(ctx, X, st, q, e.load(st, ctx.acc('a_etime', x[1]), I64), container)
                    m2 = len(st.ghost['log'])
                    for t in X.run(st, 'h_drop', [ctx.acc('a_edata', x[1])], 'dropping'):
                        e.oblige(t, "an event somebody still shares is not freed", len(t.ghost['log']) == m2)
                        for u in X.run(t, 'h_drop', [sp], 'dropping'):
                            e.oblige(u, "a shared event is freed by its last holder", [y[0] for y in u.ghost['log'][m2:]] == ['delete'])
        e.oblige(s, "publishing can return", n >= 1)

    return run


def unit_emitter(ctx):
    e = ctx.eng
    X = Chan(ctx, False)
    s = X.s
    P = Ptr(s.new_region('publisher', ctx.const('c_ep'), 'undef').id, 0)
    em, se = Ptr(s.new_region('emitter', 16, 'undef').id, 0), Ptr(s.new_region('emitter object', 8, 'undef').id, 0)
    outs = []
    for s1 in [t for q in X.run(s, 'h_em', [em, se], 'making an emitter') for t in X.run(q, 'h_ep', [P, X.N, em], 'creating a publisher')]:
        q, p, sp = X.shared(s1)
        ctx.cover('precondition', q)
        outs += [(t, p, sp) for t in X.run(q, 'h_pub_sp', [P, sp], 'publishing')]
    e.oblige(s, "publishing returns", len(outs) >= 1)
    for st, p, sp in outs:
        L = X.at(st, 'emit')
        e.oblige(st, "a published event is emitted exactly once", len(L) == 1 and len(st.ghost['log']) == 1)
        for x in L[:1]:
            e.oblige(st, "an event is emitted under the name of its publisher", x[1] == X.name)
            e.oblige(st, "a shared event is handed on as it is", same(x[2], p))


def ringed(ctx, X, kind):
    """a publisher over a ring buffer with an arbitrary slot that is about to be claimed; yields (state, publisher, event in the slot)"""
    s = X.s
    X.R = Ptr(s.new_region('ring buffer', ctx.const(f'c_{kind}ring'), 'undef').id, 0)
    X.slotp = Ptr(s.new_region('slot', ctx.const(f'c_{kind}w'), 'undef').id, 0)
    P = Ptr(s.new_region('publisher', ctx.const(f'c_{kind}p'), 'undef').id, 0)
    return s, P


def ring_posts(ctx, X, st, q, mark, lost):
    """what holds for every publication into a ring buffer; is there an event to look at?"""
    e = X.e
    L = st.ghost['log'][mark:]
    full = [x for x in L if x[0] == 'full']
    pub = [x for x in L if x[0] == 'publish']
    e.oblige(st, "every claimed slot is published", len(pub) == len([x for x in L if x[0] == 'claim']))
    e.oblige(st, "a published event enters the ring buffer exactly once, or finds it full", len(pub) + len(full) == 1)
    e.oblige(st, "an event is counted as lost exactly if the ring buffer is full", lost == bv(1 if full else 0))
    if full:
        e.oblige(st, "an event that finds the ring buffer full changes nothing in it", not [x for x in L if x[0] not in ('full', 'new', 'copy', 'delete')])
        return None
    return L


def unit_loop(container, unsafe, stale):
    def run(ctx):
        e = ctx.eng
        X = Chan(ctx, container)
        s, P = ringed(ctx, X, 'l')
        old = NULL
        if stale:
            old = Ptr(s.new_region('old event', 16).id, 0)
        ln = X.string(s, fbv('loop', 64))
        n = 0
        for s1 in [t for q in X.run(s, 'h_lw', [X.slotp, old], 'filling a slot') for t in X.run(q, 'h_lp', [P, X.C, X.R, ln, X.N, z3.BoolVal(unsafe)], 'creating a publisher')]:
            e.store(s1, ctx.acc('a_ldisc', P), fbv('discarded0', 64), I64)
            was = fbv('older name', 64)
            s1.assume(z3.ULT(was, bv(1 << 30)))
            X.S.sset(s1, ctx.acc('a_lname', X.slotp), was)  # what an earlier event left in the slot
            q, p, sp = X.shared(s1)
            mark = len(q.ghost['log'])
            ctx.cover('precondition', q)
            for st in X.run(q, 'h_pub_sp', [P, sp], 'publishing'):
                L = ring_posts(ctx, X, st, q, mark, X.count(st, 'a_ldisc', P) - X.count(q, 'a_ldisc', P))
                if L is None:
                    continue
                n += 1
                pubs = [x for x in L if x[0] == 'publish']
                e.oblige(st, "nothing happens to the slot after its publication", not pubs or st.ghost['log'].index(pubs[0]) == len(st.ghost['log']) - 1)
                e.oblige(st, "a shared event is handed on as it is", same(X.get(st, ctx.acc('a_ldata', X.slotp)), p) and not X.writes(L, p))
                e.oblige(st, "an event carries its name", X.S.sget(st, ctx.acc('a_lname', X.slotp)) == X.name)
                times(ctx, X, st, q, e.load(st, ctx.acc('a_ltime', X.slotp), I64), container)
                if stale:
                    e.oblige(st, "an event left over in a slot is dropped exactly once", len([x for x in L if x[0] == 'delete' and same(x[1], old)]) == 1)
                m2 = len(st.ghost['log'])
                for t in X.run(st, 'h_drop', [ctx.acc('a_ldata', X.slotp)], 'dropping'):
                    e.oblige(t, "an event somebody still shares is not freed", len(t.ghost['log']) == m2)
                    for u in X.run(t, 'h_drop', [sp], 'dropping'):
                        e.oblige(u, "a shared event is freed by its last holder", [y[0] for y in u.ghost['log'][m2:]] == ['delete'])
        e.oblige(s, "publishing can succeed", n >= 1)

    return run


def unit_mux(container, clone, how, fail=False):
    def run(ctx):
        e = ctx.eng
        X = Chan(ctx, container)
        s, P = ringed(ctx, X, 'd')
        old = Ptr(s.new_region('event of the slot', 16).id, 0)
        n = 0
        for s1 in [t for q in X.run(s, 'h_dw', [X.slotp, old], 'filling a slot') for t in X.run(q, 'h_dp', [P, X.C, X.N, X.R, z3.BoolVal(clone)], 'creating a publisher')]:
            e.store(s1, ctx.acc('a_disc', P), fbv('discarded0', 64), I64)
            q, O = s1, X.O
            if how == 'shared':
                q, O, sp = X.shared(s1)
            mark = len(q.ghost['log'])
            ctx.cover('precondition', q)
            fn, args = {'ref': ('h_pub_ref', [P, O]), 'shared': ('h_pub_sp', [P, sp] if how == 'shared' else None), 'process': ('h_pub_proc', [P])}[how]
            if fail:
                X.failing()
                for o in e.run_fn(q, ctx.fn(fn), args):
                    L = o[1].ghost['log'][mark:]
                    if o[0] == 'throw':
                        n += 1
                        e.oblige(o[1], "a callback that fails leaves no claimed slot unpublished", len([x for x in L if x[0] == 'claim']) == len([x for x in L if x[0] in ('publish', 'given back')]))
                        e.oblige(o[1], "an event that could not be made does not enter the channel", not [x for x in L if x[0] == 'publish'])
                        e.oblige(o[1], "an event that could not be made is not counted as lost", X.count(o[1], 'a_disc', P) == X.count(q, 'a_disc', P))
                        e.oblige(o[1], "the failure of the callback reaches the publishing code", o[2][1] == '_ZTISt13runtime_error')
                    else:
                        e.oblige(o[1], "a failure of the callback is not hidden", not [x for x in L if x[0] == 'failed'])
                continue
            for st in X.run(q, fn, args, 'publishing'):
                L = ring_posts(ctx, X, st, q, mark, X.count(st, 'a_disc', P) - X.count(q, 'a_disc', P))
                if L is None:
                    continue
                n += 1
                i = ([k for k, x in enumerate(L) if x[0] == 'publish'] + [len(L)])[0]
                p = X.get(st, ctx.acc('a_ddata', X.slotp))
                e.oblige(st, "an event is complete before it is published", i == len(L) - 1)
                e.oblige(st, "an event in the channel is the channel's own", isinstance(p, Ptr) and p.r is not None and p.r != O.r)
                if how == 'process':
                    e.oblige(st, "the callback prepares the event exactly once", [x[0] for x in X.writes(L, p)] in (['process'], ['new', 'process']))
                else:
                    X.made_from(st, p, O, L, clone, False, False)
                times(ctx, X, st, q, e.load(st, ctx.acc('a_dtime', X.slotp), I64), container)
                m2 = len(st.ghost['log'])
                for t in X.run(st, 'h_drop', [ctx.acc('a_ddata', X.slotp)], 'dropping'):
                    D = [x[1] for x in t.ghost['log'][mark:] if x[0] == 'delete']
                    e.oblige(t, "an event replaced in a slot, and the one in it, are freed exactly once", len([x for x in D if same(x, old)]) == 1 and len([x for x in D if same(x, p)]) == 1 and not [x for x in D if same(x, O)])
        e.oblige(s, "publishing can succeed" if not fail else "the callback can fail", n >= 1)

    return run


yn = lambda b, x: x if b else 'no ' + x
UNITS = [Unit(f"ObjectPoolPublisher, {yn(k, 'pool')}, {yn(i, 'initialiser')}, {yn(c, 'cloner')}", unit_pool(k, i, c)) for k in (False, True) for i in (False, True) for c in (False, True)]
UNITS += [Unit(f"ObjectPoolPublisher, {yn(k, 'pool')}, {h}: a callback fails", unit_throw(k, h)) for k in (False, True) for h in ('ref', 'process')]
UNITS += [Unit(f"{'ConcurrentQueuePublisher' if q else 'BasicPublisher'}, {yn(c, 'container')}, {'discards' if d else 'waits'}", unit_basic(q, c, d)) for q in (False, True) for c in (False, True) for d in (False, True)]
UNITS += [Unit('EventEmitterPublisher', unit_emitter)]
UNITS += [Unit(f"EventLoopPublisher, {yn(c, 'container')}, {'unsafe' if u else 'safe'}, {'stale slot' if t else 'empty slot'}", unit_loop(c, u, t)) for c in (False, True) for u in (False, True) for t in (False, True)]
UNITS += [Unit(f"DataMultiplexerPublisher, {yn(c, 'container')}, {yn(f, 'cloner')}, {h}", unit_mux(c, f, h)) for c in (False, True) for f in (False, True) for h in ('ref', 'shared', 'process')]
UNITS += [Unit(f"DataMultiplexerPublisher, {h}: a callback fails", unit_mux(True, True, h, True)) for h in ('ref', 'shared', 'process')]
FL = ['-I', f'{VERIF}/harness/sdk', '-I', '/usr/include/concurrentqueue/moodycamel']
LB = ['-lspdlog', '-lfmt', '-lpthread']
CONFIGS = [('default', ())]
DRIVERS = [dict(src='d18.cpp', flags=FL, libs=LB, secs=4), dict(src='d18.cpp', flags=FL, libs=LB, san=TSAN, secs=3)]
CFLAGS = ('-I', f'{VERIF}/harness/sdk', '-I', '/usr/include/concurrentqueue/moodycamel')
ASSUMPTIONS = ['the KlepsydraSDK classes (publisher base class, statistics, clock) are stand-ins in harness/sdk, as they are not part of the repository',
               'the stack of the object pool by the contract C01 proves, the blocking queue by that of C14, claims, publication and slots of the ring buffer by those of C03, C04 and C06',
               "moodycamel::ConcurrentQueue by contract (a third-party header, not in the repository): an enqueue that succeeds adds exactly the given item to the producer's part, one that fails changes nothing, a dequeue from the producer yields an older item of its own",
               'copying, assigning and destroying an event does not throw and memory does not run out; the callbacks may throw',
               'an event object out of the pool is nobody else\'s (C01); fewer than 2^31 events are lost in one publication',
               'std::string and spdlog by contract; std::function and std::shared_ptr are libstdc++\'s own code']
BOUNDED = 'random histories of up to 60 publications (by reference, shared, prepared by a callback, failing callbacks), deliveries and dropped events over pools of up to 5, queues of up to 6 and ring buffers of 2 and 8, against a reference; up to 3 concurrent publishers into a blocking queue, a lock-free queue and an event loop'
EXPLANATION = 'every way to publish, through every publisher of the repository, with and without a pool, an initialiser, a cloner, a container and discarding, for an arbitrary event, an arbitrary moment and arbitrarily many rounds of waiting or discarding; the life of the event until it returns to its pool or is freed, also after its publisher; callbacks that throw'
