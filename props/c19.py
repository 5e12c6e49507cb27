"""C19: an event taken from a channel is passed on once, unchanged, to the listeners of its name"""
import re

import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import PT, I64, I32, I8, Stl, parse, base_name, simp
from props.c18 import Methods, same

HARNESS = 'c19_subscribe.cpp'
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


class MStl(Stl):
    """only strings and maps are abstract; smart pointers and std::function are libstdc++'s own code"""

    def select(self, fn):
        comps, params, tail = parse(fn.dem)
        comps = [c for c in comps if c not in ('__cxx11', '__detail', '_V2')]
        if len(comps) >= 3 and base_name(comps[-2]) in ('basic_string', 'char_traits', 'map', 'unordered_map') or len(comps) == 2 and ('basic_string<' in params or base_name(comps[-1]) == 'to_string'):
            return Stl.select(self, fn)
        return None

    def map_at_obj(self, st, p, name, hdr):
        """keys are names, values 32-bit ids; a node of a tree has a longer header than one of a hash table"""
        stride = hdr + 32 + 8
        r = st.new_region('nodes_' + name, None)
        k = z3.BitVec('k', 64)
        r.segs.append(Seg(0, bv(1 << 50), stride, {hdr: ['int', 8, z3.Lambda([k], k)], hdr + 32: ['int', 4, z3.Array('ids_' + name, BV64, z3.BitVecSort(32))]}, name=name))
        info = dict(name=name, rid=r.id, stride=stride, init=None, g='mapP_' + name, hdr=hdr)
        self.mapat[(p.r, str(simp(oz(p.o))))] = info
        self.maps[r.id] = info
        st.ghost[info['g']] = z3.Array('P_' + name, BV64, z3.BoolSort())
        return info

    def map_opindex(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        out = []
        for q, has in self.e.branch(st, self.present(st, i, k)):
            p = self.node(i, k, i['hdr'] + 32)
            if not has:
                q.setg(i['g'], z3.Store(q.g(i['g']), k, T_))
                self.e.store(q, p, bv(0, 32), I32)
            out.append((q, 'val', p))
        return out

    def insert(self, st, i, k, v, assign):
        out = []
        for q, has in self.e.branch(st, self.present(st, i, k)):
            if assign or not has:
                q.setg(i['g'], z3.Store(q.g(i['g']), k, T_))
                self.e.store(q, self.node(i, k, i['hdr'] + 32), v, I32)
            out.append((q, "val", Agg([self.node(i, k), bv(0 if has else 1, 8)])))
        return out

    def map_insert_or_assign(self, st, I, a, P, T):
        return self.insert(st, self.minfo(a[0]), self.keyarg(st, a[1]), self.e.load(st, a[2], I32), True)

    def map_emplace(self, st, I, a, P, T):
        return self.insert(st, self.minfo(a[0]), self.keyarg(st, a[1]), self.e.load(st, a[2], I32), False)

    map_try_emplace = map_emplace

    def map_insert(self, st, I, a, P, T):
        if len(a) != 2:
            raise Unsupported('insert')
        return self.insert(st, self.minfo(a[0]), self.keyarg(st, a[1]), self.e.load(st, a[1].add(32), I32), False)

    def map_at(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        return [(q, 'val', self.node(i, k, i['hdr'] + 32)) if has else (q, 'throw', self.e.throw_new(q, '_ZTISt12out_of_range')) for q, has in self.e.branch(st, self.present(st, i, k))]

    def map_size(self, st, I, a, P, T):
        i = self.minfo(a[0])
        n = fbv('size', 64)
        st.assume((n == bv(0)) == (st.g(i['g']) == z3.K(BV64, F_)), z3.ULT(n, bv(1 << 40)))
        return n


class Sub:
    """events are regions; what happens to them is logged per path"""

    def __init__(self, ctx, container=True):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = MStl(ctx, s)
        s.ghost.update(log=(), now=fbv('now0', 64), fails=False)
        if '__libc_single_threaded' in ctx.mod.globals:  # libstdc++'s shortcut for programs of one thread changes no result
            e.load_global(s, '@__libc_single_threaded')
            e.store(s, Ptr('@__libc_single_threaded', 0), bv(0, 8), I8)
        c = e.contract
        for n, k in (('cb_copy', 'copy'), ('cb_listen', 'listen'), ('cb_run', 'run'), ('cb_publish', 'publish')):
            c(f'^{n}$', self.logger(k))
        c(r'^cb_listen_sp$', lambda eng, st, I, a, fn: self.done(st, 'listen sp', self.get(st, a[0])))
        c(r'^cb_on$', self.on)
        c(r'^cb_once$', self.once)
        c(r'^cb_remove$', lambda eng, st, I, a, fn: self.done(st, 'remove', a[0], a[1], a[2]))
        c(r'^cb_removeall$', lambda eng, st, I, a, fn: self.done(st, 'remove all', a[0], a[1]))
        c(r'^cb_discard$', lambda eng, st, I, a, fn: self.done(st, 'discard', a[0], self.S.sget(st, a[1])))
        c(r'^cb_stats$', self.stats)
        c(r'^cb_emit$', self.emit)
        c(r'getCurrentNanoseconds', lambda eng, st, I, a, fn: fbv('now', 64))
        c(r'std::this_thread::(sleep_for|yield)|^sched_yield$', lambda eng, st, I, a, fn: [(st, 'val', bv(0, 32) if I.ty.kind == 'int' else None)])
        e.cand_gens = [scalar_gen()]
        self.C = Ptr(s.new_region('container', 8).id, 0) if container else NULL
        self.name = fbv('name', 64)
        self.N = self.string(s, self.name)
        self.I = self.W = None

    def string(self, s, v=None):
        v = fbv('str', 64) if v is None else v
        r = s.new_region('name', 32, 'undef')
        s.assume(z3.ULT(v, bv(1 << 30)))
        p = Ptr(r.id, 0)
        self.S.sset(s, p, v)
        return p

    def log(self, st, *x):
        st.ghost['log'] = st.ghost['log'] + (x,)

    def done(self, st, *x):
        self.log(st, *x)
        return [(st, 'val', None)]

    def logger(self, k):
        return lambda eng, st, I, a, fn: self.done(st, k, *a)

    def get(self, st, sp):
        return self.e.load(st, sp, PT)

    def enter(self, st, fn, args):
        return [(st, 'enter', (self.ctx.fn(fn), args))]

    def room(self, st, size, name='object'):
        return Ptr(st.new_region(name, size, 'undef').id, 0)

    def at(self, st, k):
        return [x for x in st.ghost['log'] if x[0] == k]

    def run(self, st, fn, args, what):
        out = []
        for o in self.e.run_fn(st, self.ctx.fn(fn), args):
            if o[0] == 'ret':
                out.append(o[1])
            elif o[0] == 'throw':
                self.e.oblige(o[1], what + " does not throw", False)
        return out

    def one(self, st, fn, args, what):
        out = self.run(st, fn, args, what)
        if len(out) != 1:
            raise Unsupported(f'{what}: {len(out)} outcomes')
        return out[0]

    # ---- events and emitters
    def event(self, st):
        """(event, shared_ptr)"""
        r = st.new_region('event', 16)
        r.cells[0], r.cells[8] = (8, fbv('a', 64)), (8, fbv('b', 64))
        sp = self.room(st, 16, 'handle')
        self.s = self.one(st, 'h_mk', [sp, Ptr(r.id, 0)], 'sharing')
        return self.s, Ptr(r.id, 0), sp

    def emitters(self, st):
        self.I, self.ip = self.room(st, 8, 'emitter'), self.room(st, 16)
        self.W, self.wp = self.room(st, 8, 'external emitter'), self.room(st, 16)
        st = self.one(st, 'h_em', [self.ip, self.I], 'making an emitter')
        self.s = self.one(st, 'h_wm', [self.wp, self.W], 'making an emitter')
        return self.s

    def on(self, eng, st, I, a, fn):
        i, f = fbv('id', 32), self.room(st, 32, 'callback')
        self.log(st, 'on', a[0], a[1], self.S.sget(st, a[2]), self.S.sget(st, a[3]), f, i)
        return self.enter(st, 'h_keepw' if a[0].r == self.W.r else 'h_keep2', [f, a[4], i])

    def once(self, eng, st, I, a, fn):
        i, f = fbv('id', 32), self.room(st, 32, 'callback')
        self.log(st, 'once', a[0], self.S.sget(st, a[1]), f, i)
        return self.enter(st, 'h_keepw' if a[0].r == self.W.r else 'h_keep2', [f, a[2], i])

    def stats(self, eng, st, I, a, fn):
        r = self.room(st, 64, 'statistics')
        self.log(st, 'stats', a[0], a[1], r)
        return self.enter(st, 'h_st', [a[2], r])

    def emit(self, eng, st, I, a, fn):
        ext = a[0].r == self.W.r
        n = st.copy() if st.ghost['fails'] else None
        if ext:
            self.log(st, 'emit', a[0], self.S.sget(st, a[1]), a[2], self.get(st, self.ctx.acc('a_ldata', a[3])), self.S.sget(st, self.ctx.acc('a_lname', a[3])), eng.load(st, self.ctx.acc('a_ltime', a[3]), I64))
        else:
            self.log(st, 'emit', a[0], self.S.sget(st, a[1]), a[2], self.get(st, a[3]))
        if n is None:
            return [(st, 'val', None)]
        n.ghost['log'] = st.ghost['log'] + (('failed',),)
        return [(st, 'val', None), (n, 'throw', eng.throw_new(n, '_ZTISt13runtime_error'))]

    def external(self, st, v=None):
        """the name under which events of the loop travel"""
        return self.S.cat(st, self.name if v is None else v, bv(self.S.lit('_external')))


# ---------------------------------------------------------------- pollers
class Poll(Sub):
    def __init__(self, ctx):
        Sub.__init__(self, ctx)
        c = self.e.contract
        c(r'kpsr::mem::SafeQueue<', Methods(('SafeQueue',), self.sq))
        c(r'moodycamel::ConcurrentQueue<', Methods(('ConcurrentQueue',), self.cq))
        nop = lambda eng, st, I, a, fn: [(st, 'val', None)]
        c(r'^std::packaged_task<void \(\)>::', nop)
        c(r'^std::future<void>::', nop)
        c(r'^std::thread::', nop)

    def item(self, st, to, fn):
        """the oldest item of the queue moves to `to`"""
        st, p, sp = self.event(st)
        t = fbv('enqueued', 64)
        x = self.room(st, self.ctx.const('c_ed'), 'item')
        st = self.one(st, 'h_ed', [x, sp], 'an item')
        self.e.store(st, self.ctx.acc('a_etime', x), t, I64)
        self.log(st, 'taken', p, t)
        return self.enter(st, fn, [to, x])

    def sq(self, eng, st, I, a, m, fn):
        if 'pop' not in m:
            raise Unsupported('SafeQueue::' + m)
        eng.oblige(st, "a poller takes from its own queue", same(a[0], self.Q))
        if not m.startswith(('try', 'timeout')):
            eng.oblige(st, "a poller does not wait without end for an event", False)
            raise Infeasible()
        n = st.copy()
        self.log(n, 'empty')
        return [(n, 'val', F_)] + self.item(st, a[1], 'h_ed_set')

    def cq(self, eng, st, I, a, m, fn):
        if m not in ('try_dequeue_from_producer', 'try_dequeue', 'try_dequeue_non_interleaved'):
            raise Unsupported('ConcurrentQueue: ' + fn.dem[-120:])
        eng.oblige(st, "a poller takes from its own queue", same(a[0], self.Q) and (m != 'try_dequeue_from_producer' or same(a[1], self.tok)))
        n = st.copy()
        self.log(n, 'empty')
        return [(n, 'val', F_)] + self.item(st, a[2 if m == 'try_dequeue_from_producer' else 1], 'h_ed_set')


def unit_poll(conc, fails):
    def run(ctx):
        e = ctx.eng
        X = Poll(ctx)
        s = X.emitters(X.s)
        X.Q = X.room(s, ctx.const('c_cq' if conc else 'c_sq'), 'queue')
        X.tok = X.room(s, 64, 'token')
        P = X.room(s, ctx.const('c_cqp' if conc else 'c_sqp'), 'poller')
        us = fbv('period', 32)
        s = X.one(s, 'h_cqp' if conc else 'h_sqp', [P, X.Q, X.ip, X.N, us] + [X.tok] * conc, 'creating a poller')
        s.ghost['fails'] = fails
        ctx.cover('precondition', s)
        took = none = 0
        for o in e.run_fn(s, ctx.fn('h_take'), [P]):
            if o[0] not in ('ret', 'throw'):
                continue
            st = o[1]
            L = st.ghost['log']
            tk = [x for x in L if x[0] == 'taken']
            em = [x for x in L if x[0] == 'emit']
            if o[0] == 'throw':
                e.oblige(st, "polling fails only if a listener does", fails and ('failed',) in L)
                e.oblige(st, "an event is not passed on again after a failure", len(em) <= len(tk))
                continue
            took += bool(tk)
            none += not tk
            e.oblige(st, "an event taken from the queue is passed on exactly once, in order, to the listeners of its name with its time",
                     z3.And(z3.BoolVal(len(tk) == len(em)), *[z3.And(z3.BoolVal(same(x[1], X.I) and same(x[4], y[1])), x[2] == X.name, x[3] == y[2]) for x, y in zip(em, tk)]))
            e.oblige(st, "nothing else is emitted or registered", not [x for x in L if x[0] not in ('taken', 'emit', 'empty', 'failed')])
        e.oblige(s, "a poll takes an event when there is one, and returns when there is none", took >= 1 and none >= 1)

    return run


# ---------------------------------------------------------------- handlers of the ring buffers
def unit_loop_handler(fails, empty):
    def run(ctx):
        e = ctx.eng
        X = Sub(ctx)
        s = X.emitters(X.s)
        s, p, sp = X.event(s)
        H, W = X.room(s, ctx.const('c_lh'), 'handler'), X.room(s, ctx.const('c_lw'), 'slot')
        s = X.one(s, 'h_lh', [H, X.wp], 'creating a handler')
        if empty:
            p, sp = NULL, X.room(s, 16)
            e.store(s, sp, NULL, PT)
            e.store(s, sp.add(8), NULL, PT)
        s = X.one(s, 'h_lw', [W, sp], 'filling a slot')
        t = fbv('enqueued', 64)
        e.store(s, ctx.acc('a_ltime', W), t, I64)
        X.S.sset(s, ctx.acc('a_lname', W), X.name)
        s.ghost['fails'] = fails
        want = X.external(s)
        ctx.cover('precondition', s)
        n = 0
        for o in e.run_fn(s, ctx.fn('h_lh_event'), [H, W, fbv('seq', 64), fbv('end', 1)]):
            if o[0] not in ('ret', 'throw'):
                continue
            st = o[1]
            n += 1
            L = st.ghost['log']
            em = [x for x in L if x[0] == 'emit']
            e.oblige(st, "an event in the loop is passed on exactly once", len(em) == 1 and not [x for x in L if x[0] not in ('emit', 'failed')])
            for x in em[:1]:
                e.oblige(st, "an event in the loop is passed on under its own name, unchanged, with its time",
                         z3.And(z3.BoolVal(same(x[1], X.W) and same(x[4], p)), x[2] == want, x[3] == t, x[5] == X.name, x[6] == t))
            if o[0] == 'throw':
                e.oblige(st, "handling an event fails only if a listener does", ('failed',) in L)
            else:
                q = X.get(st, ctx.acc('a_ldata', W))
                e.oblige(st, "a slot holds no event that was handled", isinstance(q, Ptr) and q.r is None)
        e.oblige(s, "handling an event returns", n >= 1)

    return run


def unit_mux_handler(fails):
    def run(ctx):
        e = ctx.eng
        X = Sub(ctx)
        s = X.emitters(X.s)
        s, p, sp = X.event(s)
        H, W = X.room(s, ctx.const('c_dh'), 'handler'), X.room(s, ctx.const('c_dw'), 'slot')
        s = X.one(s, 'h_dh', [H, X.N, X.ip], 'creating a handler')
        s = X.one(s, 'h_dw', [W, sp], 'filling a slot')
        t, end = fbv('enqueued', 64), fbv('end', 1)
        e.store(s, ctx.acc('a_dtime', W), t, I64)
        s.ghost['fails'] = fails
        ctx.cover('precondition', s)
        n = 0
        for o in e.run_fn(s, ctx.fn('h_dh_event'), [H, W, fbv('seq', 64), end]):
            if o[0] not in ('ret', 'throw'):
                continue
            st = o[1]
            n += 1
            L = [x for x in st.ghost['log'] if x != ('failed',)]
            e.oblige(st, "an event of the ring buffer is passed on or counted as discarded, exactly once", len(L) == 1 and L[0][0] in ('emit', 'discard'))
            for x in L[:1]:
                e.oblige(st, "the latest event of a batch is passed on, an older one is not", end if x[0] == 'emit' else z3.Not(end))
                e.oblige(st, "an event is passed on, or counted, for the subscriber of this handler", z3.And(z3.BoolVal(same(x[1], X.I)), x[2] == X.name))
                if x[0] == 'emit':
                    e.oblige(st, "an event is passed on unchanged with its time", z3.And(z3.BoolVal(same(x[4], p)), x[3] == t))
            q = X.get(st, ctx.acc('a_ddata', W))
            e.oblige(st, "a slot keeps its event for the other subscribers", z3.And(z3.BoolVal(same(q, p)), e.load(st, ctx.acc('a_dtime', W), I64) == t))
            if o[0] == 'throw':
                e.oblige(st, "handling an event fails only if a listener does", ('failed',) in st.ghost['log'])
        e.oblige(s, "handling an event returns", n >= 2)

    return run


# ---------------------------------------------------------------- subscribers of the event loop
def factory(X):
    def f(eng, st, I, a, fn):
        X.log(st, 'created', a[1])
        return X.enter(st, 'h_em', [a[0], X.I])

    X.e.contract(r'kpsr::EventEmitterFactory::createEventEmitter<', f)


def unit_loop_sub(container, fails):
    def run(ctx):
        e = ctx.eng
        X = Sub(ctx, container)
        factory(X)
        s = X.emitters(X.s)
        P = X.room(s, ctx.const('c_ls'), 'subscriber')
        ty = fbv('type', 32)
        s = X.one(s, 'h_ls', [P, X.C, X.wp, X.N, ty], 'creating a subscriber')
        L = s.ghost['log']
        want = X.external(s)
        ons = [x for x in L if x[0] == 'on']
        e.oblige(s, "a subscriber gets an emitter of the requested type", z3.And(z3.BoolVal(len(X.at(s, 'created')) == 1), *[x[1] == ty for x in X.at(s, 'created')]))
        e.oblige(s, "a subscriber registers exactly once with the loop, under the name its events travel under", z3.And(z3.BoolVal(len(ons) == 1 and len(L) == 2), *[z3.And(z3.BoolVal(same(x[1], X.W) and same(x[2], X.C)), x[4] == want) for x in ons]))
        if len(ons) != 1:
            return
        f, i = ons[0][5], ons[0][6]
        s, p, sp = X.event(s)
        W = X.room(s, ctx.const('c_lw'), 'slot')
        s = X.one(s, 'h_lw', [W, sp], 'filling a slot')
        t = fbv('enqueued', 64)
        e.store(s, ctx.acc('a_ltime', W), t, I64)
        X.S.sset(s, ctx.acc('a_lname', W), X.name)
        ctx.cover('precondition', s)
        mark = len(L)
        q = s.copy()
        q.ghost['fails'] = fails
        n = 0
        for o in e.run_fn(q, ctx.fn('h_callw'), [f, W]):
            if o[0] not in ('ret', 'throw'):
                continue
            n += 1
            st = o[1]
            M = [x for x in st.ghost['log'][mark:] if x != ('failed',)]
            e.oblige(st, "an event of the loop reaches the listeners of its name exactly once", len(M) == 1 and M[0][0] == 'emit' and same(M[0][1], X.I))
            for x in [x for x in M if x[0] == 'emit' and len(x) == 5][:1]:
                e.oblige(st, "an event of the loop reaches the listeners unchanged, with its name and time", z3.And(z3.BoolVal(same(x[4], p)), x[2] == X.name, x[3] == t))
            e.oblige(st, "an event in a slot is left as it is", same(X.get(st, ctx.acc('a_ldata', W)), p))
            if o[0] == 'throw':
                e.oblige(st, "passing an event on fails only if a listener does", ('failed',) in st.ghost['log'])
        e.oblige(s, "passing an event on returns", n >= 1)
        n = 0
        for st in X.run(s, 'h_ls_del', [P], 'destroying a subscriber'):
            n += 1
            M = st.ghost['log'][mark:]
            rm = [x for x in M if x[0] == 'remove']
            e.oblige(st, "a subscriber that is gone is not registered with the loop any more, and nobody else's registration is touched",
                     z3.And(z3.BoolVal(len(rm) == 1 and not [x for x in M if x[0] in ('on', 'once') or x[0] == 'remove all' and not same(x[1], X.I)]), *[z3.And(z3.BoolVal(same(x[1], X.W) and same(x[2], X.C)), x[3] == i) for x in rm]))
            e.oblige(st, "the loop stops calling a subscriber before its listeners are taken away", not [x for x in M if x[0] == 'remove all'] or [x[0] for x in M].index('remove') < [x[0] for x in M].index('remove all') if rm else False)
        e.oblige(s, "destroying a subscriber returns", n >= 1)

    return run


def unit_function(container):
    def run(ctx):
        e = ctx.eng
        X = Sub(ctx, container)
        s = X.emitters(X.s)
        P = X.room(s, ctx.const('c_flst'), 'listener')
        s = X.one(s, 'h_flst', [P, X.C, X.wp, X.N], 'creating a listener')
        L = s.ghost['log']
        want = X.external(s)
        ons = [x for x in L if x[0] == 'on']
        e.oblige(s, "a listener for functions registers exactly once with the loop, under the name its events travel under", z3.And(z3.BoolVal(len(ons) == 1 == len(L)), *[z3.And(z3.BoolVal(same(x[1], X.W) and same(x[2], X.C)), x[4] == want) for x in ons]))
        if len(ons) != 1:
            return
        f, i = ons[0][5], ons[0][6]
        sp, W = X.room(s, 16), X.room(s, ctx.const('c_lw'), 'slot')
        s = X.one(s, 'h_fun', [sp, X.room(s, 32, 'function')], 'a function')
        s = X.one(s, 'h_lwf', [W, sp], 'filling a slot')
        ctx.cover('precondition', s)
        mark, n = len(L), 0
        for st in X.run(s.copy(), 'h_callw', [f, W], 'running a function'):
            n += 1
            e.oblige(st, "a function given to the loop runs exactly once", [x[0] for x in st.ghost['log'][mark:]] == ['run'])
        for st in X.run(s, 'h_flst_del', [P], 'destroying a listener'):
            n += 1
            rm = st.ghost['log'][mark:]
            e.oblige(st, "a listener that is gone is not registered with the loop any more", z3.And(z3.BoolVal(len(rm) == 1 and rm[0][0] == 'remove'), *[z3.And(z3.BoolVal(same(x[1], X.W) and same(x[2], X.C)), x[3] == i) for x in rm[:1] if x[0] == 'remove']))
        e.oblige(s, "functions run and listeners can be destroyed", n >= 2)

    return run


# ---------------------------------------------------------------- listeners of a subscriber
def subscriber(ctx, container, own=False):
    X = Sub(ctx, container)
    factory(X)
    s = X.emitters(X.s)
    P = X.room(s, ctx.const('c_es'), 'subscriber')
    M = X.S.map_at_obj(s, ctx.acc('a_map', P), 'listeners', ctx.const('c_hdr'))
    s = X.one(s, 'h_es_t' if own else 'h_es', [P, X.C] + ([X.N, fbv('type', 32)] if own else [X.ip, X.N]), 'creating a subscriber')
    ctx.eng.oblige(s, "a new subscriber has no listeners", z3.And(z3.BoolVal(not X.at(s, 'on') and not X.at(s, 'once')), s.g(M['g']) == z3.K(BV64, F_)))
    # any listeners may be registered by now
    s.setg(M['g'], z3.Array('P_any', BV64, z3.BoolSort()))
    s.ghost['log'] = ()
    return X, s, P, M


def ids(st, M):
    return st.mem[M['rid']].segs[0].fields[M['hdr'] + 32][2]


def unchanged(st, s, M, but=None):
    """the other listeners stay as they are"""
    k = z3.BitVec('anyname', 64)
    c = z3.And(z3.Select(st.g(M['g']), k) == z3.Select(s.g(M['g']), k), z3.Implies(z3.Select(s.g(M['g']), k), z3.Select(ids(st, M), k) == z3.Select(ids(s, M), k)))
    return c if but is None else z3.Implies(k != but, c)


def unit_register(how, container, empty):
    def run(ctx):
        e = ctx.eng
        X, s, P, M = subscriber(ctx, container, how == 'sp')
        l = fbv('listener', 64)
        ln = X.string(s, l)
        once = how.endswith('once')
        args = [P] + ([] if once else [ln]) + [z3.BoolVal(not empty)]
        ctx.cover('precondition', s)
        n = 0
        for o in e.run_fn(s.copy(), ctx.fn('h_reg' + {'ref': '', 'ref once': '_once', 'sp': '_sp', 'sp once': '_sp_once'}[how]), args):
            if o[0] not in ('ret', 'throw'):
                continue
            n += 1
            st = o[1]
            L = st.ghost['log']
            if empty:
                e.oblige(st, "an empty callback is refused, without a trace", z3.And(z3.BoolVal(o[0] == 'throw' and o[2][1] == '_ZTISt16invalid_argument' and not L), unchanged(st, s, M)))
                continue
            if o[0] == 'throw':
                e.oblige(st, "a callback is accepted", False)
                continue
            ok = len(L) == 1 and L[0][0] == ('once' if once else 'on') and same(L[0][1], X.I)
            e.oblige(st, "a listener is registered exactly once", ok)
            if not ok:
                continue
            f, i = L[0][-2:]
            if once:
                e.oblige(st, "a one-time listener is registered for the events of its subscriber", z3.And(L[0][2] == X.name, unchanged(st, s, M)))
            else:
                e.oblige(st, "a listener is registered under its name, for the events of its subscriber", z3.And(z3.BoolVal(same(L[0][2], X.C)), L[0][3] == l, L[0][4] == X.name))
                e.oblige(st, "a subscriber remembers its listeners", z3.And(z3.Select(st.g(M['g']), l), z3.Select(ids(st, M), l) == i, unchanged(st, s, M, l)))
            st, p, sp = X.event(st)
            m = 0
            for t in X.run(st, 'h_call2', [f, sp], 'delivering an event'):
                m += 1
                N = t.ghost['log'][1:]
                e.oblige(t, "a listener gets the event itself, exactly once", len(N) == 1 and N[0][0] == ('listen sp' if how.startswith('sp') else 'listen') and same(N[0][1], p))
            e.oblige(st, "delivering an event returns", m >= 1)
        e.oblige(s, "registering returns", n >= 1)

    return run


def unit_unregister(container, other):
    def run(ctx):
        e = ctx.eng
        X, s, P, M = subscriber(ctx, container)
        l = fbv('listener', 64)
        ln = X.string(s, l)
        if other:
            out = X.room(s, 16)
            k = fbv('asked', 64)
            kn = X.string(s, k)
            outs = X.run(s, 'h_stats', [P, kn, out], 'asking for statistics')
            e.oblige(s, "asking for statistics returns", len(outs) >= 1)
        else:
            outs = [s]
        ctx.cover('precondition', s)
        n = 0
        for q in outs:
            if other:
                st = q
                L = q.ghost['log']
                for x in L:
                    e.oblige(q, "statistics are asked for only", x[0] == 'stats' and same(x[1], X.I))
                r = e.run_fn(q.copy(), ctx.fn('h_stget'), [out])[0][2]
                known = z3.Select(s.g(M['g']), k)
                e.oblige(q, "statistics are those of the named listener", z3.Implies(known, z3.And(z3.BoolVal(len(L) == 1), *[z3.And(z3.BoolVal(same(r, x[3])), x[2] == z3.Select(ids(s, M), k)) for x in L[:1] if x[0] == 'stats'])))
                e.oblige(q, "an unknown listener has no statistics", z3.Or(known, z3.BoolVal(isinstance(r, Ptr) and r.r is None)))
                e.oblige(q, "asking for statistics changes no registration", unchanged(q, s, M))
                n += 1
                continue
            for st in X.run(q.copy(), 'h_unreg', [P, ln], 'removing a listener'):
                n += 1
                L = st.ghost['log']
                known = z3.Select(s.g(M['g']), l)
                e.oblige(st, "a removed listener is taken from the emitter, exactly once", z3.Implies(known, z3.And(z3.BoolVal(len(L) == 1), *[z3.And(z3.BoolVal(x[0] == 'remove' and same(x[1], X.I) and same(x[2], X.C)), x[3] == z3.Select(ids(s, M), l)) if x[0] == 'remove' else F_ for x in L])))
                e.oblige(st, "removing an unknown listener removes nothing", z3.Or(known, z3.BoolVal(not L)))
                e.oblige(st, "a removed listener is forgotten, and no other", z3.And(z3.Not(z3.Select(st.g(M['g']), l)), unchanged(st, s, M, l)))
        e.oblige(s, "both known and unknown names are served", n >= 1)

    return run


def unit_unsubscribe(container):
    def run(ctx):
        e = ctx.eng
        X, s, P, M = subscriber(ctx, container)
        ctx.cover('precondition', s)
        n = 0
        for st in X.run(s, 'h_es_del', [P], 'destroying a subscriber'):
            n += 1
            L = st.ghost['log']
            e.oblige(st, "the listeners of a destroyed subscriber are taken from the emitter", len(L) == 1 and L[0][0] == 'remove all' and same(L[0][1], X.I) and same(L[0][2], X.C))
        e.oblige(s, "destroying a subscriber returns", n >= 1)

    return run


# ---------------------------------------------------------------- forwarder, caches
def unit_forward(ctx):
    e = ctx.eng
    X = Sub(ctx)
    s = X.emitters(X.s)
    s, p, sp = X.event(s)
    P = X.room(s, 512, 'publisher')
    ctx.cover('precondition', s)
    n = 0
    for st in X.run(s, 'h_fwd', [P, p], 'forwarding'):
        n += 1
        L = st.ghost['log']
        e.oblige(st, "a forwarded event is published exactly once, unchanged", len(L) == 1 and L[0][0] == 'publish' and same(L[0][1], P) and same(L[0][2], p))
    e.oblige(s, "forwarding returns", n >= 1)


class Touch:
    """the cached event of a thread-safe cache is touched with its lock held"""

    def _ok(self, eng, s):
        eng.oblige(s, "the cached event is touched with the lock held only", z3.BoolVal(bool(s.ghost['locked'] or s.ghost['free'])))

    def load(self, eng, s, p, T, order):
        self._ok(eng, s)
        return eng.load(s, p, T)

    def store(self, eng, s, p, v, T, order):
        self._ok(eng, s)
        eng.store(s, p, v, T)


def unit_cache(kind, how, again=False):
    multi = kind == 'MultiThread'

    def run(ctx):
        e = ctx.eng
        X = Sub(ctx)
        s = X.emitters(X.s)
        P = X.room(s, ctx.const({'MultiThread': 'c_ml', 'Test': 'c_tl', '': 'c_cl'}[kind]), 'cache')
        last, cnt, mtx = ctx.acc('a_cached', P), ctx.acc('a_counter', P), ctx.acc('a_mutex', P) if multi else None
        s.ghost.update(locked=False, free=True, locks=0, snap=(), had=())
        (s,) = [q for q in X.run(s, {'MultiThread': 'h_ml', 'Test': 'h_tl', '': 'h_cl'}[kind], [P] + [fbv('sleep', 32)] * (kind == 'Test'), 'creating a cache')]
        e.oblige(s, "a new cache is empty", z3.And(z3.BoolVal(isinstance(X.get(s, last), Ptr) and X.get(s, last).r is None), e.load(s, cnt, I32) == bv(0, 32)))
        mine = lambda a: multi and same(a, mtx)
        oth = {}

        def havoc(st):
            """what is cached, and how many events were seen, by now"""
            st.ghost['free'] = True
            c = fbv('counter', 32)
            e.store(st, cnt, c, I32)
            if again:  # the given event is the latest one
                p, sp = given
                st = X.one(st, 'h_setlast', [P, sp], 'the same event')
            else:
                st, p, sp = X.event(st)
                st = X.one(st, 'h_setlast', [P, sp], 'another event')
                st = X.one(st, 'h_drop', [sp], 'dropping')
            st.ghost['free'] = False
            st.ghost['had'] = (p, c)
            return st

        def see(st):
            return X.get(st, last), e.load(st, cnt, I32)

        def lock(eng, st, I, a, fn):
            if not mine(a[0]):
                raise Unsupported('a foreign lock')
            e.oblige(st, "a cache is not locked twice", not st.ghost['locked'])
            st = havoc(st)
            st.ghost['locked'] = True
            st.ghost['locks'] += 1
            return [(st, 'val', bv(0, 32) if I.ty.kind == 'int' else None)]

        def unlock(eng, st, I, a, fn):
            st.ghost['locked'] = False
            st.ghost['free'] = True
            st.ghost['snap'] = see(st)
            st.ghost['free'] = False
            return [(st, 'val', bv(0, 32) if I.ty.kind == 'int' else None)]

        e.contract(r'^(std::mutex::lock\(|pthread_mutex_lock$)', lock)
        e.contract(r'^(std::mutex::unlock\(|pthread_mutex_unlock$)', unlock)
        s, p, sp = X.event(s)
        given = (p, sp)
        s = havoc(s)
        if multi:
            r = s.wreg(last.r)
            r.hooks = {last.o: Touch(), last.o + 8: Touch()}
        else:
            s.ghost['free'] = True
        ctx.cover('precondition', s)
        out, num = X.room(s, 16), X.room(s, 4)
        mark = len(s.ghost['log'])
        fn, args = {'ref': ('h_cache', [P, p]), 'function': ('h_cache_f', [P, p]), 'shared': ('h_cache_raw', [P, sp]), 'read': ('h_last', [P, out]), 'pair': ('h_pair', [P, out, num])}[how]
        n = 0
        for o in e.run_fn(s.copy(), ctx.fn(fn), args):
            if o[0] not in ('ret', 'throw'):
                continue
            n += 1
            st = o[1]
            if o[0] == 'throw':
                e.oblige(st, "a cache does not throw", False)
                continue
            L = st.ghost['log'][mark:]
            if multi:
                e.oblige(st, "an operation of a thread-safe cache is one critical section", st.ghost['locks'] == 1 and not st.ghost['locked'])
                if st.ghost['locks'] != 1:
                    continue
            st.ghost['free'] = True
            old, c0 = st.ghost['had']
            now, c1 = st.ghost['snap'] if multi else see(st)
            if how in ('read', 'pair'):
                e.oblige(st, "reading a cache yields its event and leaves it", z3.And(z3.BoolVal(same(o[2], old) and same(now, old) and not L), c1 == c0))
                if how == 'pair':
                    e.oblige(st, "the counter read with an event is that of the event", e.load(st, num, I32) == c0)
                continue
            e.oblige(st, "every event is counted once", c1 == c0 + bv(1, 32))
            if how == 'shared':
                e.oblige(st, "a shared event is cached itself", same(now, p) and not L)
            else:
                e.oblige(st, "the latest event is cached as a copy made from it", len(L) == 1 and L[0][0] == 'copy' and same(L[0][1], now) and same(L[0][2], p) and now.r != p.r)
        e.oblige(s, "an operation of a cache returns", n >= 1)

    return run


yn = lambda b, x: x if b else 'no ' + x
UNITS = [Unit(f"{'ConcurrentQueuePoller' if q else 'SafeQueuePoller'}, {'a listener fails' if f else 'listeners return'}", unit_poll(q, f)) for q in (False, True) for f in (False, True)]
UNITS += [Unit(f"EventLoopEventHandler, {'empty slot' if m else 'event'}, {'a listener fails' if f else 'listeners return'}", unit_loop_handler(f, m)) for f in (False, True) for m in (False, True)]
UNITS += [Unit(f"DataMultiplexerEventHandler, {'a listener fails' if f else 'listeners return'}", unit_mux_handler(f)) for f in (False, True)]
UNITS += [Unit(f"EventLoopSubscriber, {yn(c, 'container')}, {'a listener fails' if f else 'listeners return'}", unit_loop_sub(c, f)) for c in (False, True) for f in (False, True)]
UNITS += [Unit(f"EventLoopFunctionExecutorListener, {yn(c, 'container')}", unit_function(c)) for c in (False, True)]
UNITS += [Unit(f"EventEmitterSubscriber, register {h}, {yn(c, 'container')}, {'empty' if m else 'callback'}", unit_register(h, c, m)) for h in ('ref', 'ref once', 'sp', 'sp once') for c in (False, True) for m in (False, True)]
UNITS += [Unit(f"EventEmitterSubscriber, {'statistics' if o else 'remove'}, {yn(c, 'container')}", unit_unregister(c, o)) for o in (False, True) for c in (False, True)]
UNITS += [Unit(f"EventEmitterSubscriber, destruction, {yn(c, 'container')}", unit_unsubscribe(c)) for c in (False, True)]
UNITS += [Unit('EventForwarder', unit_forward)]
UNITS += [Unit(f"{k}CacheListener, {h}{' again' * a}", unit_cache(k, h, a)) for a in (False, True) for k in ('', 'MultiThread', 'Test') for h in ('ref', 'function', 'shared', 'read', 'pair') if (k == 'MultiThread' or h != 'pair') and (h == 'shared' or not a)]
CONFIGS = [('default', ())]
CFLAGS = ('-I', f'{VERIF}/harness/sdk', '-I', '/usr/include/concurrentqueue/moodycamel')
FL = ['-I', f'{VERIF}/harness/sdk', '-I', '/usr/include/concurrentqueue/moodycamel', '-fno-access-control']
LB = ['-lspdlog', '-lfmt', '-lpthread']
SRC = ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp']
DRIVERS = [dict(src='d19.cpp', srcs=SRC, flags=FL, libs=LB, secs=4), dict(src='d19.cpp', srcs=SRC, flags=FL, libs=LB, san=TSAN, secs=3)]
ASSUMPTIONS = ['the KlepsydraSDK classes (subscriber and publisher base classes, statistics, container, clock) are stand-ins in harness/sdk, as they are not part of the repository',
               'emitters by contract (C17): a registration is handed out under a fresh id, an emitted event reaches the listeners of the given name or fails with a listener',
               "the blocking queue by the contract of C14; moodycamel::ConcurrentQueue by contract (a third-party header, not in the repository): a dequeue yields the oldest item or reports that there is none",
               'the loop of a poller, its threads and its end are C16; what the ring buffers hand to a handler, and in which order, is C05 and C06; threads, tasks and futures have no effect here',
               'std::map and std::string by contract; std::function and std::shared_ptr are libstdc++\'s own code, and its shortcut for programs of one thread is taken to change no result',
               'names of listeners registered at the same time are distinct; copying an event does not throw and memory does not run out; listeners may throw']
BOUNDED = 'random histories of up to 40 registrations, removals, statistics and events over subscribers with two kinds of emitter, up to 4 subscribers of an event loop, pollers of both queues with their threads and up to 26 events, data multiplexers with up to 3 subscribers in threads and up to 60 events, caches read while written, against a reference'
EXPLANATION = 'every poll, every event handed to a handler, every registration, removal and destruction, with and without a container, for arbitrary events, names, times, ids and other registrations, with listeners that return or throw; the function registered with an emitter is run on an arbitrary event'
