"""C16: a queue poller polls from start until stop, in one thread"""
import re
import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import PT, I64, I32, I8, Stl

HARNESS = 'c16_poller.cpp'
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
RATIO = {'std::ratio<1l, 1000000l>': 1, 'std::ratio<1l, 1000l>': 10**3, 'std::ratio<1l, 1l>': 10**6}  # in microseconds


class Pol:
    """threads and tasks by contract.  A task holds what it will call; a thread runs the task it is given, at any time.
    The steps of the other side are those of the real code: the loop is entered by running it, stop is run up to where it waits."""

    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = Stl(ctx, s)
        self.calls = {}  # task or thread number -> (function, arguments)
        self.mode = None
        c = e.contract
        c(r'^std::packaged_task<void \(\)>::packaged_task(<.*>)?\(', self.t_ctor)
        c(r'^std::packaged_task<void \(\)>::operator=\(', self.t_move)
        c(r'^std::packaged_task<void \(\)>::swap\(', self.t_swap)
        c(r'^std::packaged_task<void \(\)>::(~packaged_task|get_future)\(', lambda eng, st, I, a, fn: [(st, 'val', None)])
        c(r'^std::packaged_task<void \(\)>::reset\(', self.t_reset)
        c(r'^std::packaged_task<void \(\)>::valid\(', lambda eng, st, I, a, fn: eng.load(st, a[0], I64) != bv(0))
        c(r'^std::future<void>::', lambda eng, st, I, a, fn: [(st, 'val', a[0])] if 'operator=' in fn.dem else [(st, 'val', None)])
        c(r'^std::thread::thread<', self.th_new)
        c(r'^std::thread::thread\(std::thread&&\)|^std::thread::operator=\(std::thread&&\)', self.th_move)
        c(r'^std::thread::thread\(\)', self.th_none)
        c(r'^std::thread::~thread\(', self.th_del)
        c(r'^std::thread::joinable\(', lambda eng, st, I, a, fn: [(st, 'val', eng.load(st, a[0], I64) != bv(0))])
        c(r'^std::thread::join\(', self.th_join)
        c(r'^std::thread::detach\(', self.th_detach)
        c(r'std::this_thread::sleep_for<', self.sleep)
        c(r'^std::this_thread::yield|^sched_yield$', self.pause)
        c(r'^kv_take$', self.take)
        s.ghost.update(nthreads=0, live=(), begun=F_, stopped=F_, slept=bv(0), joined=())
        e.cand_gens = [scalar_gen(), self.gen]

    def gen(self, eng, entry, hs, M, header):
        out = []
        bs = [k[1] for k in M if k[0] == 'g' and z3.is_bool(hs.ghost.get(k[1]))]
        for nm, g, w in loop_vars(eng, entry, hs, M):
            if w == 8:
                for b in bs:
                    for v in (0, 1):
                        for neg in (False, True):
                            out.append(Cand(f'{b} {neg} {nm} {v}', lambda st, b=b, v=v, g=g, neg=neg: z3.Implies(z3.Not(st.ghost[b]) if neg else st.ghost[b], g(st) == bv(v, 8))))
            if w == 64 and 'slept' not in nm:
                out.append(Cand(f'{nm} counts the sleep', lambda st, g=g: z3.And(g(st) == st.ghost['slept'], g(st) <= self.limit(st) + bv(100))))
            if w == 32:
                out.append(Cand(f'{nm} counts the sleep', lambda st, g=g: z3.And(z3.SignExt(32, g(st)) == st.ghost['slept'], g(st) >= bv(0, 32))))
                out.append(Cand(f'{nm} is below the limit', lambda st, g=g: z3.SignExt(32, g(st)) <= self.limit(st) + bv(100)))
        return out

    def limit(self, st):
        return self.e.load(st, self.ctx.acc('a_timeout', self.P), I64)

    # ---- tasks
    def callable(self, st, fn, p, a2=None):
        """what a std::bind object or a lambda at p calls"""
        e = self.e
        m = re.search(r'[<\s]([^<>\s]*::(?:\{lambda\(\)#\d+\}|\$_\d+))', fn.dem)
        if m:
            op = [f for f in self.ctx.mod.funcs.values() if f.dem.startswith(m.group(1) + '::operator()()')]
            if len(op) == 1:
                q = Ptr(st.new_region('closure', 8).id, 0)
                e.store(st, q, e.load(st, p, PT), PT)  # a closure that captures this and no more
                return Ptr(('fn', op[0].name), 0), q, None
        if '_Bind<' in fn.dem or 'thread<void (' in fn.dem and a2 is not None:
            f, obj = e.load(st, p, PT), e.load(st, a2 or p.add(16), PT)
            if not isinstance(f.r, tuple):
                raise Unsupported('bound to ' + str(f))
            return f, obj, None
        raise Unsupported('task of ' + fn.dem[:120])

    def t_ctor(self, eng, st, I, a, fn):
        if fn.dem.endswith('packaged_task()'):
            eng.store(st, a[0], bv(0), I64)
        elif 'packaged_task(std::packaged_task<void ()>&&)' in fn.dem:
            eng.store(st, a[0], eng.load(st, a[1], I64), I64)
            eng.store(st, a[1], bv(0), I64)
        else:
            n = len(self.calls) + 1
            self.calls[n] = self.callable(st, fn, a[1])
            eng.store(st, a[0], bv(n), I64)
        return [(st, 'val', None)]

    def t_move(self, eng, st, I, a, fn):
        v = eng.load(st, a[1], I64)
        eng.store(st, a[1], bv(0), I64)
        eng.store(st, a[0], v, I64)
        return [(st, 'val', a[0])]

    def t_reset(self, eng, st, I, a, fn):
        eng.oblige(st, "only a task that was not given away is made anew", eng.load(st, a[0], I64) != bv(0))
        return [(st, 'val', None)]

    def t_swap(self, eng, st, I, a, fn):
        x, y = eng.load(st, a[0], I64), eng.load(st, a[1], I64)
        eng.store(st, a[0], y, I64)
        eng.store(st, a[1], x, I64)
        return [(st, 'val', None)]

    # ---- threads
    def th_none(self, eng, st, I, a, fn):
        eng.store(st, a[0], bv(0), I64)
        return [(st, 'val', None)]

    def th_new(self, eng, st, I, a, fn):
        if 'packaged_task<void ()>&&' in fn.dem:
            t = cval(eng.load(st, a[1], I64))
            eng.store(st, a[1], bv(0), I64)
            if t is None:
                raise Unsupported('a task that depends on the input')
            eng.oblige(st, "a thread is given a task that was not given away before", z3.BoolVal(t != 0))
            if t == 0:
                raise Infeasible()
            call = self.calls[t]
        else:
            call = self.callable(st, fn, a[1], a[2] if len(a) > 2 else None)
        n = 1000 + len(self.calls)
        self.calls[n] = call
        eng.store(st, a[0], bv(n), I64)
        st.ghost['nthreads'] += 1
        st.ghost['live'] += (n,)
        eng.oblige(st, "one poller has at most one thread", z3.BoolVal(len(st.ghost['live']) == 1))
        st.setg('begun', F_)
        return self.pause(eng, st, I, a, fn)

    def th_move(self, eng, st, I, a, fn):
        asg = 'operator=' in fn.dem
        if asg:
            eng.oblige(st, "a thread that runs is not overwritten", eng.load(st, a[0], I64) == bv(0))
        v = eng.load(st, a[1], I64)
        eng.store(st, a[1], bv(0), I64)
        eng.store(st, a[0], v, I64)
        return [(st, 'val', a[0] if asg else None)]

    def th_del(self, eng, st, I, a, fn):
        eng.oblige(st, "a thread is joined before it is destroyed", eng.load(st, a[0], I64) == bv(0))
        return [(st, 'val', None)]

    def th_detach(self, eng, st, I, a, fn):
        eng.store(st, a[0], bv(0), I64)
        return [(st, 'val', None)]

    def run(self, st, n, mode):
        """the thread runs from its beginning"""
        f, obj, _ = self.calls[n]
        fd = self.ctx.mod.funcs[f.r[1]]
        old, self.mode = self.mode, mode
        try:
            return self.e.run_fn(st, fd, [obj])
        finally:
            self.mode = old

    def th_join(self, eng, st, I, a, fn):
        v = cval(eng.load(st, a[0], I64))
        if v is None:
            raise Unsupported('joining a thread that depends on the input')
        eng.oblige(st, "only a thread that runs is joined", z3.BoolVal(v != 0))
        if v == 0:
            raise Infeasible()
        if self.mode == 'asked to stop':
            return [(st, 'stop', 'join')]
        # the thread is in its loop (and leaves it, see the contract of the loop), or begins only now
        res = []
        now = st.copy()
        now.assume(z3.Not(now.g('begun')))
        if eng.feasible(now) is not None:
            n0 = len(now.frames)
            out = self.run(now, v, 'late')
            eng.oblige(st, "a loop that begins only after it was told to stop ends at once", z3.Or(st.g('begun'), z3.BoolVal(any(o[0] == 'ret' for o in out))))
            for o in out:
                if o[0] == 'ret':
                    res.append(o[1])
                else:
                    eng.oblige(o[1], "a loop that begins only after it was told to stop takes no event", False)
        st.assume(st.g('begun'))
        if eng.feasible(st) is not None:
            res.append(st)
        for q in res:
            q.ghost['live'] = tuple(x for x in q.ghost['live'] if x != v)
            q.ghost['joined'] = q.ghost['joined'] + (v,)
            eng.store(q, a[0], bv(0), I64)
        return [(q, 'val', None) for q in res]

    def pause(self, eng, st, I, a, fn):
        """the caller does something else: the thread may have begun"""
        if self.mode is not None or not st.ghost['live']:
            return [(st, 'val', None)]
        n = st.ghost['live'][-1]
        b = st.copy()
        b.assume(z3.Not(b.g('begun')))
        res = [(st, 'val', None)]
        if eng.feasible(b) is not None:
            d = len(b.frames)
            for o in self.run(b, n, 'begin'):
                q = o[1]
                if o[0] != 'stop':
                    continue
                while len(q.frames) > d:
                    eng.pop_frame(q)
                q.setg('begun', T_)
                res.append((q, 'val', None))
        return res

    def sleep(self, eng, st, I, a, fn):
        m = re.search(r'sleep_for<long, (std::ratio<[^>]*>)', fn.dem)
        k = RATIO.get(m.group(1)) if m else None
        if k is None:
            raise Unsupported('sleep unit')
        st.setg('slept', st.g('slept') + eng.load(st, a[0], I64) * bv(k))
        return self.pause(eng, st, I, a, fn)

    # ---- the loop takes an event
    def take(self, eng, st, I, a, fn):
        if self.mode == 'begin':
            return [(st, 'stop', 'taking')]
        if self.mode == 'late':
            return [(st, 'stop', 'taking')]
        eng.oblige(st, "no event is taken after stop was asked for", z3.Not(st.g('stopped')))
        eng.oblige(st, "the poller says it is running while it polls", eng.load(st, self.ctx.acc('a_running', self.P), I8) != bv(0, 8))
        eng.oblige(st, "the poller takes its own events", z3.BoolVal(a[0].r == self.P.r))
        st.setg('taken', T_)
        res = [(st, 'val', None)]
        w = st.copy()
        d = len(w.frames)
        old, self.mode = self.mode, 'asked to stop'
        try:
            for o in eng.run_fn(w, self.ctx.fn('h_stop'), [self.P]):
                q = o[1]
                if o[0] != 'stop':
                    eng.oblige(q, "stop waits for the thread that polls", False)
                    continue
                while len(q.frames) > d:
                    eng.pop_frame(q)
                q.setg('stopped', T_)
                res.append((q, 'val', None))
        finally:
            self.mode = old
        return res

    # ---- objects
    def new(self):
        s, ctx, S = self.s, self.ctx, self.S
        r = s.new_region('poller', ctx.const('c_sizeof_p'), 'undef')
        self.P = P = Ptr(r.id, 0)
        nm = Ptr(s.new_region('name', 32).id, 0)
        self.name = S.fresh_id(s)
        S.sset(s, nm, self.name)
        self.sl, self.to = fbv('SLEEP', 32), fbv('TIMEOUT', 64)
        s.assume(self.to >= bv(0), self.to <= bv(2000000))
        return [o for o in self.e.run_fn(s, ctx.fn('h_new'), [P, nm, self.sl, self.to])]

    def flag(self, st, acc):
        return self.e.load(st, self.ctx.acc(acc, self.P), I8) != bv(0, 8)

    def stopped(self, st, what):
        e, c = self.e, self.ctx
        e.oblige(st, f"{what}: the poller is not running", z3.Not(self.flag(st, 'a_running')))
        e.oblige(st, f"{what}: no thread of the poller is left", z3.And(z3.BoolVal(not st.ghost['live']), e.load(st, c.acc('a_thread', self.P), I64) == bv(0)))
        e.oblige(st, f"{what}: the poller can be started", z3.Not(self.flag(st, 'a_started')))

    def start(self, st):
        return self.e.run_fn(st, self.ctx.fn('h_start'), [self.P])


def fresh_poller(ctx):
    M = Pol(ctx)
    o = M.new()
    M.e.oblige(M.s, "a poller can be made", z3.BoolVal(len(o) == 1 and o[0][0] == 'ret'))
    return M, o[0][1]


def unit_ctor(ctx):
    M, s = fresh_poller(ctx)
    M.stopped(s, "a new poller")
    e, c = M.e, ctx
    e.oblige(s, "the time-out is kept", e.load(s, c.acc('a_timeout', M.P), I64) == M.to * bv(1000))
    e.oblige(s, "the name and the pause are kept", z3.And(M.S.sget(s, c.acc('a_name', M.P)) == M.name, e.load(s, c.acc('a_sleep', M.P), I32) == M.sl))
    ctx.cover('any time-out', s)


def running(ctx, M, s):
    """states in which start has returned"""
    return [o[1] for o in M.start(s) if o[0] == 'ret'], None


def unit_start(ctx):
    M, s = fresh_poller(ctx)
    e = M.e
    ctx.cover('a short time-out', s, M.to == bv(0))
    n = 0
    for o in M.start(s.copy()):
        st = o[1]
        e.oblige(st, "start makes exactly one thread", z3.BoolVal(st.ghost['nthreads'] == 1 and len(st.ghost['live']) == 1))
        if o[0] == 'ret':
            n += 1
            e.oblige(st, "start returns only when the poller is running", M.flag(st, 'a_running'))
            e.oblige(st, "start returns only when the loop has begun", st.g('begun'))
            # again
            for o2 in M.start(st.copy()):
                q = o2[1]
                e.oblige(q, "starting a running poller does nothing", z3.And(z3.BoolVal(o2[0] == 'ret' and q.ghost['nthreads'] == 1), M.flag(q, 'a_running')))
        else:
            e.oblige(st, "start gives up only after its time-out", st.g('slept') >= M.to * bv(1000))
            for o2 in M.start(st.copy()):
                e.oblige(o2[1], "starting once more before stop makes no thread", z3.BoolVal(o2[1].ghost['nthreads'] == 1))
    e.oblige(s, "start can succeed", n > 0)


def unit_stop(ctx):
    M, s = fresh_poller(ctx)
    e = M.e
    for o in e.run_fn(s.copy(), ctx.fn('h_stop'), [M.P]):
        e.oblige(o[1], "stopping a poller that was not started does nothing", z3.BoolVal(o[0] == 'ret' and o[1].ghost['nthreads'] == 0))
        M.stopped(o[1], "stop before start")
    n = 0
    for o in M.start(s.copy()):
        what = 'stop' if o[0] == 'ret' else 'stop after a failed start'
        for q in e.run_fn(o[1].copy(), ctx.fn('h_stop'), [M.P]):
            n += 1
            e.oblige(q[1], f"{what} completes", z3.BoolVal(q[0] == 'ret'))
            M.stopped(q[1], what)
            if o[0] == 'ret':
                k = 0
                for r in M.start(q[1].copy()):
                    if r[0] == 'ret':
                        k += 1
                        e.oblige(r[1], "a stopped poller can be started again", z3.And(z3.BoolVal(len(r[1].ghost['live']) == 1 and r[1].ghost['nthreads'] == 2), M.flag(r[1], 'a_running')))
                        for d in e.run_fn(r[1], ctx.fn('h_del'), [M.P]):
                            e.oblige(d[1], "destroying leaves no thread", z3.BoolVal(d[0] == 'ret' and not d[1].ghost['live']))
                e.oblige(q[1], "a stopped poller can be started again", k > 0)
        for q in e.run_fn(o[1].copy(), ctx.fn('h_del'), [M.P]):
            e.oblige(q[1], "destroying leaves no thread", z3.BoolVal(q[0] == 'ret' and not q[1].ghost['live']))
    e.oblige(s, "a started poller can be stopped", n > 0)


def unit_loop(ctx):
    M, s = fresh_poller(ctx)
    e = M.e
    n = 0
    M.mode = 'spawn'
    outs = [o for o in M.start(s.copy())]
    M.mode = None
    # the thread, from its beginning: start may have given up by now
    seen = set()
    for o in outs:
        st = o[1]
        if len(st.ghost['live']) != 1 or o[0] in seen:
            continue
        seen.add(o[0])
        v = st.ghost['live'][0]
        for mode in ('before', 'after'):
            q = st.copy()
            q.setg('taken', F_)
            if mode == 'after':
                M.mode = 'asked to stop'
                r = e.run_fn(q, ctx.fn('h_stop'), [M.P])
                M.mode = None
                d = len(st.frames)
                q = [x[1] for x in r if x[0] == 'stop']
                e.oblige(st, "stop waits for the thread", z3.BoolVal(len(q) == 1))
                if not q:
                    continue
                q = q[0]
                while len(q.frames) > d:
                    e.pop_frame(q)
                q.setg('stopped', T_)
            for x in M.run(q, v, None):
                n += 1
                e.oblige(x[1], "the loop ends only when stop was asked for", z3.And(z3.BoolVal(x[0] == 'ret'), x[1].g('stopped')))
                ctx.cover(f'the loop ends, told {mode} it began', x[1])
    e.oblige(s, "the loop can end", n > 0)


UNITS = [Unit('making a poller', unit_ctor), Unit('start', unit_start), Unit('stop', unit_stop), Unit('the loop', unit_loop)]
L = ['-lspdlog', '-lfmt', '-ldl']
SRC = ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp']
DRIVERS = [dict(src='d16.cpp', srcs=SRC, libs=L, secs=4), dict(src='d16.cpp', srcs=SRC, libs=L, san=TSAN, secs=3)]
ASSUMPTIONS = ['std::thread, std::packaged_task, std::future and sleeping by contract: a new thread runs its task once, beginning at any later point of its owner (tried at every place where the owner sleeps, yields or joins) and making its own steps in between',
               'creating a thread does not fail; one owner starts, stops and destroys a poller; a derived poller is stopped before it is destroyed',
               'taking one event returns (the time it may take is the queue\'s: C14); start-up time-outs up to 2000 s (microseconds are counted in an int)',
               'stop is told at any moment while the loop takes events: everything stop does up to where it waits happens between two events']
BOUNDED = 'real threads: random cycles of start, stop, restart and destruction, threads that begin up to 8 ms late (pthread_create interposed), time-outs of 0 to 3 ms'
EXPLANATION = 'start, stop, destructor and polling loop for every time-out and every moment at which the thread begins or is told to stop'
