"""C02: an object pool lends each object to one holder and always gets it back, or frees it exactly once"""
import z3
from kvc.check import *
from kvc.cands import *

HARNESS = 'c02_pool.cpp'
STK = r'^kpsr::LockFreeStack<std::unique_ptr<Obj, KD> ?>::'
one = bv(1, 8)
GH = ('del_', 'fin', 'pushes', 'init', 'news', 'pops')


def base(ctx):
    e = ctx.eng
    s = ctx.state()
    s.ghost.update({k: bv(0, 8) for k in GH}, inpool=z3.BoolVal(False), cap=bv(0), popfail=z3.BoolVal(False), gone=z3.BoolVal(False))
    J = s.new_region('J', 8)
    J.cells[0] = (8, fbv('content', 64))
    s.ghost['Jr'] = J.id
    e.cand_gens = [scalar_gen()]

    def isJ(st, p):
        return z3.BoolVal(isinstance(p, Ptr) and p.r == st.ghost['Jr'])

    def count(st, k, p):
        st.setg(k, simp(z3.If(isJ(st, p), st.g(k) + one, st.g(k))))

    def cb_delete(eng, st, I, args, fn):
        p = args[0]
        if p.r == st.ghost['Jr']:
            eng.oblige(st, "an object is freed at most once", st.g('del_') == bv(0, 8))
            eng.oblige(st, "an object inside the pool is not freed by a holder", z3.Not(st.g('inpool')))
        count(st, 'del_', p)

    def cb_fin(eng, st, I, args, fn):
        p = args[0]
        if p.r == st.ghost['Jr']:
            eng.oblige(st, "an object is finalised before it is freed", st.g('del_') == bv(0, 8))
        count(st, 'fin', p)

    def cb_init(eng, st, I, args, fn):
        eng.oblige(st, "the initialiser gets an object that was just created", args[0].r == st.ghost.get('lastnew'))
        st.setg('init', st.g('init') + one)

    def cb_new(eng, st, I, args, fn):
        st.ghost['lastnew'] = args[0].r
        st.setg('news', st.g('news') + one)

    def ctor(eng, st, I, args, fn):
        # contract proved in C01: stores the capacity and runs the initialiser once on every element
        st.ghost['cap'] = args[1]
        el = st.new_region('element', 8)
        el.cells[0] = (8, NULL)
        st.ghost['el'] = el.id
        z, n = st, st.copy()
        out = []
        for q, b in eng.branch(st, z3.And(args[1] != bv(0), z3.ULE(args[1], bv(65535)))):
            if b:
                out.append((q, 'enter', (ctx.fn('h_callinit'), [args[2], Ptr(el.id, 0)])))
            else:
                for q2, b2 in eng.branch(q, args[1] == bv(0)):
                    out.append((q2, 'val', None) if b2 else (q2, 'throw', eng.throw_new(q2, '_ZTISt12length_error')))
        return out

    def pop(eng, st, I, args, fn):
        eng.oblige(st, "the pool's own stack is used", z3.BoolVal(args[0].r == st.ghost.get('stk', args[0].r)))
        if z3.is_true(simp(st.g('gone'))):
            eng.oblige(st, "the stack is not used after it was destroyed", False)
        dst = args[1]
        st.setg('pops', st.g('pops') + one)
        outs = []

        def put(q, p):
            old = eng.load(q, dst, PT)
            if isinstance(old, Ptr) and old.r is not None:
                cb_delete(eng, q, I, [old], fn)  # move assignment frees what the destination held
            eng.store(q, dst, p, PT)

        a, b, c = st, st.copy(), st.copy()
        # (a) empty: only if the arbitrary object J is not inside either
        try:
            a.assume(z3.Not(a.g('inpool')))
            a.setg('popfail', z3.BoolVal(True))
            outs.append((a, 'val', z3.BoolVal(False)))
        except Infeasible:
            pass
        # (b) J itself
        b.assume(b.g('inpool'))
        b.setg('inpool', z3.BoolVal(False))
        put(b, Ptr(b.ghost['Jr'], 0))
        outs.append((b, 'val', z3.BoolVal(True)))
        # (c) some other object
        if c.ghost.get('others', True):
            r = c.new_region('other', 8)
            r.cells[0] = (8, fbv('content', 64))
            put(c, Ptr(r.id, 0))
            outs.append((c, 'val', z3.BoolVal(True)))
        return [x for x in outs if eng.feasible(x[0]) is not None]

    def push(eng, st, I, args, fn):
        if z3.is_true(simp(st.g('gone'))):
            eng.oblige(st, "the stack is not used after it was destroyed", False)
        p = eng.load(st, args[1], PT)
        eng.oblige(st, "what returns to the pool is an object", isinstance(p, Ptr) and p.r is not None)
        if p.r == st.ghost['Jr']:
            eng.oblige(st, "an object returns to the pool once, and not after it was freed", z3.And(z3.Not(st.g('inpool')), st.g('del_') == bv(0, 8)))
            st.setg('inpool', z3.BoolVal(True))
        count(st, 'pushes', p)
        eng.store(st, args[1], NULL, PT)  # C01: an object taken from the stack can always be put back
        return z3.BoolVal(True)

    def dtor(eng, st, I, args, fn):
        st.setg('gone', z3.BoolVal(True))
        st.setg('del_', simp(z3.If(st.g('inpool'), st.g('del_') + one, st.g('del_'))))
        st.setg('inpool', z3.BoolVal(False))

    e.contract(STK + r'LockFreeStack\(', ctor)
    e.contract(STK + r'~LockFreeStack\(', dtor)
    e.contract(r'kpsr::LockFreeStack<std::unique_ptr<Obj, KD> ?>::pop\(', pop)
    e.contract(r'kpsr::LockFreeStack<std::unique_ptr<Obj, KD> ?>::push<', push)
    for n, h in (('cb_delete', cb_delete), ('cb_fin', cb_fin), ('cb_init', cb_init), ('cb_new', cb_new)):
        e.contract(f'^{n}$', h)
    return s


class _PT:
    kind, size = 'ptr', 8


PT = _PT()


def make(ctx, s, init, fin, n=None):
    """run the real constructor; returns [(kind, state, P)]"""
    e = ctx.eng
    r = s.new_region('pool', ctx.const('c_sizeof_pool'), 'undef')
    P = Ptr(r.id, 0)
    n = fbv('n', 32) if n is None else n
    outs = e.run_fn(s, ctx.fn('h_ctor'), [P, n, z3.BoolVal(init), z3.BoolVal(fin)])
    return P, n, outs


def unit_ctor(ctx):
    e = ctx.eng
    for init in (False, True):
        s = base(ctx)
        P, n, outs = make(ctx, s, init, False)
        ok = 0
        for o in outs:
            st = o[1]
            if o[0] == 'throw':
                e.oblige(st, "only a size that cannot be indexed is refused", z3.Or(n < bv(0, 32), n > bv(65535, 32)))
                continue
            ok += 1
            e.oblige(st, "the pool has as many objects as requested", st.g('cap') == z3.SignExt(32, n))
            el = st.mem[st.ghost['el']].cells[0][1]
            nz = z3.Not(n == bv(0, 32))
            e.oblige(st, "every element is one newly created object", z3.Implies(nz, z3.And(st.g('news') == one, z3.BoolVal(isinstance(el, Ptr) and el.r is not None and el.r == st.ghost.get('lastnew')))))
            e.oblige(st, "every object is initialised exactly once", st.g('init') == z3.If(nz, bv(1 if init else 0, 8), bv(0, 8)))
            e.oblige(st, "no acquisition has failed yet", e.load(st, P.add(ctx.acc('a_fails', P).o), I64) == bv(0))
        e.oblige(s, "a pool can be created", ok > 0)


class _I32:
    kind, size, width = 'int', 4, 32


I32 = _I32()


class _I64:
    kind, size, width = 'int', 8, 64


I64 = _I64()


def ready(ctx, fin=False):
    e = ctx.eng
    s = base(ctx)
    e.suppress += 1
    P, n, outs = make(ctx, s, False, fin, bv(3, 32))
    e.suppress -= 1
    (_, st, _), = [o for o in outs if o[0] == 'ret']
    for k in GH:
        st.setg(k, bv(0, 8))
    st.ghost['stk'] = e.load(st, P.add(ctx.acc('a_stack', P).o), PT).r
    return st, P


def acquire(ctx, s, P):
    h = s.new_region('handle', ctx.const('c_sizeof_handle'), 'undef')
    return Ptr(h.id, 0), ctx.eng.run_fn(s, ctx.fn('h_acquire'), [P, Ptr(h.id, 0)])


class UseHook:
    """reference count of the pool: others hold it too; their number may change before every atomic access
    (libstdc++ makes plain accesses only while the process has a single thread)"""

    def cur(self, s, order):
        if order in ('na', None):
            return s.g('own')
        o = fbv('others', 32)
        s.assume(z3.ULT(o, bv(1 << 20, 32)))
        return s.g('own') + o

    def load(self, eng, s, p, ty, order):
        return self.cur(s, order)

    def store(self, eng, s, p, v, ty, order):
        s.setg('own', v)

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        c = self.cur(s, 'atomic')
        bad = s.copy()
        s.assume(e == c)
        s.setg('own', s.g('own') + n - e)
        return [(s, 'val', Agg([c, z3.BoolVal(True)])), (bad, 'val', Agg([c, z3.BoolVal(False)]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        c = self.cur(s, order)
        s.setg('own', {'add': s.g('own') + v, 'sub': s.g('own') - v}[op])
        return c


class FailsHook:
    """the failure counter: other threads may count their own failures at any time"""

    def env(self, s):
        v = fbv('others', 64)
        s.setg('fails', s.g('fails') + v)

    def load(self, eng, s, p, ty, order):
        self.env(s)
        return s.g('fails')

    def store(self, eng, s, p, v, ty, order):
        self.env(s)
        eng.oblige(s, "a failure counted by another thread at the same time is not lost", v == s.g('fails') + bv(1))
        s.setg('mine', s.g('mine') + bv(1, 8))
        s.setg('fails', v)

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        self.env(s)
        bad = s.copy()
        s.assume(e == s.g('fails'))
        eng.oblige(s, "a failed acquisition counts one", n == e + bv(1))
        s.setg('fails', n)
        s.setg('mine', s.g('mine') + bv(1, 8))
        return [(s, 'val', Agg([e, z3.BoolVal(True)])), (bad, 'val', Agg([bad.g('fails'), z3.BoolVal(False)]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        self.env(s)
        old = s.g('fails')
        eng.oblige(s, "a failed acquisition counts one", {'add': v == bv(1), 'sub': v == bv(-1)}.get(op, z3.BoolVal(False)))
        s.setg('fails', old + bv(1))
        s.setg('mine', s.g('mine') + bv(1, 8))
        return old


def unit_acquire(ctx):
    e = ctx.eng
    s, P = ready(ctx)
    s.setg('inpool', fbv('inpool', 1))
    s.ghost.update(fails=fbv('fails0', 64), mine=bv(0, 8))
    s.wreg(P.r).hooks = {ctx.acc('a_fails', P).o: FailsHook()}
    ctx.cover('precondition', s)
    H, outs = acquire(ctx, s, P)
    for o in outs:
        st = o[1]
        if o[0] == 'throw':
            e.oblige(st, "acquire throws out_of_range", o[2][1] == '_ZTISt12out_of_range')
            e.oblige(st, "acquire throws only when the pool is empty", st.g('popfail'))
            e.oblige(st, "a failed acquisition is counted", st.g('mine') == one)
            e.oblige(st, "a failed acquisition moves nothing", z3.And(st.g('pushes') == bv(0, 8), st.g('del_') == bv(0, 8)))
            continue
        e.oblige(st, "acquire succeeds only with an object from the pool", z3.And(z3.Not(st.g('popfail')), st.g('pops') == one))
        e.oblige(st, "a successful acquisition is not counted as failed", st.g('mine') == bv(0, 8))
        e.oblige(st, "an acquired object is neither freed nor still inside the pool", z3.And(st.g('del_') == bv(0, 8), st.g('pushes') == bv(0, 8)))
        (k, st2, v), = e.run_fn(st.copy(), ctx.fn('h_get'), [H])
        took = isinstance(v, Ptr) and v.r is not None
        e.oblige(st, "the handle refers to the object taken from the pool", took)


def unit_cycle(how):
    """acquire J, then give it up: (alive) back to the pool once; (destroyed) freed once; (moved) handle moved first"""

    def run(ctx):
        e = ctx.eng
        s, P = ready(ctx, fin=True)
        s.setg('inpool', z3.BoolVal(True))
        s.ghost['others'] = False
        H0, outs = acquire(ctx, s, P)
        outs = [o[1] for o in outs if o[0] == 'ret']
        e.oblige(s, "acquire can succeed", len(outs) >= 1)
        todo = []
        for st in outs:
            if 'move' not in how:
                todo.append((st, H0))
                continue
            h2 = st.new_region('handle2', ctx.const('c_sizeof_handle'), 'undef')
            for o in e.run_fn(st, ctx.fn('h_move'), [H0, Ptr(h2.id, 0)]):
                for o2 in e.run_fn(o[1], ctx.fn('h_release'), [H0]) if o[0] == 'ret' else []:
                    e.oblige(o2[1], "a moved-from handle gives nothing back", z3.And(o2[1].g('pushes') == bv(0, 8), o2[1].g('del_') == bv(0, 8)) if o2[0] == 'ret' else False)
                    if o2[0] == 'ret':
                        todo.append((o2[1], Ptr(h2.id, 0)))
        e.oblige(s, "the handle can be moved", len(todo) >= 1)
        for st, H in todo:
            if 'dead' in how:
                ds = e.run_fn(st, ctx.fn('h_dtor'), [P])
                e.oblige(st, "destroying the pool returns", len([d for d in ds if d[0] == 'ret']) >= 1)
                sts = [d[1] for d in ds if d[0] == 'ret']
                for q in sts:
                    e.oblige(q, "destroying the pool does not touch an object that is out", z3.And(q.g('del_') == bv(0, 8), q.g('fin') == bv(0, 8), q.g('pushes') == bv(0, 8)))
                    w = q.wreg(P.r)
                    w.alive = False
            else:
                # any number of other threads may be giving objects up to the same pool: they hold the pool reference too
                cb = e.load(st, P.add(ctx.acc('a_this', P).o + 8), PT)
                st.ghost['own'] = e.load(st, cb.add(8), I32)
                st.wreg(cb.r).hooks = {cb.add(8).o: UseHook()}
                st.model = None
                sts = [st]
            for q in sts:
                rel = 'h_reset' if 'reset' in how else 'h_release'
                for r in e.run_fn(q, ctx.fn(rel), [H]):
                    t = r[1]
                    if r[0] != 'ret':
                        e.oblige(t, "giving an object up never throws", False)
                        continue
                    if 'dead' in how:
                        e.oblige(t, "an object that outlives its pool is freed exactly once", z3.And(t.g('del_') == one, t.g('pushes') == bv(0, 8)))
                    else:
                        e.oblige(t, "an object given up returns to its pool exactly once and is not freed", z3.And(t.g('pushes') == one, t.g('del_') == bv(0, 8), t.g('inpool')))
                    for x in e.run_fn(t.copy(), ctx.fn('h_release'), [H]) if 'reset' in how else []:
                        e.oblige(x[1], "an object given up is not given back again", z3.And(x[1].g('pushes') + x[1].g('del_') == one))

    return run


def unit_dtor(fin):
    def run(ctx):
        e = ctx.eng
        s, P = ready(ctx, fin=fin)
        s.setg('inpool', z3.BoolVal(True))
        ctx.cover('precondition', s)

        def gen(eng, entry, hs, M, header):
            out = []
            for k in GH:
                if ('g', k) in M:
                    out.append(Cand(f"{k}==0", lambda st, k=k: st.ghost[k] == bv(0, 8)))
            w = lambda st: z3.If(st.ghost['inpool'], bv(0, 8), one)
            out.append(Cand("finalised once it left", lambda st: st.ghost['fin'] == (w(st) if fin else bv(0, 8))))
            out.append(Cand("freed once it left", lambda st: st.ghost['del_'] == w(st)))
            out.append(Cand("nothing pushed", lambda st: st.ghost['pushes'] == bv(0, 8)))
            out.append(Cand("not gone", lambda st: z3.Not(st.ghost['gone'])))
            return out

        e.cand_gens = [scalar_gen(), gen]
        for o in e.run_fn(s, ctx.fn('h_dtor'), [P]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "destruction never throws", False)
                continue
            e.oblige(st, "every object in the pool is freed exactly once", st.g('del_') == one)
            e.oblige(st, "every object in the pool is finalised exactly once" if fin else "no finaliser is called when none was given", st.g('fin') == bv(1 if fin else 0, 8))
            e.oblige(st, "the pool's storage is released", st.g('gone'))

    return run


UNITS = [Unit('constructor', unit_ctor), Unit('acquire', unit_acquire)] + [Unit('give up: ' + h, unit_cycle(h)) for h in ('alive', 'alive reset', 'alive move', 'dead', 'dead reset', 'dead move')] + \
        [Unit('destructor with finaliser', unit_dtor(True)), Unit('destructor without finaliser', unit_dtor(False))]
L = ['-lspdlog', '-lfmt', '-lpthread', '-latomic']
DRIVERS = [dict(src='d02.cpp', secs=4, libs=L), dict(src='d02.cpp', secs=3, libs=L, san=TSAN)]
ASSUMPTIONS = ['the lock free stack obeys its contract (proved by C01): pop takes one element or reports an empty stack, push of an element taken from it succeeds, the constructor initialises every element once',
               'a pool is destroyed by one thread while no other thread is inside acquire() or giving an object up',
               'allocation never fails; T\'s constructor, the initialiser and the finaliser do not throw', 'log output is dropped (spdlog shim)',
               'std::shared_ptr/weak_ptr/unique_ptr/function are executed from their libstdc++ source, single-threaded and multi-threaded variants of the reference count']
BOUNDED = 'random single-threaded histories (handles moved, reset, turned into shared_ptr, outliving the pool) on pools of 0..6 objects; 2..5 threads acquiring and giving up, also under ThreadSanitizer'
EXPLANATION = 'constructor, acquire, giving up (alive and after destruction), move of handles and destructor, for an arbitrary object of a pool of any size'
