"""C14: the blocking queue hands every item over once, in order, within its limit, and loses no wake-up"""
import z3
from kvc.check import *
from kvc.cands import *

HARNESS = 'c14_queue.cpp'
SQ = r'(^|[ )])std::queue<long, [^()]*>::'
BIG = 1 << 40
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


class _T:
    def __init__(self, kind, size):
        self.kind, self.size, self.width = kind, size, 8 * size


I32, I64 = _T('int', 4), _T('int', 8)


def C(st, r):
    return z3.Function(st.ghost['F@' + r], BV64, BV64)


class Model:
    """ghost state of a queue object: H (next item to hand over), T (next index to fill), contents as a function of the index"""

    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        s.ghost.update(objs=(), now=bv(0), start=bv(0), started=F_, deadline=bv(0), waited=F_)
        for rx, h in ((SQ + r'(push|emplace<[^()]*>)\(', self.q_push), (SQ + r'pop\(\)', self.q_pop), (SQ + r'front\(\)', self.q_front), (SQ + r'back\(\)', self.q_back), (SQ + r'size\(\) const', self.q_size),
                      (SQ + r'empty\(\) const', self.q_empty), (SQ + r'swap\(', self.q_swap), (SQ + r'operator=\([^()]* const&\)', self.q_copy), (SQ + r'operator=\([^()]*&&\)', self.q_move),
                      (SQ + r'queue\([^()]* const&\)', self.q_copyc), (SQ + r'queue\([^()]*&&\)', self.q_movec), (SQ + r'queue<[^()]*>\(\)', self.q_new), (SQ + r'queue\(\)', self.q_new), (SQ + r'~queue\(\)', self.q_del),
                      (r'^(std::mutex::lock\(|pthread_mutex_lock$)', self.lock), (r'^(std::mutex::unlock\(|pthread_mutex_unlock$)', self.unlock), (r'^std::mutex::(try_lock\(|~?mutex)', None),
                      (r'(^|[ ])std::lock<std::unique_lock<std::mutex>, std::unique_lock<std::mutex> ?>\(', self.lock2('h_lock2u')), (r'(^|[ ])std::lock<std::mutex, std::mutex ?>\(', self.lock2('h_lock2m')),
                      (r'^std::(_V2::)?condition_variable::wait\(std::unique_lock<std::mutex>&\)', self.wait), (r'std::(_V2::)?condition_variable::__wait_until_impl<', self.wait_until),
                      (r'^std::(_V2::)?condition_variable::notify_(one|all)\(\)', self.notify), (r'^std::(_V2::)?condition_variable::~?condition_variable\(', lambda *a: [(a[1], 'val', None)]),
                      (r'clock::now\(\)', self.clock)):
            if h is not None:
                e.contract(rx, h)
        e.cand_gens = [scalar_gen(), self.gen]

    # ---- objects
    def obj(self, name, n=None, own=False):
        s, ctx = self.s, self.ctx
        r = s.new_region(name, ctx.const('c_sizeof_q'), 'undef')
        P = Ptr(r.id, 0)
        s.ghost['objs'] += (r.id,)
        k = r.id
        s.ghost.update({'held@' + k: F_, 'own@' + k: z3.BoolVal(own), 'ne@' + k: bv(0, 8), 'nf@' + k: bv(0, 8), 'F@' + k: 'C' + name})
        self.interfere(s, k)
        if not own:
            self.e.store(s, P.add(ctx.acc('a_max', P).o), fbv('max', 32), I32)
            self.snap(s, k)
        return P

    def interfere(self, st, k):
        H, T = fbv('H', 64), fbv('T', 64)
        st.assume(z3.ULE(H, T), z3.ULE(T - H, bv(BIG)), z3.ULE(T, bv(1 << 61)))
        st.setg('H@' + k, H)
        st.setg('T@' + k, T)

    def snap(self, st, k):
        for x in 'HT':
            st.setg(x + '0@' + k, st.g(x + '@' + k))
        P = Ptr(k, 0)
        st.setg('max0@' + k, self.e.load(st, P.add(self.ctx.acc('a_max', P).o), I32))

    def max(self, st, k):
        P = Ptr(k, 0)
        return self.e.load(st, P.add(self.ctx.acc('a_max', P).o), I32)

    def at(self, st, p, acc):
        return p.r in st.ghost['objs'] and oz(p.o).eq(oz(self.ctx.acc(acc, Ptr(p.r, 0)).o))

    def key(self, st, p):
        """ghost key of the queue at p; a local queue is private to the verified thread"""
        if p.r in st.ghost['objs']:
            self.e.oblige(st, "the items are touched only holding the queue's lock", z3.Or(st.g('held@' + p.r), st.g('own@' + p.r)))
        elif 'F@' + p.r not in st.ghost:
            raise Unsupported('a queue of unknown origin')
        return p.r

    def put(self, st, k, src=None):
        st.ghost['F@' + k] = st.ghost['F@' + src] if src else 'C' + k
        st.setg('H@' + k, st.g('H@' + src) if src else bv(0))
        st.setg('T@' + k, st.g('T@' + src) if src else bv(0))

    # ---- std::queue
    def q_new(self, eng, st, I, a, f):
        if a[0].r not in st.ghost['objs']:
            pass
        self.put(st, a[0].r)
        return [(st, 'val', None)]

    def q_del(self, eng, st, I, a, f):
        return [(st, 'val', None)]

    def q_copyc(self, eng, st, I, a, f):
        src = self.key(st, a[1])
        self.put(st, a[0].r, src)
        return [(st, 'val', None)]

    def q_movec(self, eng, st, I, a, f):
        src = self.key(st, a[1])
        self.put(st, a[0].r, src)
        st.setg('H@' + src, st.g('T@' + src))
        return [(st, 'val', None)]

    def q_copy(self, eng, st, I, a, f):
        d, src = self.key(st, a[0]), self.key(st, a[1])
        if d != src:
            self.put(st, d, src)
        return a[0]

    def q_move(self, eng, st, I, a, f):
        d, src = self.key(st, a[0]), self.key(st, a[1])
        if d == src:
            eng.oblige(st, "a queue is not moved onto itself", False)
        self.put(st, d, src)
        st.setg('H@' + src, st.g('T@' + src))
        return a[0]

    def q_swap(self, eng, st, I, a, f):
        x, y = self.key(st, a[0]), self.key(st, a[1])
        for w in 'HT':
            p, q = st.g(f'{w}@{x}'), st.g(f'{w}@{y}')
            st.setg(f'{w}@{x}', q)
            st.setg(f'{w}@{y}', p)
        st.ghost['F@' + x], st.ghost['F@' + y] = st.ghost['F@' + y], st.ghost['F@' + x]
        return [(st, 'val', None)]

    def q_push(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        v = eng.load(st, a[1], I64)
        st.assume(C(st, k)(st.g('T@' + k)) == v)
        st.setg('T@' + k, simp(st.g('T@' + k) + bv(1)))
        return [(st, 'val', None)]

    def nonempty(self, st, k, what):
        self.e.oblige(st, f"{what} of an empty queue is never attempted", st.g('H@' + k) != st.g('T@' + k))

    def q_pop(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        self.nonempty(st, k, 'removal')
        st.setg('H@' + k, simp(st.g('H@' + k) + bv(1)))
        return [(st, 'val', None)]

    def item(self, st, v):
        r = st.new_region('item', 8)
        r.cells[0] = (8, v)
        return Ptr(r.id, 0)

    def q_front(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        self.nonempty(st, k, 'the front')
        return self.item(st, C(st, k)(st.g('H@' + k)))

    def q_back(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        self.nonempty(st, k, 'the back')
        return self.item(st, C(st, k)(st.g('T@' + k) - bv(1)))

    def q_size(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        return simp(st.g('T@' + k) - st.g('H@' + k))

    def q_empty(self, eng, st, I, a, f):
        k = self.key(st, a[0])
        return simp(st.g('T@' + k) == st.g('H@' + k))

    # ---- synchronisation
    def acquired(self, st, k):
        self.interfere(st, k)
        P = Ptr(k, 0)
        self.e.store(st, P.add(self.ctx.acc('a_max', P).o), fbv('max', 32), I32)
        self.snap(st, k)

    def lock(self, eng, st, I, a, f):
        p = a[0]
        if not self.at(st, p, 'a_mutex'):
            raise Unsupported('a mutex that is not the queue\'s')
        eng.oblige(st, "a lock that is held is not taken again", z3.Not(st.g('held@' + p.r)))
        if not st.ghost.get('both'):
            for k in st.ghost['objs']:
                if k != p.r:
                    eng.oblige(st, "two locks are taken together, so that no two threads wait for each other", z3.Not(st.g('held@' + k)))
        st.setg('held@' + p.r, T_)
        if not z3.is_true(st.g('own@' + p.r)):
            self.acquired(st, p.r)
        return bv(0, 32) if I.ty.kind == 'int' else [(st, 'val', None)]

    def lock2(self, fn):
        def h(eng, st, I, a, f):
            st.ghost['both'] = True
            return [(st, 'enter', (self.ctx.fn(fn), [a[0], a[1]]))]

        return h

    def unlock(self, eng, st, I, a, f):
        p = a[0]
        if not self.at(st, p, 'a_mutex'):
            raise Unsupported('a mutex that is not the queue\'s')
        eng.oblige(st, "only a held lock is released", st.g('held@' + p.r))
        st.setg('held@' + p.r, F_)
        return bv(0, 32) if I.ty.kind == 'int' else [(st, 'val', None)]

    def sleep(self, st, p):
        e, k = self.e, p.r
        size = st.g('T@' + k) - st.g('H@' + k)
        mx = z3.ZeroExt(32, self.max(st, k))
        e.oblige(st, "a thread sleeps only holding the lock it gives up", st.g('held@' + k))
        if self.at(st, p, 'a_ne'):
            e.oblige(st, "a consumer sleeps only while there is no item", size == bv(0))
        elif self.at(st, p, 'a_nf'):
            e.oblige(st, "a producer sleeps only while the queue is full", z3.And(mx != bv(0), z3.UGE(size, mx)))
        else:
            raise Unsupported('unknown condition variable')
        self.acquired(st, k)

    def wait(self, eng, st, I, a, f):
        self.sleep(st, a[0])
        return [(st, 'val', None)]

    def clock(self, eng, st, I, a, f):
        v = fbv('now', 64)
        st.assume(z3.ULE(v, bv(1 << 61)), z3.UGE(v, st.g('now')))
        st.setg('start', simp(z3.If(st.g('started'), st.g('start'), v)))
        st.setg('started', T_)
        st.setg('now', v)
        return v

    def wait_until(self, eng, st, I, a, f):
        tp = eng.load(st, a[2], I64)
        t = st.ghost['timeout'] * bv(1000)
        eng.oblige(st, "a timed wait ends no later than asked", z3.ULE(tp, st.g('now') + t))
        st.setg('deadline', tp)
        self.sleep(st, a[0])
        v = fbv('cv_status', 32)
        st.assume(z3.ULE(v, 1))
        n = fbv('now', 64)
        st.assume(z3.UGE(n, st.g('now')), z3.ULE(n, bv(1 << 61)), z3.Implies(v == 1, z3.UGE(n, tp)))
        st.setg('now', n)
        st.setg('waited', simp(z3.Or(st.g('waited'), v == 1)))
        return v

    def notify(self, eng, st, I, a, f):
        p = a[0]
        n = bv(100, 8) if 'notify_all' in f.name else bv(1, 8)
        w = 'ne@' if self.at(st, p, 'a_ne') else 'nf@' if self.at(st, p, 'a_nf') else None
        if w is None:
            raise Unsupported('unknown condition variable')
        st.setg(w + p.r, simp(z3.If(z3.UGE(st.g(w + p.r), bv(100, 8)), st.g(w + p.r), st.g(w + p.r) + n)))
        return [(st, 'val', None)]

    def gen(self, eng, entry, hs, M, header):
        out = []
        ks = hs.ghost['objs']
        vs = [(n, g, w) for n, g, w in loop_vars(eng, entry, hs, M) if w in (32, 64) and not n.startswith('ghost')]
        for k in ks:
            H, T, H0, T0 = [(lambda x: lambda st: st.ghost[x + '@' + k])(x) for x in ('H', 'T', 'H0', 'T0')]
            mx = lambda st: z3.ZeroExt(32, st.ghost['max0@' + k])
            out += [Cand('H<=T', lambda st: z3.ULE(H(st), T(st))), Cand('H==H0', lambda st: H(st) == H0(st)), Cand('T==T0', lambda st: T(st) == T0(st)), Cand('H0<=H', lambda st: z3.ULE(H0(st), H(st))),
                    Cand('size small', lambda st: z3.ULE(T(st) - H(st), bv(BIG))), Cand('T small', lambda st: z3.ULE(T(st), bv(1 << 61))),
                    Cand('removed only while full', lambda st: z3.Or(H(st) == H0(st), z3.And(mx(st) != bv(0), z3.UGE(T(st) - H(st) + bv(1), mx(st))))),
                    Cand('max as found', lambda st: self.max(st, k) == st.ghost['max0@' + k]), Cand('held', lambda st: st.ghost['held@' + k]),
                    Cand('empty found', lambda st: H0(st) == T0(st))]
            for n, g, w in vs:
                z = (lambda g, w: lambda st: z3.ZeroExt(32, g(st)) if w == 32 else g(st))(g, w)
                out.append(Cand(f'{n} counts removals', lambda st, z=z: z(st) == H(st) - H0(st)))
                out.append(Cand(f'{n} counts removals (low word)', lambda st, z=z: z3.Extract(31, 0, z(st)) == z3.Extract(31, 0, H(st) - H0(st))))
                out.append(Cand(f'{n} counts items', lambda st, z=z: z(st) == T(st) - H(st)))
            for x in ('ne@' + k, 'nf@' + k):
                out.append(Cand(x + '==0', lambda st, x=x: st.ghost[x] == bv(0, 8)))
        out.append(Cand('start<=now', lambda st: z3.ULE(st.ghost['start'], st.ghost['now'])))
        out.append(Cand('deadline', lambda st: z3.Implies(st.ghost['waited'], z3.UGE(st.ghost['now'], st.ghost['deadline']))))
        return out

    # ---- common postconditions
    def after(self, st):
        for k in st.ghost['objs']:
            self.e.oblige(st, "the lock is free afterwards", z3.Not(st.g('held@' + k)))

    def d(self, st, k):
        g = st.ghost
        return g['H0@' + k], g['T0@' + k], z3.ZeroExt(32, g['max0@' + k]), g['H@' + k], g['T@' + k]


def val(s, v):
    r = s.new_region('arg', 8)
    r.cells[0] = (8, v)
    return Ptr(r.id, 0)


def truth(v):
    return v if z3.is_bool(v) else v != 0


def rets(ctx, M, fn, args):
    e = ctx.eng
    n = 0
    for o in e.run_fn(M.s, ctx.fn(fn), args):
        if o[0] != 'ret':
            e.oblige(o[1], "no operation throws", False)
            continue
        n += 1
        M.after(o[1])
        yield o[1], o[2]
    e.oblige(M.s, "the operation can complete", n > 0)


def unit_push(fn, blocking):
    def run(ctx):
        e, M = ctx.eng, Model(ctx)
        P = M.obj('q')
        k = P.r
        v = fbv('item', 64)
        A = val(M.s, v)
        ctx.cover('precondition', M.s)
        for st, r in rets(ctx, M, fn, [P, A]):
            H0, T0, mx, H, T = M.d(st, k)
            ok = truth(r)
            full = z3.And(mx != bv(0), z3.UGE(T0 - H0, mx))
            if blocking:
                e.oblige(st, "a blocking push succeeds", ok)
            e.oblige(st, "a push is refused exactly when the queue is full", ok == z3.Not(full))
            e.oblige(st, "a refused push changes nothing", z3.Implies(z3.Not(ok), z3.And(H == H0, T == T0)))
            e.oblige(st, "an accepted item is appended once", z3.Implies(ok, z3.And(H == H0, T == T0 + bv(1), C(st, k)(T0) == v)))
            e.oblige(st, "an accepted item wakes a consumer", z3.Implies(ok, st.g('ne@' + k) != bv(0, 8)))
            e.oblige(st, "the limit is not changed", M.max(st, k) == st.ghost['max0@' + k])

    return run


def unit_force(ctx):
    e, M = ctx.eng, Model(ctx)
    P = M.obj('q')
    k = P.r
    v = fbv('item', 64)
    A = val(M.s, v)
    ctx.cover('precondition', M.s)
    for st, r in rets(ctx, M, 'h_force', [P, A]):
        H0, T0, mx, H, T = M.d(st, k)
        full = z3.And(mx != bv(0), z3.UGE(T0 - H0, mx))
        e.oblige(st, "a forced item is appended once", z3.And(T == T0 + bv(1), C(st, k)(T0) == v))
        e.oblige(st, "only the oldest items are discarded, and only as many as needed", H == z3.If(full, T0 - mx + bv(1), H0))
        e.oblige(st, "the number of discarded items is reported", r == z3.Extract(31, 0, H - H0))
        e.oblige(st, "an accepted item wakes a consumer", st.g('ne@' + k) != bv(0, 8))
        e.oblige(st, "the limit is kept", z3.And(M.max(st, k) == st.ghost['max0@' + k], z3.Or(mx == bv(0), z3.ULE(T - H, mx))))


def unit_pop(fn, kind):
    def run(ctx):
        e, M = ctx.eng, Model(ctx)
        P = M.obj('q')
        k = P.r
        before = fbv('before', 64)
        O = val(M.s, before)
        t = fbv('timeout', 64)
        M.s.assume(z3.ULE(t, bv(1 << 40)))
        M.s.ghost['timeout'] = t
        ctx.cover('precondition', M.s)
        for st, r in rets(ctx, M, fn, [P, O] + ([t] if kind == 'timed' else [])):
            H0, T0, mx, H, T = M.d(st, k)
            ok = truth(r) if kind != 'blocking' else T_
            out = e.load(st, O, I64)
            e.oblige(st, "a pop fails only on an empty queue", z3.Implies(z3.Not(ok), H0 == T0))
            e.oblige(st, "a failed pop changes nothing", z3.Implies(z3.Not(ok), z3.And(H == H0, T == T0, out == before)))
            e.oblige(st, "a pop removes the oldest item and returns it", z3.Implies(ok, z3.And(H0 != T0, H == H0 + bv(1), T == T0, out == C(st, k)(H0))))
            e.oblige(st, "room made by a pop wakes a producer", z3.Implies(ok, st.g('nf@' + k) != bv(0, 8)))
            e.oblige(st, "the limit is not changed", M.max(st, k) == st.ghost['max0@' + k])
            if kind == 'timed':
                e.oblige(st, "a timed pop fails only after its time", z3.Implies(z3.Not(ok), z3.Or(t == bv(0), z3.And(st.g('started'), z3.UGE(st.g('now'), st.g('start') + t * bv(1000))))))

    return run


def unit_query(ctx):
    e = ctx.eng
    for fn in ('h_size', 'h_empty', 'h_full'):
        M = Model(ctx)
        P = M.obj('q')
        k = P.r
        for st, r in rets(ctx, M, fn, [P]):
            H0, T0, mx, H, T = M.d(st, k)
            want = {'h_size': lambda: r == T0 - H0, 'h_empty': lambda: truth(r) == (H0 == T0), 'h_full': lambda: truth(r) == z3.And(mx != bv(0), z3.UGE(T0 - H0, mx))}[fn]()
            e.oblige(st, f"{fn[2:]}() answers for the queue as it was at one moment", want)
            e.oblige(st, "a query changes nothing", z3.And(H == H0, T == T0))


def unit_setmax(ctx):
    e, M = ctx.eng, Model(ctx)
    P = M.obj('q')
    k = P.r
    n = fbv('n', 32)
    for st, r in rets(ctx, M, 'h_setmax', [P, n]):
        H0, T0, mx, H, T = M.d(st, k)
        e.oblige(st, "the limit is the one asked for", M.max(st, k) == n)
        e.oblige(st, "changing the limit keeps the items", z3.And(H == H0, T == T0))
        z = z3.ZeroExt(32, n)
        e.oblige(st, "a wider limit wakes every waiting producer", z3.Implies(z3.And(mx != bv(0), z3.Or(z == bv(0), z3.UGT(z, mx))), z3.UGE(st.g('nf@' + k), bv(100, 8))))


def unit_ctor(ctx):
    e, M = ctx.eng, Model(ctx)
    P = M.obj('q', own=True)
    n = fbv('n', 32)
    for st, r in rets(ctx, M, 'h_ctor', [P, n]):
        e.oblige(st, "a new queue is empty", st.g('H@' + P.r) == st.g('T@' + P.r))
        e.oblige(st, "a new queue has the limit asked for", M.max(st, P.r) == n)
    for fn in ('h_copy', 'h_move'):
        M = Model(ctx)
        S, P = M.obj('src'), M.obj('dst', own=True)
        k, d = S.r, P.r
        for st, r in rets(ctx, M, fn, [P, S]):
            H0, T0, mx, H, T = M.d(st, k)
            x = fbv('i', 64)
            e.oblige(st, "a copied or moved queue has the items of its source", z3.And(st.g('H@' + d) == H0, st.g('T@' + d) == T0, C(st, d)(x) == z3.Function('Csrc', BV64, BV64)(x)))
            e.oblige(st, "a copied or moved queue has the limit of its source", M.max(st, d) == st.ghost['max0@' + k])
            e.oblige(st, "the source keeps its items when copied and loses them when moved", z3.And(H == H0, T == T0) if fn == 'h_copy' else H == T)
    M = Model(ctx)
    P = M.obj('q')
    for st, r in rets(ctx, M, 'h_dtor', [P]):
        pass


def unit_exchange(fn):
    def run(ctx):
        e = ctx.eng
        M = Model(ctx)
        A, B = M.obj('a'), M.obj('b')
        a, b = A.r, B.r
        fa, fb = z3.Function('Ca', BV64, BV64), z3.Function('Cb', BV64, BV64)
        x = fbv('i', 64)
        ctx.cover('precondition', M.s)
        for st, r in rets(ctx, M, fn, [A, B]):
            g = st.ghost
            e.oblige(st, "the target has the items of the source", z3.And(g['H@' + a] == g['H0@' + b], g['T@' + a] == g['T0@' + b], C(st, a)(x) == fb(x)))
            if 'swap' in fn:
                e.oblige(st, "the source has the items of the target", z3.And(g['H@' + b] == g['H0@' + a], g['T@' + b] == g['T0@' + a], C(st, b)(x) == fa(x)))
            elif fn == 'h_assign':
                e.oblige(st, "a copy leaves the source as it was", z3.And(g['H@' + b] == g['H0@' + b], g['T@' + b] == g['T0@' + b], C(st, b)(x) == fb(x)))
            else:
                e.oblige(st, "a move empties the source", g['H@' + b] == g['T@' + b])
            for k in (a, b):
                size, size0, mx = g['T@' + k] - g['H@' + k], g['T0@' + k] - g['H0@' + k], z3.ZeroExt(32, M.max(st, k))
                got = z3.Not(z3.And(g['H@' + k] == g['H0@' + k], g['T@' + k] == g['T0@' + k], z3.BoolVal(g['F@' + k] == 'C' + ('a' if k == a else 'b'))))
                e.oblige(st, "items that arrive wake every waiting consumer", z3.Implies(z3.And(size0 == bv(0), size != bv(0)), z3.UGE(g['ne@' + k], bv(100, 8))))
                e.oblige(st, "room that appears wakes every waiting producer", z3.Implies(z3.And(mx != bv(0), z3.UGE(size0, mx), z3.ULT(size, mx)), z3.UGE(g['nf@' + k], bv(100, 8))))
        M = Model(ctx)
        A = M.obj('a')
        for st, r in rets(ctx, M, fn, [A, A]):
            g = st.ghost
            e.oblige(st, "exchanging a queue with itself keeps its items", z3.And(g['H@' + A.r] == g['H0@' + A.r], g['T@' + A.r] == g['T0@' + A.r]))

    return run


UNITS = [Unit(f[2:], unit_push(f, b)) for f, b in (('h_push', True), ('h_push_rv', True), ('h_move_push', True), ('h_try_push', False), ('h_try_push_rv', False), ('h_try_move_push', False))] + \
        [Unit('force_move_push', unit_force)] + \
        [Unit(f[2:], unit_pop(f, k)) for f, k in (('h_pop', 'blocking'), ('h_move_pop', 'blocking'), ('h_try_pop', 'try'), ('h_try_move_pop', 'try'), ('h_timeout_pop', 'timed'), ('h_timeout_move_pop', 'timed'))] + \
        [Unit('size, empty, full', unit_query), Unit('set_max_num_items', unit_setmax), Unit('construction, copy, move, destruction', unit_ctor)] + \
        [Unit(f[2:], unit_exchange(f)) for f in ('h_swap', 'h_fswap', 'h_assign', 'h_massign')]
DRIVERS = [dict(src='d14.cpp', secs=4, libs=['-ldl']), dict(src='d14.cpp', flags=['-DKTHREADS'], san=TSAN, secs=3, libs=['-ldl'])]
ASSUMPTIONS = ['std::queue and std::list by contract (a sequence of items, push/front/pop/size/empty/swap/copy/move)', 'std::mutex and std::condition_variable by contract (mutual exclusion; a wait may end at any time and everything protected by the lock may have changed meanwhile)',
               'allocation never fails and copying an item never throws', 'items are 8 byte integers in the proof (strings and shared pointers in the bounded driver)', 'fewer than 2^40 items at a time, time-outs below 2^40 microseconds',
               'that a notified thread is eventually scheduled, and that blocked operations end, is not proved']
BOUNDED = 'random histories over three queues where other operations run while one sleeps (spurious wake-ups, stolen items, time-outs), real producers and consumers with and without ThreadSanitizer'
EXPLANATION = 'every operation of the blocking queue, for every content, limit and argument; whenever the lock is given up, everything may change (monitor reasoning)'
