"""Listeners of the event emitters: an abstract multimap of listener objects behind a mutex, over kvc.stl.

The multimap is a global list per version W (an uninterpreted id): position j holds key(W,j) and the listener token tok(W,j);
[lo(W,s), hi(W,s)) are the positions of key s.  Every acquisition of the mutex havocs W (other threads); facts about a listener
that was seen unregistered survive, because ids and objects are never registered twice (an obligation of addListener)."""
import re

import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import *
from kvc.stl import _T

HARNESS = 'c17_emitter.cpp'
U = lambda n, *a: z3.Function(n, *a)
A = z3.ArraySort(BV64, BV64)
I16b = 48
TOKS = z3.Array('mm_tok', BV64, BV64)
KEYS = z3.Array('mm_key', BV64, BV64)
SIZE = U('mm_size', BV64, BV64)
LO, HI = U('mm_lo', BV64, BV64, BV64), U('mm_hi', BV64, BV64, BV64)
REG = U('mm_reg', BV64, BV64, z3.BoolSort())
POS = U('mm_pos', BV64, BV64, BV64)
DEL = U('mm_del', BV64, BV64, BV64)
INS = U('mm_ins', BV64, BV64, BV64, BV64)
ONCE = U('is_once', BV64, z3.BoolSort())
LID = U('listener_id', BV64, z3.BitVecSort(32))
CBK = U('callback_of', BV64, BV64)
STT = U('stats_of', BV64, BV64)
W30 = bv(1 << 30)
tok = lambda W, j: z3.Select(TOKS, W * bv(B) + j)
I32 = _T('int', 4)
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


class EStl(Stl):
    """multimap of listeners, its iterators, shared statistics"""
    M = None

    def select(self, fn):
        d = fn.dem
        comps, params, tail = parse(d)
        comps = [c for c in comps if c not in ('__cxx11', '__detail', '_V2')]
        if len(comps) >= 3 and comps[0] == 'std':
            cls = base_name(comps[-2])
            m = OPN.get(base_name(comps[-1]), base_name(comps[-1]))
            k = {'multimap': 'mm', '_Rb_tree_iterator': 'rbi'}.get(cls)
            if k:
                m = 'ctor' if m == cls else 'dtor' if m == '~' + cls else m.replace('operator++', 'opinc').replace('operator--', 'opdec')
                h = getattr(self, f'{k}_{m}', None)
                P = split_args(params)
                T = targs(comps[-2])
                if h is None and k == 'mm':
                    def bad(eng, st, I, a, f):
                        raise Unsupported(f"no contract for {d[:150]}")

                    return bad
                return h and (lambda eng, st, I, a, f: h(st, I, a, P, T))
        return Stl.select(self, fn)

    # ---- the multimap
    def own(self, st, p):
        M = self.M
        if not (p.r == M.P.r and oz(p.o).eq(oz(M.moff))):
            raise Unsupported('an unmodelled multimap')
        self.e.oblige(st, "the listeners are touched only holding the lock", st.g('held'))
        return st.g('W')

    def it(self, W, j):
        return Ptr(self.M.mmr, oadd(oz(W) * bv(B * I16b), oz(j) * bv(I16b)))

    def pos(self, p):
        """(version, position) of an iterator"""
        if not isinstance(p, Ptr) or p.r != self.M.mmr:
            raise Unsupported('an unmodelled iterator')
        return self.split(self.M.elM, p.o)

    def use(self, st, p, room=True):
        W, j = self.pos(p)
        self.e.oblige(st, "iterators are used only while the listeners are locked and unchanged", z3.And(st.g('held'), W == st.g('W')))
        if room:
            self.e.oblige(st, "only existing listeners are accessed", z3.ULT(j, SIZE(W)), 'safety')
            self.M.elem_facts(st, W, j)
        return W, j

    def mm_ctor(self, st, I, a, P, T):
        if [p for p in P if p and 'allocator' not in p]:
            raise Unsupported('multimap construction')
        return self.val(st)

    def mm_dtor(self, st, I, a, P, T):
        return self.val(st)

    def mm_begin(self, st, I, a, P, T):
        return self.it(self.own(st, a[0]), bv(0))

    def mm_end(self, st, I, a, P, T):
        W = self.own(st, a[0])
        st.assume(z3.ULT(SIZE(W), bv(B)))
        return self.it(W, SIZE(W))

    mm_cbegin, mm_cend = mm_begin, mm_end

    def mm_size(self, st, I, a, P, T):
        W = self.own(st, a[0])
        st.assume(z3.ULT(SIZE(W), bv(B)))
        return SIZE(W)

    def mm_empty(self, st, I, a, P, T):
        return simp(SIZE(self.own(st, a[0])) == bv(0))

    def rng(self, st, W, k):
        st.assume(z3.ULE(LO(W, k), HI(W, k)), z3.ULE(HI(W, k), SIZE(W)), z3.ULT(SIZE(W), bv(B)))
        self.M.on_query(st, W, k)

    def mm_equal_range(self, st, I, a, P, T):
        W, k = self.own(st, a[0]), self.sget(st, a[1])
        self.rng(st, W, k)
        return Agg([self.it(W, LO(W, k)), self.it(W, HI(W, k))])

    def mm_lower_bound(self, st, I, a, P, T):
        W, k = self.own(st, a[0]), self.sget(st, a[1])
        self.rng(st, W, k)
        return self.it(W, LO(W, k))

    def mm_upper_bound(self, st, I, a, P, T):
        W, k = self.own(st, a[0]), self.sget(st, a[1])
        self.rng(st, W, k)
        return self.it(W, HI(W, k))

    def mm_count(self, st, I, a, P, T):
        W, k = self.own(st, a[0]), self.sget(st, a[1])
        self.rng(st, W, k)
        return HI(W, k) - LO(W, k)

    def mm_insert(self, st, I, a, P, T):
        W = self.own(st, a[0])
        if len(P) != 1 or not isinstance(a[1], Ptr):
            raise Unsupported('multimap insertion')
        return self.M.on_insert(st, W, self.sget(st, a[1]), self.e.load(st, a[1].add(32), PT))

    def mm_emplace(self, st, I, a, P, T):
        W = self.own(st, a[0])
        if len(P) != 2:
            raise Unsupported('multimap emplacement')
        return self.M.on_insert(st, W, self.sget(st, a[1]), self.e.load(st, a[2], PT))

    def mm_erase(self, st, I, a, P, T):
        W = self.own(st, a[0])
        if len(P) != 1 or 'iterator' not in P[0]:
            raise Unsupported('multimap erase')
        W, j = self.use(st, a[1])
        self.M.on_erase(st, W, j)
        return self.it(st.g('W'), j)

    def mm_clear(self, st, I, a, P, T):
        self.own(st, a[0])
        st.setg('clears', simp(st.g('clears') + bv(1)))
        W = self.M.new_version(st)
        st.assume(SIZE(W) == bv(0))
        for w in self.M.wit(st):
            st.assume(z3.Not(REG(W, w)))
        return self.val(st)

    # ---- iterators
    def rbi_opderef(self, st, I, a, P, T):
        p = self.e.load(st, a[0], PT)
        self.use(st, p)
        return p

    rbi_oparrow = rbi_opderef

    def rbi_opinc(self, st, I, a, P, T):
        p = self.e.load(st, a[0], PT)
        W, j = self.use(st, p)
        q = p.add(I16b)
        self.e.store(st, a[0], q, PT)
        if P and P[0] == 'int':
            return p
        return a[0]

    def cmp(self, st, a, P):
        """comparison of iterators: by position, which is within the list"""
        if len(P) != 2 or not ('_Rb_tree_iterator' in P[0] or '__normal_iterator' in P[0]):
            return None
        p, q = self.e.load(st, a[0], PT), self.e.load(st, a[1], PT)
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r and p.r in (self.M.mmr, self.M.elH.rid)):
            return None
        el = self.M.elM if p.r == self.M.mmr else self.M.elH
        (l, i), (m, j) = self.split(el, p.o), self.split(el, q.o)
        self.e.oblige(st, "only iterators of one container are compared", z3.And(l == m, z3.ULT(i, bv(B)), z3.ULT(j, bv(B))))
        return simp(i == j)

    def free_opeq(self, st, I, a, P, comps):
        r = self.cmp(st, a, P)
        return Stl.free_opeq(self, st, I, a, P, comps) if r is None else r

    def free_opne(self, st, I, a, P, comps):
        r = self.cmp(st, a, P)
        return Stl.free_opne(self, st, I, a, P, comps) if r is None else simp(z3.Not(r))

    def rbi_opdec(self, st, I, a, P, T):
        raise Unsupported('iterating backwards')

    def free___distance(self, st, I, a, P, comps):
        if not (len(a) >= 2 and isinstance(a[0], Ptr) and a[0].r == self.M.mmr):
            return NotImplemented
        (W, i), (W2, j) = self.use(st, a[0], False), self.use(st, a[1], False)
        self.e.oblige(st, "a distance is measured forwards within one range", z3.And(W == W2, z3.ULE(i, j)))
        return simp(j - i)

    # ---- handlers
    def vec_resize(self, st, I, a, P, T):
        el = self.elem(T)
        if len(P) != 1:
            raise Unsupported('resize with a value')
        l = self.vget(st, a[0], el)
        self.vset(st, a[0], el, self.resized(st, el, l, a[1]))
        return self.val(st)

    def resized(self, st, el, l, n):
        n0 = self.vlen(st, el, l)
        l2 = fbv('list', 64)
        self.e.oblige(st, "a list has a sensible length", z3.ULT(oz(n), bv(B)))
        st.assume(z3.ULT(l2, W30), el.len(l2) == n, (oz(n) == bv(0)) == (l2 == EMPTY))
        k = self.M.k
        st.assume(z3.Implies(z3.And(z3.ULT(k, n0), z3.ULT(k, n)), self.M.at(st, l2, k) == self.M.at(st, l, k)) if el is self.M.elH else T_)
        return l2

    def vec_push_back(self, st, I, a, P, T):
        el = self.elem(T)
        if el is not self.M.elH:
            return Stl.vec_push_back(self, st, I, a, P, T)
        at, k = self.M.at, self.M.k
        l = self.vget(st, a[0], el)
        n = self.vlen(st, el, l)
        t = el.token(st, a[1])[0]
        l2 = fbv('list', 64)
        st.assume(z3.ULT(l2, W30), l2 != EMPTY, el.len(l2) == n + bv(1), z3.ULT(n + bv(1), bv(B)), at(st, l2, n) == t, z3.Implies(z3.ULT(k, n), at(st, l2, k) == at(st, l, k)))
        self.vset(st, a[0], el, l2)
        return self.val(st)

    def vec_ctor(self, st, I, a, P, T):
        Q = [p for p in P if 'allocator' not in p.split('<')[0]]
        if len(Q) == 1 and Q[0] == 'unsigned long':
            el = self.elem(T)
            self.vset(st, a[0], el, self.resized(st, el, EMPTY, a[1]))
            return self.val(st)
        return Stl.vec_ctor(self, st, I, a, P, T)

    def vec_begin(self, st, I, a, P, T):
        el = self.elem(T)
        if el is self.M.elH:
            self.M.handlers_ready(st, self.vget(st, a[0], el))
        return Stl.vec_begin(self, st, I, a, P, T)

    def vec_opindex(self, st, I, a, P, T):
        el = self.elem(T)
        if el is self.M.elH:
            self.M.handlers_ready(st, self.vget(st, a[0], el))
        return Stl.vec_opindex(self, st, I, a, P, T)

    def deref(self, st, p):
        p = Stl.deref(self, st, p)
        if isinstance(p, Ptr) and p.r == self.M.elH.rid:
            self.M.handler_facts(st, *self.split(self.M.elH, p.o))
        return p

    # ---- statistics objects: the pointer is a token, 0 = none
    def stat(self, T):
        return T and 'SubscriptionStats' in T[0]

    def stptr(self, t):
        return Ptr(self.M.str, t * bv(self.M.nst))

    def shp_ctor(self, st, I, a, P, T):
        if not self.stat(T):
            return Stl.shp_ctor(self, st, I, a, P, T)
        e = self.e
        if not P or P[0] in ('std::nullptr_t', 'decltype(nullptr)'):
            e.store(st, a[0], bv(0), I64)
        elif re.match(r'std::(__)?shared_ptr<', P[0]) and len(P) == 1:
            e.store(st, a[0], self.e.load(st, a[1], I64), I64)
            if P[0].endswith('&&'):
                e.store(st, a[1], bv(0), I64)
        else:
            raise Unsupported('statistics from ' + ', '.join(P))
        return self.val(st)

    def shp_opassign(self, st, I, a, P, T):
        if not self.stat(T):
            return Stl.shp_opassign(self, st, I, a, P, T)
        e = self.e
        if P[0] in ('std::nullptr_t', 'decltype(nullptr)'):
            e.store(st, a[0], bv(0), I64)
            return a[0]
        e.store(st, a[0], e.load(st, a[1], I64), I64)
        if P[0].endswith('&&'):
            e.store(st, a[1], bv(0), I64)
        return a[0]

    def shp_reset(self, st, I, a, P, T):
        if not self.stat(T):
            return Stl.shp_reset(self, st, I, a, P, T)
        if P and P[0]:
            raise Unsupported('reset to a pointer')
        self.e.store(st, a[0], bv(0), I64)
        return self.val(st)

    def shp_get(self, st, I, a, P, T):
        if not self.stat(T):
            return Stl.shp_get(self, st, I, a, P, T)
        t = self.e.load(st, a[0], I64)
        return [(q, 'val', NULL if z else self.stptr(t)) for q, z in self.e.branch(st, t == bv(0))]

    shp_oparrow = shp_opderef = shp__M_get = shp_get

    def shp_conv(self, st, I, a, P, T):
        if not self.stat(T):
            return NotImplemented
        return simp(self.e.load(st, a[0], I64) != bv(0))

    def free_make_shared(self, st, I, a, P, comps):
        T = targs(comps[-1])
        if not self.stat(T):
            return NotImplemented
        t = fbv('newstats', 64)
        st.assume(t != bv(0), z3.ULT(t, W30), z3.Not(U('used_stats', BV64, z3.BoolSort())(t)))
        st.setg('made', simp(st.g('made') + bv(1)))
        st.setg('mades', t)
        st.setg('maden', self.sget(st, a[1]))
        st.setg('madeo', self.sget(st, a[2]))
        d = self.M.discarded(st)
        st.assume(z3.Select(d, t) == bv(0))
        self.e.store(st, a[0], t, I64)
        return self.val(st)


class ListenerHook:
    """registered listener objects; anything written atomically is the 'already executed' permission"""

    def __init__(self, M):
        self.M = M

    def at(self, p):
        c, t = linform(p.o)
        k = self.M.nl
        o = scval_int(c) % k
        return oz(from_lin((scval_int(c) - o) // k, {i: (x, q // k) for i, (x, q) in t.items()})), o

    def load(self, eng, s, p, ty, order):
        if order not in ('na', None) and ty.kind == 'int' and ty.width == 8:
            b = fbv('executed', 8)
            s.assume(z3.ULE(b, 1))
            return b
        return eng.load(s, p, ty)

    def store(self, eng, s, p, v, ty, order):
        if order not in ('na', None) and ty.kind == 'int':
            return None
        t, o = self.at(p)
        raise Unsupported('a registered listener is modified')

    def cmpxchg(self, eng, s, p, e, n, ty, x):
        t, o = self.at(p)
        ok, bad = s, s.copy()
        eng.oblige(s, "a one-time listener is marked as executed", z3.And(e == bv(0, 8), n == bv(1, 8)))
        self.M.claim(ok, t, F_)
        self.M.claim(bad, t, T_)
        return [(ok, 'val', Agg([e, T_])), (bad, 'val', Agg([bv(1, 8), F_]))]

    def rmw(self, eng, s, p, op, v, ty, order):
        if op not in ('xchg', 'or'):
            raise Unsupported('rmw ' + op)
        t, o = self.at(p)
        eng.oblige(s, "a one-time listener is marked as executed", (v if z3.is_bv(v) else z3.If(v, bv(1, 8), bv(0, 8))) == bv(1, 8))
        old = fbv('executed', 8)
        s.assume(z3.ULE(old, 1))
        self.M.claim(s, t, old == bv(1, 8))
        return old


class LastHook:
    def load(self, eng, s, p, ty, order):
        eng.oblige(s, "the id counter is touched only holding the lock", s.g('held'))
        return s.g('last')

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "the id counter is touched only holding the lock", s.g('held'))
        s.setg('last', v)
        return None

    def cmpxchg(self, *a):
        raise Unsupported('id counter')

    rmw = cmpxchg


class Em:
    """a SafeEventEmitter used by any number of threads"""

    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = S = EStl(ctx, s)
        S.M = self
        self.k = s64 = fbv('kstar', 64)  # an arbitrary position among the handlers
        self.nl = ctx.const('c_sizeof_lst')
        self.nst = ctx.const('c_sizeof_stats')
        # statistics
        r = s.new_region('statistics', None)
        d = z3.Array('DISC', BV64, BV64)
        self.str = r.id
        self.d0 = d
        fs = {self.off('a_discarded'): ['int', 8, d], self.off('a_enqueued'): ['int', 8, z3.Array('ENQ', BV64, BV64)]}
        r.segs.append(Seg(0, bv(1 << 30), self.nst, fs, name='statistics'))
        # virtual tables of registered listeners: runCallback is taken by contract
        vt = s.new_region('listener vtable', 64)
        slots = self.vslots()
        for i, nm in slots.items():
            vt.cells[8 * i] = (8, Ptr(('cb', self.run_callback if nm else self.other), 0))
        # listeners
        r = s.new_region('listeners', None)
        ident = lambda f, srt=None: z3.Lambda([z3.BitVec('x', 64)], f(z3.BitVec('x', 64)))
        fs = {0: ['const', 8, None, Ptr(vt.id, 0)], self.off('a_lid'): ['int', 4, ident(LID)],
              self.off('a_once'): ['int', 1, ident(lambda x: z3.If(ONCE(x), bv(1, 8), bv(0, 8)))],
              self.off('a_cb'): ['int', 8, ident(CBK)], self.off('a_stats'): ['int', 8, ident(STT)]}
        r.segs.append(Seg(0, bv(1 << 32), self.nl, fs, name='listeners'))
        r.hooks = {'*': ListenerHook(self)}
        self.lr = r.id
        # multimap
        self.elM = S.elem_type('M', r'^$never', I16b, {0: ['int', 8, KEYS], 32: [f'ptr:{r.id}:{self.nl}', 8, TOKS], 40: ['opaque', 8, None]})
        self.elM.len = SIZE
        self.mmr = self.elM.rid
        self.elH = S.elem_type('H', r'shared_ptr<kpsr::SafeEventEmitter<Ev>::ListenerBase', 16, {0: [f'ptr:{r.id}:{self.nl}', 8, z3.Array('HTOK', BV64, BV64)], 8: ['opaque', 8, None]},
                                lambda st, p: [self.token(e.load(st, p, PT))])
        s.assume(self.elH.len(EMPTY) == bv(0))
        o = s.new_region('emitter', ctx.const('c_sizeof_se'), 'undef')
        self.P = Ptr(o.id, 0)
        g = [x for x in ctx.mod.globals if re.fullmatch(r'_ZTVN4kpsr16SafeEventEmitterI\w+EE', x)]
        if not g:
            raise Unsupported('the emitter has no virtual functions')
        e.store(s, self.P, Ptr('@' + g[0], 16), PT)
        self.moff = self.off('a_listeners')
        o.hooks = {self.off('a_last'): LastHook()}
        self.W0 = fbv('W', 64)
        s.ghost.update(held=F_, W=self.W0, last=fbv('last', 32), clears=bv(0), made=bv(0), mades=bv(0), maden=bv(0), madeo=bv(0), locks=bv(0),
                       ins=bv(0), ers=bv(0), ertok=bv(0), q=F_, Wq=self.W0, ran=F_, ran2=F_, took=F_, skipped=F_, lost=F_, gone=F_, mine=F_, ready=False, det=bv(0), dett=F_, att=bv(0), atts=bv(0), last0=bv(0, 32))
        s.assume(z3.ULT(self.W0, W30))
        self.key = None
        s.ghost['found'] = bv(-1)
        fl = ctx.mod.funcs.get('a_exec')
        self.flag = None
        if fl is not None:
            q = self.ctx.acc('a_exec', Ptr(s.new_region('probe', 4096).id, 0))
            self.flag = q.o if isinstance(q, Ptr) and q.r is not None else None
        for rx, h in ((r'^(std::mutex::lock\(|pthread_mutex_lock$)', self.lock), (r'^(std::mutex::unlock\(|pthread_mutex_unlock$)', self.unlock), (r'getCurrentNanosecondsAsLlu', self.now)):
            e.contract(rx, h)
        e.cand_gens = [scalar_gen(), self.gen]
        self.extra = []

    def off(self, acc):
        q = self.s.new_region('probe', 4096)
        return self.ctx.acc(acc, Ptr(q.id, 0)).o

    def vslots(self):
        """slots of the listeners' virtual table: index -> is it runCallback"""
        e, s = self.e, self.s
        out = {}
        for g in self.ctx.mod.globals:
            if g.startswith('_ZTVN4kpsr16SafeEventEmitter') and 'Listener' in g:
                e.load_global(s, '@' + g)
                for o, (sz, v) in s.mem['@' + g].cells.items():
                    if o >= 16 and isinstance(v, Ptr) and isinstance(v.r, tuple) and v.r[0] == 'fn':
                        fn = self.ctx.mod.funcs.get(v.r[1])
                        d = fn.dem if fn is not None else v.r[1]
                        out[(o - 16) // 8] = out.get((o - 16) // 8, False) or 'runCallback' in d
        if True not in out.values():
            raise Unsupported('listeners have no virtual runCallback')
        self.slots = out
        return out

    def discarded(self, st):
        return st.mem[self.str].segs[0].fields[self.off('a_discarded')][2]

    def token(self, p):
        if not isinstance(p, Ptr) or p.r != self.lr:
            raise Unsupported('an unmodelled listener')
        return ListenerHook.at(self.hook(), p)[0]

    def hook(self):
        return ListenerHook(self)

    # ---- the lock
    def is_mutex(self, p):
        return isinstance(p, Ptr) and p.r == self.P.r and oz(p.o).eq(oz(self.off('a_mutex')))

    def lock(self, eng, st, I, a, fn):
        if not self.is_mutex(a[0]):
            raise Unsupported('a foreign mutex')
        eng.oblige(st, "the lock is not taken twice by one thread", z3.Not(st.g('held')))
        st.setg('held', T_)
        st.setg('locks', simp(st.g('locks') + bv(1)))
        W = self.new_version(st)
        for w in self.wit(st):
            st.assume(z3.Implies(st.g('gone'), z3.Not(REG(W, w))))
        l = fbv('last', 32)
        st.setg('last', l)
        st.setg('last0', l)
        return [(st, 'val', bv(0, 32) if I.ty.kind != 'void' else None)]

    def unlock(self, eng, st, I, a, fn):
        if not self.is_mutex(a[0]):
            raise Unsupported('a foreign mutex')
        eng.oblige(st, "only the holder releases the lock", st.g('held'))
        st.setg('held', F_)
        W = st.g('W')
        for w in self.wit(st):
            st.setg('lost', simp(z3.Or(st.g('lost'), z3.And(st.g('q'), z3.Not(REG(W, w)), z3.Not(st.g('mine'))))))
            st.setg('gone', simp(z3.Or(st.g('gone'), z3.Not(REG(W, w)))))
        return [(st, 'val', bv(0, 32) if I.ty.kind != 'void' else None)]

    def new_version(self, st):
        W = fbv('W', 64)
        st.assume(z3.ULT(W, W30), z3.ULT(SIZE(W), bv(B)))
        st.setg('W', W)
        for w in self.wit(st):
            self.wit_facts(st, W, w)
        return W

    def wit(self, st):
        """the listener the argument is about: an arbitrary one, chosen once"""
        return [self.w] if getattr(self, 'w', None) is not None else []

    def wit_facts(self, st, W, w):
        st.assume(z3.Implies(REG(W, w), z3.And(z3.ULT(POS(W, w), SIZE(W)), tok(W, POS(W, w)) == w)), z3.ULT(w, W30))

    def elem_facts(self, st, W, j):
        t = tok(W, j)
        st.setg('found', t)
        st.assume(REG(W, t), POS(W, t) == j, z3.ULT(t, W30), z3.ULT(STT(t), W30))
        for w in self.wit(st):
            # ids and statistics belong to one listener each
            st.assume(z3.Implies(z3.And(REG(W, w), LID(w) == LID(t)), w == t))
            st.assume(z3.Implies(z3.And(STT(w) != bv(0), STT(w) == STT(t)), w == t))

    # ---- events
    def on_query(self, st, W, k):
        """the listeners of one subscriber are looked up"""
        if self.key is None:
            return
        self.e.oblige(st, "the listeners of the named subscriber are looked up", k == self.key)
        q = st.g('q')
        self.e.oblige(st, "the listeners of a subscriber are taken at one moment", z3.Or(z3.Not(q), st.g('Wq') == W))
        st.setg('q', T_)
        st.setg('Wq', W)
        st.ghost['k?'] = True
        w = self.w
        for i in (self.k,):
            st.assume(z3.Implies(z3.ULT(i, self.n(W)), z3.And(tok(W, LO(W, k) + i) == w, REG(W, w), POS(W, w) == LO(W, k) + i)))

    def at(self, st, lid, j):
        return z3.Select(st.mem[self.elH.rid].segs[0].fields[0][2], oz(lid) * bv(B) + oz(j))

    def n(self, W):
        return HI(W, self.key) - LO(W, self.key)

    def on_insert(self, st, W, key, p):
        st.setg('ins', simp(st.g('ins') + bv(1)))
        st.ghost['inskey'] = key
        st.ghost['insptr'] = p
        if not isinstance(p, Ptr) or p.r == self.lr or not isinstance(p.o, int):
            self.e.oblige(st, "a new listener object is registered", False)
        self.new_version(st)
        return [(st, 'val', self.S.it(st.g('W'), bv(0)))]

    def on_erase(self, st, W, j):
        t = tok(W, j)
        st.setg('ers', simp(st.g('ers') + bv(1)))
        st.setg('ertok', t)
        W2 = self.new_version(st)
        for w in self.wit(st):
            st.assume(REG(W2, w) == z3.And(REG(W, w), w != t))
            st.setg('mine', simp(z3.Or(st.g('mine'), w == t)))

    def claim(self, st, t, old):
        for w in self.wit(st):
            st.setg('took', simp(z3.Or(st.g('took'), z3.And(t == w, z3.Not(old)))))
            st.setg('skipped', simp(z3.Or(st.g('skipped'), z3.And(t == w, old))))

    def handlers_ready(self, st, lid):
        """the collected handlers are used outside the lock: from here on they are the subscriber's listeners, in order"""
        if st.ghost['ready'] or not st.ghost.get('k?') or not z3.is_false(simp(st.g('held'))):
            return
        W = st.g('Wq')
        n = self.elH.len(lid)
        self.e.oblige(st, "every listener of the subscriber is collected", n == self.n(W))
        self.e.oblige(st, "listeners are collected in the order of registration", z3.Implies(z3.ULT(self.k, n), self.at(st, lid, self.k) == tok(W, LO(W, self.key) + self.k)))
        st.ghost['ready'] = True

    def handler_facts(self, st, lid, j):
        if st.ghost['ready']:
            W = st.g('Wq')
            t = tok(W, LO(W, self.key) + j)
            h, w = self.at(st, lid, j), self.w
            inr = z3.ULT(j, self.elH.len(lid))
            srv = z3.And(inr, z3.ULT(self.k, self.n(W)))
            st.assume(z3.Implies(inr, z3.And(h == t, REG(W, t), POS(W, t) == LO(W, self.key) + j, z3.ULT(t, W30), z3.ULT(STT(t), W30))))
            st.assume(z3.Implies(z3.And(inr, LID(h) == LID(w)), h == w))  # ids are handed out once
            # consequences of the positions and of one statistics object per listener, spelled out
            st.assume(z3.Implies(srv, (h == w) == (j == self.k)), z3.Implies(z3.And(srv, STT(h) == STT(w), STT(w) != bv(0)), j == self.k))


    def run_callback(self, eng, st, I, args):
        if getattr(self, 'cb', None) is None:
            raise Unsupported('runCallback')
        return self.cb(eng, st, I, args)

    def other(self, eng, st, I, args):
        return [(st, 'val', None)]

    def now(self, eng, st, I, a, fn):
        t = fbv('now', 64)
        st.ghost['now'] = t
        return t

    # ---- the registry and its container
    def container(self, null):
        s, e = self.s, self.e
        if null:
            return NULL
        vt = s.new_region('container vtable', 96)
        r = s.new_region('container', 8)
        for i in range(12):
            vt.cells[8 * i] = (8, Ptr(('cb', self.cont_call(i)), 0))
        r.cells[0] = (8, Ptr(vt.id, 0))
        return Ptr(r.id, 0)

    def cont_call(self, i):
        def f(eng, st, I, args):
            p = args[1]
            # declaration order of the interface: (two destructors,) attach, detach
            what = self.cslots.get(i)
            if what is None:
                return [(st, 'val', None)]
            if not isinstance(p, Ptr) or p.r != self.str:
                eng.oblige(st, f"only statistics that exist are {what}ed", False)
                return [(st, 'stop', None)]
            t = self.S.quot(p.o, self.nst)
            if what == 'attach':
                st.setg('att', simp(st.g('att') + bv(1)))
                st.setg('atts', t)
            else:
                st.setg('det', simp(st.g('det') + bv(1)))
                st.setg('dets', t)
                if getattr(self, 'det_watch', None) is not None:
                    st.setg('detn', simp(st.g('detn') + z3.If(t == self.det_watch, bv(1), bv(0))))
                for w in self.wit(st):
                    st.setg('dett', simp(z3.Or(st.g('dett'), t == STT(w))))
            return [(st, 'val', None)]

        return f

    cslots = {6: 'attach', 11: 'detach'}  # harness/sdk: destructors, attach(5 kinds), detach(5 kinds); subscription statistics come last

    # ---- candidates
    def gen(self, eng, entry, hs, M, header):
        out = []
        vs = loop_vars(eng, entry, hs, M)
        ts = frame_terms(eng, entry, hs, M, 10)
        hp, mp = [], []
        for n, g, k in vs:
            if k == 'ptr' and isinstance(g(hs), Ptr):
                p = g(hs)
                if p.r == self.elH.rid:
                    hp.append((n, g))
                elif p.r == self.mmr:
                    mp.append((n, g))
        H = lambda st, g: self.S.split(self.elH, g(st).o)
        Mi = lambda st, g: self.S.split(self.elM, g(st).o)
        k, w = self.k, getattr(self, 'w', None)
        for n, g in hp:
            out.append(Cand(f"{n} within its list", lambda st, g=g: z3.ULE(H(st, g)[1], self.elH.len(H(st, g)[0]))))
            if w is not None and self.key is not None:
                def cont(st, g=g):
                    l, j = H(st, g)
                    W = st.ghost['Wq']
                    return z3.Implies(z3.ULT(k, j), self.at(st, l, k) == tok(W, LO(W, self.key) + k))

                out.append(Cand(f"handlers before {n} are the listeners", cont))

                def full(st, g=g):
                    l, j = H(st, g)
                    W = st.ghost['Wq']
                    return z3.Implies(z3.ULT(k, self.elH.len(l)), self.at(st, l, k) == tok(W, LO(W, self.key) + k))

                out.append(Cand(f"the list of {n} holds listeners only", full))
                srv = lambda st, x: z3.Implies(z3.And(st.ghost['q'], z3.ULT(k, self.n(st.ghost['Wq']))), x)
                done = lambda st: z3.Or(st.ghost['ran'], z3.And(ONCE(w), z3.Or(st.ghost['skipped'], st.ghost['lost'])))
                out.append(Cand(f"before {n} every listener was served", lambda st, g=g: srv(st, z3.Implies(z3.ULT(k, H(st, g)[1]), done(st)))))
                out.append(Cand(f"one-time listeners before {n} are gone", lambda st, g=g: srv(st, z3.Implies(z3.And(st.ghost['ran'], ONCE(w)), st.ghost['gone']))))
                out.append(Cand("only one-time listeners are removed", lambda st: srv(st, z3.Implies(st.ghost['mine'], ONCE(w)))))
                for b in ('ran', 'took', 'mine', 'skipped'):
                    out.append(Cand(f"{b} only before {n}", lambda st, g=g, b=b: srv(st, z3.Implies(st.ghost[b], z3.ULT(k, H(st, g)[1])))))
                out.append(Cand(f"later listeners ran only after {n}", lambda st, g=g: srv(st, z3.Implies(st.ghost['ran2'], z3.ULT(k, H(st, g)[1])))))
                fo = self.off('a_discarded')
                if (self.str, 's', 0, fo) in M:
                    D = lambda st: z3.Select(self.discarded(st), STT(w))
                    out.append(Cand(f"discarded once before {n}", lambda st, g=g: srv(st, z3.Implies(STT(w) != bv(0), D(st) == z3.Select(self.d0, STT(w)) + z3.If(z3.ULT(k, H(st, g)[1]), bv(1), bv(0))))))
                    out.append(Cand("foreign statistics stay", lambda st: z3.Select(self.discarded(st), self.x) == z3.Select(self.d0, self.x)))
        for n, g in mp:
            out.append(Cand(f"{n} within the listeners", lambda st, g=g: z3.And(Mi(st, g)[0] == st.ghost['W'], z3.ULE(Mi(st, g)[1], SIZE(st.ghost['W'])))))
            if self.key is not None:
                out.append(Cand(f"{n} within the range", lambda st, g=g: z3.ULE(Mi(st, g)[1], HI(st.ghost['W'], self.key))))
            for n2, g2 in hp:
                d0 = Mi(entry, g)[1] - H(entry, g2)[1]
                d1 = Mi(entry, g)[1] - self.elH.len(H(entry, g2)[0])
                out.append(Cand(f"{n} keeps pace with the list of {n2}", lambda st, g=g, g2=g2, d1=d1: Mi(st, g)[1] - self.elH.len(H(st, g2)[0]) == d1))
                out.append(Cand(f"{n} keeps pace with {n2}", lambda st, g=g, g2=g2, d0=d0: Mi(st, g)[1] - H(st, g2)[1] == d0))
            for n2, g2 in hp:
                # a list that grows with the iterator
                if self.key is None:
                    continue
                li = lambda st, g2=g2: H(st, g2)[0]
                L = lambda st, li=li: self.elH.len(li(st))
                at0 = lambda st: LO(st.ghost['W'], self.key)
                out.append(Cand(f"{n2} is a list", lambda st, li=li, L=L: z3.And(z3.ULT(li(st), W30), z3.ULT(L(st), bv(B)), (li(st) == EMPTY) == (L(st) == bv(0)))))
                out.append(Cand(f"{n2} grows with {n}", lambda st, g=g, L=L: z3.And(z3.ULE(at0(st), Mi(st, g)[1]), L(st) == Mi(st, g)[1] - at0(st))))
                out.append(Cand(f"{n2} holds the listeners before {n}", lambda st, li=li, L=L: z3.Implies(z3.ULT(k, L(st)), self.at(st, li(st), k) == tok(st.ghost['W'], at0(st) + k))))
            if w is not None:
                W = lambda st: st.ghost['W']
                seen = lambda st, g: z3.And(REG(W(st), w), z3.ULT(POS(W(st), w), Mi(st, g)[1]))
                for n2, g2, k2 in ts:
                    if k2 == 32:
                        out.append(Cand(f"listeners before {n} have not id {n2}", lambda st, g=g, g2=g2: z3.Implies(seen(st, g), LID(w) != g2(st))))
                if self.key is None:
                    out.append(Cand(f"listeners before {n} are detached", lambda st, g=g: z3.Implies(z3.And(seen(st, g), STT(w) != bv(0)), st.ghost['dett'])))
        for b in ('held', 'q', 'mine', 'ran', 'ran2', 'took', 'skipped'):
            if not z3.is_true(simp(entry.ghost[b])):
                out.append(Cand('not ' + b, lambda st, b=b: z3.Not(st.ghost[b])))
            if not z3.is_false(simp(entry.ghost[b])):
                out.append(Cand(b, lambda st, b=b: st.ghost[b]))
        for x in self.extra:
            out += x(entry, hs, hp, mp)
        return out
