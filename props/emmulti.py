"""UnsafeMultiListenerEventEmitter: maps and lists of any contents.

Ghost functions of a listener id: SUB (subscriber), NAME, POSN (its place in the subscriber's list); of a stored function: its id.
The class invariant ties the four containers together; every operation is proved to give its result and to keep the invariant."""
from props.emmodel import *

ENDKEY = bv(LIM - 2)
CAP = bv(1 << 24)


def ext(x):
    return z3.ZeroExt(32, x) if x.size() == 32 else x


class MuStl(EStl):
    X = None
    cur = None

    def minfo(self, p):
        self.cur = EStl.minfo(self, p)
        return self.cur

    def keyarg(self, st, p):
        if self.cur['name'] == 'stats':
            return ext(self.e.load(st, p, I32))
        return self.sget(st, p)

    def vec_push_back(self, st, I, a, P, T):
        el, X = self.elem(T), self.X
        if el not in (X.elI, X.elF):
            return EStl.vec_push_back(self, st, I, a, P, T)
        l = self.vget(st, a[0], el)
        n = self.vlen(st, el, l)
        st.assume(z3.ULT(n, CAP))
        if el is X.elI:
            t = self.e.load(st, a[1], I32)
        else:
            t = X.stored(st, a[1], P[0])
        l2 = fbv('list', 64)
        st.assume(z3.ULT(l2, W30), l2 != EMPTY, el.len(l2) == n + bv(1), X.at(st, el, l2, n) == t)
        for i in X.idx:
            st.assume(z3.Implies(z3.ULT(i, n), X.at(st, el, l2, i) == X.at(st, el, l, i)))
        self.vset(st, a[0], el, l2)
        return self.val(st)

    def vec_emplace_back(self, st, I, a, P, T):
        el = self.elem(T)
        if len(P) == 1 and ('function<' in P[0] or el is self.X.elI):
            self.vec_push_back(st, I, a, P, T)
            return self.val(st, Opaque('ref'))
        raise Unsupported('emplace_back')

    def vec_ctor(self, st, I, a, P, T):
        Q = [p for p in P if 'allocator' not in p.split('<')[0]]
        if self.elem(T) is self.X.elI and len(Q) == 1 and Q[0] == 'unsigned long' and z3.is_true(simp(a[1] == bv(0))):
            self.vset(st, a[0], self.X.elI, EMPTY)
            return self.val(st)
        return EStl.vec_ctor(self, st, I, a, P, T)

    def vec_erase(self, st, I, a, P, T):
        el, X = self.elem(T), self.X
        if el is not X.elI or len(P) != 1:
            raise Unsupported('erase from this vector')
        l = self.vget(st, a[0], el)
        n = self.vlen(st, el, l)
        p = a[1]
        if not isinstance(p, Ptr) or p.r != el.rid:
            p = self.e.load(st, p, PT)
        if not isinstance(p, Ptr) or p.r != el.rid:
            raise Unsupported('erase of an unknown element')
        lid, j = self.split(el, p.o)
        self.e.oblige(st, "only an existing element is erased", z3.And(lid == l, z3.ULT(j, n)), 'safety')
        l2 = fbv('list', 64)
        st.assume(z3.ULT(l2, W30), el.len(l2) == n - bv(1), (n == bv(1)) == (l2 == EMPTY))
        for i in X.idx:
            st.assume(z3.Implies(z3.ULT(i, j), X.at(st, el, l2, i) == X.at(st, el, l, i)), z3.Implies(z3.And(z3.UGT(i, j), z3.ULT(i, n)), X.at(st, el, l2, i - bv(1)) == X.at(st, el, l, i)))
            st.assume(z3.Implies(z3.And(z3.UGE(i, j), z3.ULT(i + bv(1), n)), X.at(st, el, l2, i) == X.at(st, el, l, i + bv(1))))
        self.vset(st, a[0], el, l2)
        st.ghost['erased'] = (l, j, l2)
        return Ptr(el.rid, oadd(oadd(0, l2 * bv(B * el.stride)), j * bv(el.stride)))

    # ---- iteration over the maps: an arbitrary order of the entries
    def map_begin(self, st, I, a, P, T):
        i = self.minfo(a[0])
        st.setg('pos_' + i['name'], bv(0))
        self.X.iter_facts(st, i, bv(0))
        st.assume(*self.X.facts_of(st, i, self.X.keyat(i, bv(0))))
        return self.node(i, self.X.keyat(i, bv(0)))

    def map_end(self, st, I, a, P, T):
        return self.node(self.minfo(a[0]), ENDKEY)

    map_cbegin, map_cend = map_begin, map_end

    def map_find(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        return [(q, 'val', self.node(i, k if has else ENDKEY)) for q, has in self.e.branch(st, self.present(st, i, k))]

    def free_find_if(self, st, I, a, P, comps):
        el, X = self.X.elI, self.X
        p, q = a[0], a[1]
        if not all(isinstance(x, Ptr) and x.r == el.rid for x in (p, q)):
            raise Unsupported('find_if over something else')
        (l, i0), (l2, n) = self.split(el, p.o), self.split(el, q.o)
        self.e.oblige(st, "a list is searched as a whole", z3.And(l == l2, i0 == bv(0), n == self.vlen(st, el, l)), 'safety')
        cur = I.args if hasattr(I, 'args') else None
        m = re.search(r"std::find_if<.*, (kpsr::.*::'lambda\d*'\([^()]*\))>\(", self.fn_dem) if self.fn_dem else None
        if not m:
            raise Unsupported('find_if with an unknown predicate')
        fn = [f for f in self.ctx.mod.funcs.values() if f.dem and f.dem.startswith(m.group(1) + '::operator()(') and f.blocks]
        if len(fn) != 1:
            raise Unsupported('the predicate of find_if')
        j = fbv('found', 64)
        st.assume(z3.ULE(j, n))
        clo = st.new_region('predicate', 8, 'undef')  # one variable is captured: by reference, or by value
        if isinstance(a[2], Ptr):
            self.e.store(st, Ptr(clo.id, 0), a[2], PT)
        elif a[2].size() in (32, 64):
            self.e.store(st, Ptr(clo.id, 0), a[2], I32 if a[2].size() == 32 else I64)

        def pred(st, i):
            v = X.at(st, el, l, i)
            outs = self.e.run_fn(st.copy(), fn[0], [Ptr(clo.id, 0), v])
            if len(outs) != 1 or outs[0][0] != 'ret':
                raise Unsupported('a predicate with several outcomes')
            b = outs[0][2]
            return b if z3.is_bool(b) else b != bv(0, b.size())

        X.list_facts(st, l, j, [X.keyat(X.subs, st.g('pos_subs'))])
        st.assume(z3.Implies(z3.ULT(j, n), pred(st, j)))
        for i in X.idx:
            st.assume(z3.Implies(z3.ULT(i, j), z3.Not(pred(st, i))))
        return Ptr(el.rid, oadd(oadd(0, l * bv(B * el.stride)), j * bv(el.stride)))

    fn_dem = None

    def select(self, fn):
        h = EStl.select(self, fn)
        if h is not None and 'find_if' in fn.dem:
            def g(eng, st, I, a, f):
                self.fn_dem = f.dem
                return h(eng, st, I, a, f)

            return g
        return h


class Multi:
    def __init__(self, ctx):
        M = self.M = Em(ctx)
        self.ctx, self.e, self.S = ctx, ctx.eng, M.S
        e, s, S = M.e, M.s, M.S
        self.s = s
        S.__class__ = MuStl
        S.X = self
        M.w, M.id = fbv('w', 64), None
        # an arbitrary listener, an arbitrary place in an arbitrary list, an arbitrary name
        self.w, self.i, self.k, self.nm = fbv('id', 64), fbv('place', 64), fbv('some subscriber', 64), fbv('some name', 64)
        s.assume(z3.ULT(self.w, CAP), z3.ULT(self.i, CAP), z3.ULT(self.k, W30), z3.ULT(self.nm, W30))
        self.idx = [self.w, self.i]
        self.IDS, self.FT = z3.Array('IDS', BV64, z3.BitVecSort(32)), z3.Array('FT', BV64, BV64)
        self.elI = S.elem_type('I', r'^unsigned int$', 4, {0: ['int', 4, self.IDS]})
        self.elF = S.elem_type('F', r'^std::function<void \(Ev const&, ', 32, {0: ['int', 8, self.FT], 8: ['opaque', 8, None], 16: ['opaque', 8, None], 24: ['opaque', 8, None]})
        for el in (self.elI, self.elF):
            s.assume(el.len(EMPTY) == bv(0))
        self.elI.hook = self.list_facts
        self.U = Ptr(s.new_region('emitter for several', ctx.const('c_sizeof_me'), 'undef').id, 0)
        ac = lambda n: ctx.acc(n, self.U)
        low = z3.Lambda([z3.BitVec('k', 64)], z3.Extract(31, 0, z3.BitVec('k', 64)))
        self.names = S.map_at_obj(s, ac('a_mnames'), 'names', {0: ['int', 4, z3.Array('VN', BV64, z3.BitVecSort(32))]}, 8, lambda q: [(0, bv(0, 32), I32)])
        self.subs = S.map_at_obj(s, ac('a_msubs'), 'subs', {0: [S.list_kind(self.elI), 8, z3.Array('VS', BV64, BV64)], 8: ['opaque', 8, None], 16: ['opaque', 8, None]}, 24, lambda q: [(0, Ptr(self.elI.rid, 0), PT)])
        self.stats = S.map_at_obj(s, ac('a_mstats'), 'stats', {0: ['int', 8, z3.Array('VT', BV64, BV64)], 8: ['opaque', 8, None]}, 16, lambda q: [(0, bv(0), I64)], voff=16, kfield=['int', 4, low])
        self.maps = (self.names, self.subs, self.stats)
        arb = {i['g']: s.ghost[i['g']] for i in self.maps}
        st = self.one(s, 'm_ctor', [self.U])
        for i in self.maps:
            e.oblige(st, "a new emitter has no listeners", st.g(i['g']) == z3.K(BV64, F_))
        self.at_list = ac('a_mlist')
        e.oblige(st, "a new emitter has no listeners", S.vget(st, self.at_list, self.elF) == EMPTY)
        st.ghost.update(arb)
        fl = fbv('listeners', 64)
        st.assume(z3.ULT(fl, W30), z3.ULT(self.elF.len(fl), CAP), (self.elF.len(fl) == bv(0)) == (fl == EMPTY))
        S.vset(st, self.at_list, self.elF, fl)
        for i in self.maps:
            st.assume(z3.Not(z3.Select(st.g(i['g']), ENDKEY)))
        ev = st.new_region('event', 4)
        ev.cells[0] = (4, fbv('event', 32))
        self.E = Ptr(ev.id, 0)
        st.ghost.update(dets=bv(0), atts=bv(0), next=bv(0), calls=bv(0), started=bv(0), stopped=bv(0), own=T_, stored=None, erased=None, pos_names=bv(0), pos_subs=bv(0), pos_stats=bv(0), detw=F_, detx=F_)
        self.s, self.s0 = st, st.copy()
        self.d0 = M.discarded(st)
        e.cand_gens = [scalar_gen(), self.gen]
        c, first = e.contract, len(e.contracts)
        c(r'_Node_iterator_base<.*>::_M_incr\(', self.incr)
        e.contracts[:] = e.contracts[first:] + e.contracts[:first]

    def one(self, st, fn, args):
        outs = [o for o in self.e.run_fn(st, self.ctx.fn(fn), args) if self.e.feasible(o[1])]
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise Unsupported(f'{fn} has {len(outs)} outcomes')
        return outs[0][1]

    def text(self, st, name):
        v = self.S.fresh_id(st)
        st.assume(z3.ULT(v, W30))
        r = st.new_region(name, 32)
        r.cells[0] = (8, v)
        return Ptr(r.id, 0), v

    # ---- views
    def at(self, st, el, lid, j):
        return z3.Select(st.mem[el.rid].segs[0].fields[0][2], oz(lid) * bv(B) + oz(j))

    def F(self, st):
        return self.S.vget(st, self.at_list, self.elF)

    def n(self, st):
        return self.elF.len(self.F(st))

    def fun(self, st, id):
        return self.at(st, self.elF, self.F(st), id)

    def has(self, st, i, k):
        return z3.Select(st.g(i['g']), k)

    def val(self, st, i, k):
        return z3.Select(self.S.field(st, i, 0), k)

    def list(self, st, k):
        return self.val(st, self.subs, k)

    def len(self, st, k):
        return z3.If(self.has(st, self.subs, k), self.elI.len(self.list(st, k)), bv(0))

    def id(self, st, k, j):
        return ext(self.at(st, self.elI, self.list(st, k), j))

    def live(self, st, id):
        return z3.And(z3.ULT(id, self.n(st)), self.fun(st, id) != bv(0))

    # ---- the class invariant, one instance each; new: (id, subscriber, place, name, function) of a listener added since
    G = dict(SUB=U('m_sub', BV64, BV64), NAME=U('m_name', BV64, BV64), POSN=U('m_posn', BV64, BV64), TID=U('m_tid', BV64, BV64), STID=U('m_stid', BV64, BV64))

    def g(self, new=None, moved=None):
        f = self.G
        w = lambda n, j: (lambda x: z3.If(x == new[0], new[j], f[n](x))) if new else f[n]
        posn = w('POSN', 2)
        if moved:
            base = posn
            posn = lambda x: z3.If(z3.And(moved[2], f['SUB'](x) == moved[0], z3.UGT(base(x), moved[1])), base(x) - bv(1), base(x))
        tid = f['TID'] if not new else lambda t: z3.If(t == new[4], new[0], f['TID'](t))
        stid = f['STID'] if not new else lambda t: z3.If(t == new[5], new[0], f['STID'](t))
        return w('SUB', 1), w('NAME', 3), posn, tid, stid

    def inv_list(self, st, k, i, G=None):
        SUB, NAME, POSN, TID, STID = G or self.g()
        d = self.id(st, k, i)
        return z3.Implies(z3.And(self.has(st, self.subs, k), z3.ULT(i, self.len(st, k))), z3.And(self.live(st, d), SUB(d) == k, POSN(d) == i))

    def inv_live(self, st, d, G=None):
        SUB, NAME, POSN, TID, STID = G or self.g()
        return z3.Implies(self.live(st, d), z3.And(z3.ULT(d, self.n(st)), self.has(st, self.subs, SUB(d)), z3.ULT(POSN(d), self.len(st, SUB(d))), self.id(st, SUB(d), POSN(d)) == d, self.has(st, self.names, NAME(d)),
                                                   ext(self.val(st, self.names, NAME(d))) == d, TID(self.fun(st, d)) == d))

    def inv_name(self, st, k, G=None):
        SUB, NAME, POSN, TID, STID = G or self.g()
        d = ext(self.val(st, self.names, k))
        return z3.Implies(self.has(st, self.names, k), z3.And(self.live(st, d), NAME(d) == k))

    def inv_stat(self, st, d, G=None):
        SUB, NAME, POSN, TID, STID = G or self.g()
        t = self.val(st, self.stats, d)
        return z3.Implies(self.has(st, self.stats, d), z3.And(self.live(st, d), t != bv(0), z3.ULT(t, W30), STID(t) == d))

    def inv_order(self, st, k, i, j):
        return z3.Implies(z3.And(self.has(st, self.subs, k), z3.ULT(i, j), z3.ULT(j, self.len(st, k))), z3.ULT(self.id(st, k, i), self.id(st, k, j)))

    def know(self, st, ids=(), lists=(), names=()):
        """instances of the invariant in the initial state"""
        s0 = self.s0
        for k in lists:
            st.assume(z3.ULT(self.list(s0, k), W30), z3.ULT(self.elI.len(self.list(s0, k)), CAP), (self.elI.len(self.list(s0, k)) == bv(0)) == (self.list(s0, k) == EMPTY))
            for i in self.idx:
                d = self.id(s0, k, i)
                st.assume(self.inv_list(s0, k, i), self.inv_live(s0, d), self.inv_stat(s0, d))
        for d in ids:
            st.assume(self.inv_live(s0, d), self.inv_stat(s0, d), z3.ULT(self.G['SUB'](d), W30), z3.ULT(self.G['NAME'](d), W30), z3.ULT(self.G['POSN'](d), CAP))
        for k in names:
            st.assume(self.inv_name(s0, k))

    def list_facts(self, st, lid, j, more=()):
        """what is known of a listener met in the list of the subscriber looked for"""
        s0 = self.s0
        for k in getattr(self, 'keys', []) + list(more):
            d = self.id(s0, k, j)
            st.assume(z3.Implies(lid == self.list(s0, k), z3.And(self.inv_list(s0, k, j), self.inv_live(s0, d), self.inv_stat(s0, d))))
            for x in getattr(self, 'foreign', []):
                st.assume(z3.Implies(z3.And(self.has(s0, self.subs, k), z3.ULT(j, self.len(s0, k)), self.has(s0, self.stats, d)), self.val(s0, self.stats, d) != x))

    # ---- iteration
    def keyat(self, i, j):
        return U('keyat_' + i['name'], BV64, BV64)(j)

    def index(self, i, k):
        return U('index_' + i['name'], BV64, BV64)(k)

    def count(self, i):
        return z3.BitVec('count_' + i['name'], 64)

    def iter_facts(self, st, i, j):
        s0 = self.s0
        n, k = self.count(i), self.keyat(i, j)
        st.assume(z3.ULT(n, CAP), self.keyat(i, n) == ENDKEY, z3.Implies(z3.ULT(j, n), z3.And(self.has(s0, i, k), self.index(i, k) == j, z3.ULT(k, W30), k != ENDKEY)))

    def visits(self, st, i, k):
        """an entry of the map is met"""
        st.assume(z3.Implies(self.has(self.s0, i, k), z3.And(z3.ULT(self.index(i, k), self.count(i)), self.keyat(i, self.index(i, k)) == k)))

    def incr(self, eng, st, I, a, fn):
        p = eng.load(st, a[0], PT)
        for i in self.maps:
            if isinstance(p, Ptr) and p.r == i['rid']:
                k = self.S.nodekey(i, p)
                pos = st.g('pos_' + i['name'])
                same = simp(k == self.keyat(i, pos))
                for q, eq in eng.branch(st, same):
                    if not eq:
                        if eng.suppress:
                            continue
                        raise Unsupported('an iterator that is not the current one')
                    st = q
                eng.oblige(st, "only existing entries are visited", z3.And(z3.ULT(pos, self.count(i)), st.g(i['g']) == self.s0.g(i['g'])), 'safety')
                st.setg('pos_' + i['name'], simp(pos + bv(1)))
                self.iter_facts(st, i, simp(pos + bv(1)))
                st.assume(*self.facts_of(st, i, self.keyat(i, simp(pos + bv(1)))))
                eng.store(st, a[0], self.node(i, self.keyat(i, simp(pos + bv(1)))), PT)
                return [(st, 'val', None)]
        raise Unsupported('iterating over an unmodelled map')

    def node(self, i, k):
        return self.S.node(i, k)

    facts = {}

    def facts_of(self, st, i, k):
        return [f(st, k) for f in self.facts.get(i['name'], [])]

    # ---- stored functions
    def stored(self, st, p, ty):
        t = fbv('stored', 64)
        r = st.new_region('stored function', 32, 'undef')
        q = Ptr(r.id, 0)
        if not self.S.isreal(st, p):
            raise Unsupported('a listener that is no wrapper')
        if ty.endswith('&&'):
            for o in (0, 8, 16, 24):
                try:
                    self.e.store(st, q.add(o), self.e.load(st, p.add(o), PT), PT)
                except Unsupported:
                    if o != 8:
                        raise
            self.S.unreal(st, p)
        else:
            st2 = self.one(st, 'm_fcopy', [q, p])
            if st2 is not st:
                raise Unsupported('a copied wrapper')
        st.assume(t != bv(0))
        self.e.oblige(st, "one function is stored per listener", st.ghost['stored'] is None)
        st.ghost['stored'] = (t, q)
        return t

    # ---- candidates
    def gen(self, eng, entry, hs, M, header):
        out = []
        for n, g, k in loop_vars(eng, entry, hs, M):
            if k == 'ptr' and isinstance(g(hs), Ptr):
                p = g(hs)
                if p.r == self.elI.rid:
                    H = lambda st, g=g: self.S.split(self.elI, g(st).o)
                    out.append(Cand(f'{n} stays in its list', lambda st, H=H: H(st)[0] == H(entry)[0]))
                    out.append(Cand(f'{n} within its list', lambda st, H=H: z3.ULE(H(st)[1], self.elI.len(H(st)[0]))))
                    out.append(Cand(f'as many listeners ran as were passed by {n}', lambda st, H=H: H(st)[1] == st.g('next')))
                    for nm, f in getattr(self, 'upto', []):
                        out.append(Cand(f'{nm} before {n}', lambda st, H=H, f=f: f(st, H(st)[1])))
                for i in self.maps:
                    if p.r == i['rid']:
                        K = lambda st, g=g, i=i: self.S.nodekey(i, g(st))
                        ps = lambda st, i=i: st.g('pos_' + i['name'])
                        out.append(Cand(f'{n} is the position', lambda st, K=K, i=i, ps=ps: K(st) == self.keyat(i, ps(st))))
                        for q, f in enumerate(self.facts.get(i['name'], [])):
                            out.append(Cand(f'{n} is a registered entry ({q})', lambda st, K=K, f=f: f(st, K(st))))
                        out.append(Cand(f'{n} within the entries', lambda st, i=i, ps=ps: z3.ULE(ps(st), self.count(i))))
                        out.append(Cand(f'{n} before the end is an entry', lambda st, K=K, i=i, ps=ps: z3.Implies(z3.ULT(ps(st), self.count(i)), z3.And(self.has(self.s0, i, K(st)), self.index(i, K(st)) == ps(st), z3.ULT(K(st), W30)))))
            elif k in (32, 64):
                for key in getattr(self, 'keys', []):
                    out.append(Cand(f'{n} within the list of {key}', lambda st, g=g, key=key: z3.ULE(ext(g(st)), self.len(self.s0, key))))
                out.append(Cand(f'{n} counts the listeners that ran', lambda st, g=g: ext(g(st)) == st.g('next')))
                for nm, f in getattr(self, 'upto', []):
                    out.append(Cand(f'{nm} before {n}', lambda st, g=g, f=f: f(st, ext(g(st)))))
        for nm, f in getattr(self, 'holds', []):
            out.append(Cand(nm, f))
        return out


def rets(X, st, fn, args, throws=None):
    n = 0
    for o in X.e.run_fn(st, X.ctx.fn(fn), args):
        if o[0] == 'throw':
            X.e.oblige(o[1], "no exception leaves the operation" if throws is None else "one-time listeners are refused", o[2][1] == throws)
            if o[2][1] == throws:
                n += 1
                yield o[1], 'throw'
        elif o[0] == 'ret':
            n += 1
            yield o[1], o[2]
    X.e.oblige(st, "the operation can complete", n > 0)


def unchanged(X, st, subs_but=None):
    """the registrations, but for the list of a subscriber without listeners"""
    s0, e = X.s0, X.e
    m = [st.g(i['g']) == s0.g(i['g']) for i in (X.names, X.stats)] + [X.S.field(st, i, 0) == X.S.field(s0, i, 0) for i in (X.names, X.stats)]
    m += [X.F(st) == X.F(s0), st.mem[X.elF.rid].segs[0].fields[0][2] == X.FT, st.mem[X.elI.rid].segs[0].fields[0][2] == X.IDS]
    m += [X.len(st, X.k) == X.len(s0, X.k), z3.Implies(z3.ULT(X.i, X.len(s0, X.k)), z3.And(X.has(st, X.subs, X.k), X.id(st, X.k, X.i) == X.id(s0, X.k, X.i))), st.g('att') == bv(0), st.g('det') == bv(0)]
    return z3.And(*m)


def unit_emit(ctx):
    X = Multi(ctx)
    e, st, s0 = X.e, X.s, X.s0
    key, sub = X.text(st, 'subscriber')
    time = fbv('time', 64)
    X.keys = [sub]
    X.know(st, lists=[sub, X.k])
    n0 = X.len(s0, sub)

    def call(st, I, f, args, P):
        j = st.g('next')
        X.list_facts(st, X.list(s0, sub), j)
        e.oblige(st, "the listeners of the subscriber run, each once and in the order of their registration", z3.And(z3.ULT(j, n0), f == X.fun(s0, X.id(s0, sub, j))))
        e.oblige(st, "no removed listener runs", f != bv(0))
        e.oblige(st, "listeners are given the event", isinstance(args[0], Ptr) and args[0].r == X.E.r and oz(args[0].o).eq(oz(X.E.o)))
        e.oblige(st, "listeners are told when the event was enqueued", e.load(st, args[1], I64) == time if isinstance(args[1], Ptr) else args[1] == time)
        st.setg('next', simp(j + bv(1)))
        return [(st, 'val', None)]

    X.S.on_call = call
    ctx.cover('some listeners', st, n0 == bv(2))
    for st, r in rets(X, st, 'm_emit', [X.U, key, time, X.E]):
        e.oblige(st, "every listener of the subscriber runs", st.g('next') == n0)
        e.oblige(st, "an emission changes no registration", unchanged(X, st))
        e.oblige(st, "an emission discards nothing", X.M.discarded(st) == X.d0)


def unit_discard(ctx):
    X = Multi(ctx)
    e, st, s0, w = X.e, X.s, X.s0, X.w
    key, sub = X.text(st, 'subscriber')
    x = fbv('foreign', 64)
    st.assume(z3.ULT(x, W30))
    X.keys, X.foreign = [sub], [x]
    X.know(st, ids=[w], lists=[sub, X.k])
    mine = z3.And(X.live(s0, w), X.G['SUB'](w) == sub, X.has(s0, X.stats, w))
    t = X.val(s0, X.stats, w)
    D = X.M.discarded
    st.assume(z3.Implies(mine, x != t))
    X.upto = [('events counted', lambda st, j: z3.Implies(mine, z3.Select(D(st), t) == z3.Select(X.d0, t) + z3.If(z3.ULT(X.G['POSN'](w), j), bv(1), bv(0))))]
    X.holds = [('foreign events not counted', lambda st: z3.Select(D(st), x) == z3.Select(X.d0, x))]
    ctx.cover('a listener', st, mine)
    for st, r in rets(X, st, 'm_discard', [X.U, key]):
        e.oblige(st, "a discarded event is counted once by every listener of the subscriber", z3.Implies(mine, z3.Select(D(st), t) == z3.Select(X.d0, t) + bv(1)))
        e.oblige(st, "a discarded event is counted by nobody else", z3.Select(D(st), x) == z3.Select(X.d0, x))
        e.oblige(st, "discarding changes no registration and runs nobody", z3.And(unchanged(X, st), st.g('next') == bv(0)))


def unit_once(ctx):
    X = Multi(ctx)
    st = X.s
    key, sub = X.text(st, 'subscriber')
    f = st.new_region('callback', 32)
    f.cells[0] = (8, fbv('callback', 64))
    X.know(st, lists=[X.k])
    for st, r in rets(X, st, 'm_once', [X.U, key, Ptr(f.id, 0)], '_ZTISt16invalid_argument'):
        X.e.oblige(st, "one-time listeners are refused, and nothing changes", z3.And(z3.BoolVal(r == 'throw'), unchanged(X, st)))


def unit_stats(ctx):
    X = Multi(ctx)
    e, st, s0 = X.e, X.s, X.s0
    out = st.new_region('result', 16)
    p = st.new_region('id', 4)
    idv = fbv('id', 32)
    X.know(st, ids=[ext(idv)], lists=[X.k])
    for st, r in rets(X, st, 'm_stats', [X.U, idv, Ptr(out.id, 0)]):
        v = e.load(st, Ptr(out.id, 0), I64)
        e.oblige(st, "statistics are those of the listener with the given id, if it has any", v == z3.If(X.has(s0, X.stats, ext(idv)), X.val(s0, X.stats, ext(idv)), bv(0)))
        e.oblige(st, "asking changes nothing", unchanged(X, st))


def keeps(X, st, G, lists, lives):
    """every instance of the invariant, afterwards; lists, lives: cases that are all there are"""
    e = X.e
    e.oblige(st, "the cases are all there are", z3.And(z3.Or(*lists), z3.Or(*lives)), 'lemma')
    for c in lists:
        e.oblige(st, "listeners in a list are registered under its subscriber", z3.Implies(c, X.inv_list(st, X.k, X.i, G)))
    for c in lives:
        e.oblige(st, "a registered listener is in the list of its subscriber, and has its name", z3.Implies(c, X.inv_live(st, X.w, G)))
    e.oblige(st, "a name is that of a registered listener", X.inv_name(st, X.nm, G))
    e.oblige(st, "statistics are kept for registered listeners only", X.inv_stat(st, X.w, G))


def unit_on(null):
    def run(ctx):
        X = Multi(ctx)
        e, st, s0, M = X.e, X.s, X.s0, X.M
        l, lv = X.text(st, 'listener')
        key, sub = X.text(st, 'subscriber')
        f = st.new_region('callback', 32)
        cb = fbv('callback', 64)
        st.assume(cb != bv(0), z3.ULT(cb, W30))
        f.cells[0] = (8, cb)
        C = M.container(null)
        d = X.id(s0, X.k, X.i)
        named, named2 = ext(X.val(s0, X.names, X.nm)), ext(X.val(s0, X.names, lv))
        X.idx = [X.w, X.i, X.G['POSN'](X.w), d, named]
        X.know(st, ids=[X.w, d, named, named2], lists=[sub, X.k, X.G['SUB'](X.w)], names=[lv, X.nm, X.G['NAME'](X.w)])
        old = X.has(s0, X.names, lv)
        new = X.n(s0)
        st.assume(z3.Not(X.has(s0, X.stats, new)))  # statistics are kept for registered listeners only
        ctx.cover('a new name', st, z3.Not(old))
        for st, r in rets(X, st, 'm_on', [X.U, C, l, key, Ptr(f.id, 0)]):
            stored = st.ghost['stored']
            if stored is None:
                e.oblige(st, "a listener is registered once per name", z3.And(old, ext(r) == ext(X.val(s0, X.names, lv))))
                e.oblige(st, "registering a name again changes nothing", unchanged(X, st))
                continue
            e.oblige(st, "a listener is registered if its name is new", z3.Not(old))
            e.oblige(st, "a new listener has an id of its own", ext(r) == new)
            n0 = X.len(s0, sub)
            mt = X.val(st, X.stats, new)
            tok = stored[0]
            st.assume(X.G['TID'](tok) == new)
            if not null:
                st.assume(X.G['STID'](st.g('mades')) == new)
            G = X.g((new, sub, n0, lv, tok, bv(0) if null else st.g('mades')))
            e.oblige(st, "the new listener is the last one of its subscriber", z3.And(X.live(st, new), X.n(st) == new + bv(1), X.fun(st, new) == tok, X.has(st, X.subs, sub), X.len(st, sub) == n0 + bv(1), X.id(st, sub, n0) == new))
            e.oblige(st, "its name is known", z3.And(X.has(st, X.names, lv), ext(X.val(st, X.names, lv)) == new))
            e.oblige(st, "other listeners stay", z3.And(z3.Implies(X.live(s0, X.w), X.fun(st, X.w) == X.fun(s0, X.w)), z3.Implies(X.k != sub, z3.And(X.len(st, X.k) == X.len(s0, X.k))), z3.Implies(z3.ULT(X.i, X.len(s0, X.k)), X.id(st, X.k, X.i) == d),
                                                        z3.Implies(X.nm != lv, z3.And(X.has(st, X.names, X.nm) == X.has(s0, X.names, X.nm), X.val(st, X.names, X.nm) == X.val(s0, X.names, X.nm))),
                                                        z3.Implies(X.w != new, z3.And(X.has(st, X.stats, X.w) == X.has(s0, X.stats, X.w), X.val(st, X.stats, X.w) == X.val(s0, X.stats, X.w)))))
            if null:
                e.oblige(st, "without a container a listener has no statistics", z3.And(z3.Not(X.has(st, X.stats, new)), st.g('att') == bv(0), st.g('det') == bv(0)))
            else:
                e.oblige(st, "a new listener has statistics of its own, attached once, under its name", z3.And(X.has(st, X.stats, new), mt != bv(0), st.g('made') == bv(1), mt == st.g('mades'), st.g('maden') == sub, st.g('madeo') == lv,
                                                                                                              st.g('att') == bv(1), st.g('atts') == mt, st.g('det') == bv(0)))
            own, w = X.G['SUB'](X.w) == sub, X.w == new
            keeps(X, st, G, [X.k != sub, z3.And(X.k == sub, X.i == n0), z3.And(X.k == sub, X.i != n0)], [w, z3.And(z3.Not(w), own), z3.And(z3.Not(w), z3.Not(own))])
            call_stored(X, st, stored[1], cb, bv(0) if null else st.g('mades'))

    return run


def call_stored(X, st, f, cb, mt):
    """the function that was stored runs the callback, measured by the statistics of the listener"""
    e, M = X.e, X.M
    time = fbv('time', 64)
    has = z3.is_true(simp(mt != bv(0))) or not z3.is_true(simp(mt == bv(0)))
    fo = M.off('a_enqueued')
    enq = lambda st: st.mem[M.str].segs[0].fields[fo][2]
    q0 = enq(st)

    def call(st, I, g, args, P):
        e.oblige(st, "the callback of the listener runs, with the event", z3.And(g == cb, z3.BoolVal(isinstance(args[0], Ptr) and args[0].r == X.E.r)))
        if has:
            e.oblige(st, "the measurement includes the callback", z3.And(st.g('started') == bv(1), st.g('stopped') == bv(0)))
        st.setg('calls', simp(st.g('calls') + bv(1)))
        return [(st, 'val', None)]

    X.S.on_call = call

    def meas(name):
        def h(eng, st, I, a, f):
            ok = isinstance(a[0], Ptr) and a[0].r == M.str
            eng.oblige(st, "statistics are the listener's own", X.S.quot(a[0].o, M.nst) == X.mt if ok else F_)
            st.setg(name, simp(st.g(name) + bv(1)))
            return [(st, 'val', None)]

        return h

    X.mt, X.has_mt = mt, has
    if not getattr(X, 'measured', False):
        X.measured = True
        first = len(e.contracts)
        e.contract(r'SubscriptionStats::startProcessMeasure', meas('started'))
        e.contract(r'SubscriptionStats::stopProcessMeasure', meas('stopped'))
        e.contracts[:] = e.contracts[first:] + e.contracts[:first]
    for st, r in rets(X, st, 'm_call', [f, X.E, time]):
        m = bv(1 if has else 0)
        e.oblige(st, "a listener that is told runs its callback once, measured once", z3.And(st.g('calls') == bv(1), st.g('started') == m, st.g('stopped') == m))
        if has:
            inc = st.ghost['now'] - time if 'now' in st.ghost else bv(0)
            e.oblige(st, "time spent in the queue is accounted", z3.Select(enq(st), mt) == z3.Select(q0, mt) + z3.If(time == bv(0), bv(0), inc))


def unit_removeall(null):
    def run(ctx):
        X = Multi(ctx)
        e, st, s0, M = X.e, X.s, X.s0, X.M
        C = M.container(null)
        w = X.w
        X.know(st, ids=[w], lists=[X.k])
        X.visits(st, X.stats, w)
        t = X.val(s0, X.stats, w)
        st.assume(z3.ULT(t, W30))
        count_det(X, t)

        X.facts = {'stats': [lambda st, k: X.inv_stat(s0, k)]}
        mine = X.has(s0, X.stats, w)
        X.holds = [('detached so far', lambda st: z3.Implies(mine, st.g('detn') == z3.If(z3.ULT(X.index(X.stats, w), st.g('pos_stats')), bv(1), bv(0))))]
        for st, r in rets(X, st, 'm_removeall', [X.U, C]):
            for i in X.maps:
                e.oblige(st, "no listener stays", st.g(i['g']) == z3.K(BV64, F_))
            e.oblige(st, "no listener stays", X.F(st) == EMPTY)
            if null:
                e.oblige(st, "without a container nothing is detached", st.g('det') == bv(0))
            else:
                e.oblige(st, "the statistics of every listener are detached, once", z3.Implies(mine, st.g('detn') == bv(1)))
            e.oblige(st, "nothing is attached", st.g('att') == bv(0))

    return run


def count_det(X, t):
    """how often the statistics t are detached"""
    X.s.setg('detn', bv(0))
    X.M.det_watch = t


def unit_remove(null):
    def run(ctx):
        X = Multi(ctx)
        e, st, s0, M = X.e, X.s, X.s0, X.M
        C = M.container(null)
        idv = fbv('id', 32)
        d = ext(idv)
        w, G = X.w, X.G
        X.idx = [w, X.i, G['POSN'](d), X.i + bv(1), G['POSN'](w), G['POSN'](w) - bv(1)]
        own = G['SUB'](d)
        X.keys = [own, X.k, G['SUB'](w)]
        st.assume(z3.ULT(d, CAP))
        X.know(st, ids=[d, w], lists=[own, X.k, G['SUB'](w)], names=[G['NAME'](d), G['NAME'](w), X.nm])
        was = X.live(s0, d)
        for i, k in ((X.names, G['NAME'](d)), (X.subs, own)):
            X.visits(st, i, k)

        def fact(st, k):
            l = X.list(s0, k)
            return z3.Implies(X.has(s0, X.subs, k), z3.And(z3.ULT(l, W30), z3.ULT(X.elI.len(l), CAP), (X.elI.len(l) == bv(0)) == (l == EMPTY)))

        X.facts = {'names': [lambda st, k: z3.And(X.inv_name(s0, k), X.inv_live(s0, ext(X.val(s0, X.names, k))))], 'subs': [fact]}
        X.holds = [('not met yet (names)', lambda st: z3.Implies(was, z3.ULE(st.g('pos_names'), X.index(X.names, G['NAME'](d))))),
                   ('not met yet (lists)', lambda st: z3.Implies(was, z3.ULE(st.g('pos_subs'), X.index(X.subs, own))))]
        ctx.cover('a listener', st, was)
        for st, r in rets(X, st, 'm_remove', [X.U, C, idv]):
            keep = z3.And(X.has(st, X.stats, w) == X.has(s0, X.stats, w), X.val(st, X.stats, w) == X.val(s0, X.stats, w))
            e.oblige(st, "the listener with the given id is removed", z3.Not(X.live(st, d)))
            e.oblige(st, "other listeners stay", z3.Implies(w != d, z3.And(X.live(st, w) == X.live(s0, w), z3.Implies(X.live(s0, w), X.fun(st, w) == X.fun(s0, w)), z3.Implies(X.live(s0, w), keep))))
            e.oblige(st, "ids are not given twice", X.n(st) == X.n(s0))
            e.oblige(st, "other names stay", z3.Implies(z3.And(X.has(s0, X.names, X.nm), z3.Or(z3.Not(was), X.nm != G['NAME'](d))), z3.And(X.has(st, X.names, X.nm), X.val(st, X.names, X.nm) == X.val(s0, X.names, X.nm))))
            t = X.val(s0, X.stats, d)
            hadt = z3.And(was, X.has(s0, X.stats, d))
            if null:
                e.oblige(st, "without a container nothing is detached", st.g('det') == bv(0))
            else:
                e.oblige(st, "the statistics of the removed listener are detached, once, and forgotten", z3.And(z3.If(hadt, z3.And(st.g('det') == bv(1), st.g('dets') == t), st.g('det') == bv(0)), z3.Not(X.has(st, X.stats, d))))
            e.oblige(st, "nothing is attached", st.g('att') == bv(0))
            G2 = X.g(moved=(own, G['POSN'](d), was))
            GG = tuple(G2)
            at, pw = G['POSN'](d), G['POSN'](w)
            us = G['SUB'](w) == own
            keeps(X, st, GG, [z3.Not(was), X.k != own, z3.And(X.k == own, z3.ULT(X.i, at)), z3.And(X.k == own, z3.UGE(X.i, at))], [z3.Not(was), z3.Not(us), z3.And(us, z3.ULT(pw, at)), z3.And(us, z3.UGE(pw, at))])
            e.oblige(st, "an unknown id removes nothing", z3.Implies(z3.Not(was), z3.And(X.len(st, X.k) == X.len(s0, X.k), z3.Implies(z3.ULT(X.i, X.len(s0, X.k)), X.id(st, X.k, X.i) == X.id(s0, X.k, X.i)))))

    return run


MULTI = [Unit('several: emit', unit_emit), Unit('several: discard', unit_discard), Unit('several: once', unit_once), Unit('several: statistics', unit_stats),
         Unit('several: on', unit_on(False)), Unit('several: on without container', unit_on(True))]
MULTI2 = [Unit('several: remove all', unit_removeall(False)), Unit('several: remove all without container', unit_removeall(True)), Unit('several: remove', unit_remove(False)), Unit('several: remove without container', unit_remove(True))]
for u in MULTI2[2:]:
    u.thorough = True  # a few minutes each
