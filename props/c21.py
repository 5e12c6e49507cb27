"""C21: a configuration gives back what was last set; merging adds what is new and replaces nothing"""
import re

import z3
from kvc.check import *
from kvc.cands import *
from kvc.stl import PT, I64, I32, I8, EMPTY, Stl, parse, base_name, simp, split_args, targs
from props.c18 import same
from props.c19 import MStl

HARNESS = 'c21_config.cpp'
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
NODE = 64  # libstdc++: 32 bytes of links, then the pair of a string and the value
TY = dict(i=I32, s=I64, b=I8)
SIZE = dict(i=4, s=32, b=1)
WID = dict(i=32, s=64, b=8)
CPP = dict(i='int', s='std::string', b='bool')


class CStl(MStl):
    """maps from names to properties: what is looked up gets a node of its own; everything else is an arbitrary initial content"""
    tokens = False
    maps_ = None

    def select(self, fn):
        if self.tokens:
            comps, params, tail = parse(fn.dem)
            comps = [c for c in comps if c not in ('__cxx11', '__detail', '_V2')]
            if len(comps) >= 3 and base_name(comps[-2]) == 'shared_ptr':
                return Stl.select(self, fn)
        return MStl.select(self, fn)

    # shared pointers as tokens, only where a loop copies them
    def shp_ctor(self, st, I, a, P, T):
        P = [p for p in P if p]
        if not P:
            self.e.store(st, a[0], bv(0), I64)
        elif len(P) == 1 and 'shared_ptr<' in P[0]:
            self.e.store(st, a[0], self.e.load(st, a[1], I64), I64)
            if P[0].endswith('&&'):
                self.e.store(st, a[1], bv(0), I64)
        else:
            raise Unsupported('shared_ptr from ' + ', '.join(P))
        return self.val(st)

    def shp_dtor(self, st, I, a, P, T):
        return self.val(st)

    def shp_opassign(self, st, I, a, P, T):
        self.shp_ctor(st, I, a, P, T)
        return self.val(st, a[0])

    def shp_conv(self, st, I, a, P, T):
        return self.val(st, self.e.load(st, a[0], I64) != bv(0))

    def info(self, p):
        for m in self.maps_:
            if same(p, m.at):
                return m
        raise Unsupported('an unmodelled map')

    def map_ctor(self, st, I, a, P, T):
        if [p for p in P if p and 'allocator' not in p]:
            raise Unsupported('map construction')
        return self.val(st)

    def map_find(self, st, I, a, P, T):
        return [(q, 'val', n or NULL) for q, n in self.info(a[0]).find(st, self.sget(st, a[1]))]

    def map_begin(self, st, I, a, P, T):
        return self.info(a[0]).begin(st)

    def map_end(self, st, I, a, P, T):
        return self.info(a[0]).end(st)

    map_cend, map_cbegin = map_end, map_begin

    def map_count(self, st, I, a, P, T):
        return [(q, 'val', bv(1 if n else 0)) for q, n in self.info(a[0]).find(st, self.sget(st, a[1]))]

    def map_contains(self, st, I, a, P, T):
        return [(q, 'val', T_ if n else F_) for q, n in self.info(a[0]).find(st, self.sget(st, a[1]))]

    def map_at(self, st, I, a, P, T):
        return [(q, 'val', n.add(NODE)) if n else (q, 'throw', self.e.throw_new(q, '_ZTISt12out_of_range')) for q, n in self.info(a[0]).find(st, self.sget(st, a[1]))]

    def map_opindex(self, st, I, a, P, T):
        m, k = self.info(a[0]), self.sget(st, a[1])
        return [(q, 'val', n.add(NODE)) for q, n, new in m.put(st, k, None, '', False)]

    def put(self, st, m, k, v, ty, assign):
        return [(q, 'val', Agg([n, bv(1 if new else 0, 8)])) for q, n, new in m.put(st, k, v, ty, assign)]

    def map_insert(self, st, I, a, P, T):
        if len(a) != 2 or not re.match(r'std::pair<', P[0]):
            raise Unsupported('insert')
        return self.put(st, self.info(a[0]), self.sget(st, a[1]), a[1].add(32), targs(P[0])[1] + ('&&' if P[0].endswith('&&') else ' const&'), False)

    def map_emplace(self, st, I, a, P, T):
        if len(P) == 1:
            return self.map_insert(st, I, a, P, T)
        return self.put(st, self.info(a[0]), self.sget(st, a[1]), a[2], P[1], False)

    map_try_emplace = map_emplace

    def map_insert_or_assign(self, st, I, a, P, T):
        return self.put(st, self.info(a[0]), self.sget(st, a[1]), a[2], P[1], True)

    def map_erase(self, st, I, a, P, T):
        self.e.oblige(st, "no property is removed", False)
        raise Infeasible()

    map_clear = map_erase

    def map_empty(self, st, I, a, P, T):
        return self.map_size(st, I, a, P, T) == bv(0)

    def map_size(self, st, I, a, P, T):
        m = self.info(a[0])
        if not isinstance(m, Source):
            raise Unsupported('the size of this map')
        return m.n


class Map:
    """any map; `t`: the type of its values; dyn: they are shared properties of any type, those looked up have type t"""

    def __init__(self, M, s, at, t, dyn=False, name='m'):
        self.M, self.e, self.at, self.t, self.dyn, self.name = M, M.e, at, t, dyn, name
        self.P = z3.Array('P_' + name, BV64, z3.BoolSort())
        self.V = z3.Array('V_' + name, BV64, z3.BitVecSort(WID[t]))
        s.ghost['ents_' + name] = ()
        M.S.maps_.append(self)

    def ents(self, st):
        return st.ghost['ents_' + self.name]

    def node(self, st, k, old):
        n = Ptr(st.new_region('node', None, 'undef').id, 0)
        self.M.S.sset(st, n.add(32), k)
        st.ghost['ents_' + self.name] = self.ents(st) + ((k, n, old),)
        return n

    def known(self, st, k):
        """[(state, node, its key is k)]"""
        out = []
        for key, n, old in self.ents(st):
            nxt = None
            for q, eq in self.e.branch(st, simp(key == k)):
                if eq:
                    out.append((q, n))
                else:
                    nxt = q
            if nxt is None:
                return out, None
            st = nxt
        return out, st

    def find(self, st, k):
        out, st = self.known(st, k)
        if st is not None:
            for q, has in self.e.branch(st, z3.Select(self.P, k)):
                if not has:
                    out.append((q, None))
                    continue
                n = self.node(q, k, None)
                v = self.M.put_value(q, self.t, z3.Select(self.V, k))
                q = self.M.one(q, ('h_mk_' if self.dyn else 'h_prop_') + self.t, [n.add(NODE), v], 'a property')
                if self.dyn:
                    q.ghost['ents_' + self.name] = tuple((a, b, self.e.load(q, n.add(NODE), PT) if b is n else c) for a, b, c in self.ents(q))
                    # others may hold it too
                    c = self.e.load(q, n.add(NODE + 8), PT)
                    self.e.store(q, c.add(8), bv(2, 32), I32)
                out.append((q, n))
        return out

    def begin(self, st):
        raise Unsupported('iterating over this map')

    def end(self, st):
        return NULL

    def make(self, st, at, v, ty):
        """the value of a new node"""
        e, M = self.e, self.M
        if self.dyn:
            if v is None:
                e.store(st, at, NULL, PT)
                e.store(st, at.add(8), NULL, PT)
                return st
            if 'shared_ptr<' not in ty:
                raise Unsupported('a property from ' + ty)
            p, c = e.load(st, v, PT), e.load(st, v.add(8), PT)
            e.store(st, at, p, PT)
            e.store(st, at.add(8), c, PT)
            if ty.endswith('&&'):
                e.store(st, v, NULL, PT)
                e.store(st, v.add(8), NULL, PT)
            else:
                e.store(st, c.add(8), e.load(st, c.add(8), I32) + bv(1, 32), I32)
            return st
        if v is None:
            v = M.put_value(st, self.t, M.zero(self.t))
        elif 'Property<' in ty:
            v = M.ctx.acc('a_pv_' + self.t, v)
        return M.one(st, 'h_prop_' + self.t, [at, v], 'a property')

    def put(self, st, k, v, ty, assign):
        """[(state, node, it is new)]"""
        out = []
        for q, n in self.find(st, k):
            if n is None:
                n = self.node(q, k, None)
                q = self.make(q, n.add(NODE), v, ty)
                out.append((q, n, True))
            elif assign:
                if self.dyn:
                    raise Unsupported('insert_or_assign of a shared property')
                q = self.make(q, n.add(NODE), v, ty)
                out.append((q, n, False))
            else:
                out.append((q, n, False))
        return out

    # ---- what is in it
    def value(self, st, n):
        p = self.e.load(st, n.add(NODE), PT) if self.dyn else n.add(NODE)
        return self.M.ctx.acc('a_pv_' + self.t, p)

    def holds(self, st, k, v, t=None):
        """k is present with value v"""
        rest = z3.And(z3.Select(self.P, k), z3.Select(self.V, k) == v) if t in (None, self.t) else F_
        for key, n, old in reversed(self.ents(st)):
            ok = F_
            if not self.dyn:
                ok = self.M.get_value(st, self.t, self.value(st, n)) == v
            elif self.M.dyntype(st, self.e.load(st, n.add(NODE), PT)) == (t or self.t):
                ok = self.M.get_value(st, t or self.t, self.M.ctx.acc('a_pv_' + (t or self.t), self.e.load(st, n.add(NODE), PT))) == v
            rest = z3.If(key == k, ok, rest)
        return rest

    def present(self, st, k):
        r = z3.Select(self.P, k)
        for key, n, old in self.ents(st):
            r = z3.Or(r, key == k)
        return r

    def others_stay(self, st, k):
        """every name but k has what it had"""
        x = self.M.other
        return z3.Implies(x != k, z3.And(self.present(st, x) == z3.Select(self.P, x), z3.Implies(z3.Select(self.P, x), self.holds(st, x, z3.Select(self.V, x)))))


class Source:
    """the map a loop copies from: `size` entries at any names with any values"""

    def __init__(self, M, s, at, t, dyn=False):
        self.M, self.at, self.t, self.dyn = M, at, t, dyn
        self.n = fbv('size', 64)
        s.assume(z3.ULT(self.n, bv(1 << 24)))
        self.K = z3.Array('names', BV64, BV64)
        r = s.new_region('source', None)
        self.stride = NODE + 64
        val = {NODE: ['int', 8, z3.Array('props', BV64, BV64)]} if dyn else {NODE: ['opaque', 8, None], NODE + 8: ['opaque', 8, None], NODE + M.off(t): ['int', 8 if t == 's' else SIZE[t], z3.Array('vals', BV64, z3.BitVecSort(WID[t]))]}
        self.V = val[NODE if dyn else NODE + M.off(t)][2]
        r.segs.append(Seg(0, self.n, self.stride, {32: ['int', 8, self.K], **val}, name='entries'))
        self.rid = r.id
        M.S.maps_.append(self)

    def begin(self, st):
        self.M.e.oblige(st, "a configuration is copied in one pass", z3.Not(st.g('walked')))
        st.setg('walked', T_)
        st.setg('pos', bv(0))
        return Ptr(self.rid, 0)

    def end(self, st):
        return Ptr(self.rid, self.n * bv(self.stride))

    def inc(self, st, p):
        j = self.M.S.quot(p.o, self.stride)
        self.M.e.oblige(st, "only existing entries are visited", z3.ULT(j, self.n), 'safety')
        for m in self.M.S.maps_:
            if isinstance(m, Target):
                m.settle(st)
        st.setg('pos', simp(j + bv(1)))
        return p.add(self.stride)

    def find(self, st, k):
        raise Unsupported('looking into the source')

    put = find


class Target:
    """the map a loop copies into: what it already holds is arbitrary"""

    def __init__(self, M, s, at, src, root):
        self.M, self.at, self.src, self.root = M, at, src, root
        M.S.maps_.append(self)

    begin = Map.begin
    end = Map.end

    def mine(self, st, k):
        """is this the name the current property is copied under?"""
        return k == self.M.full(st, z3.Select(self.src.K, st.g('pos')), self.root)

    def node(self, st, kind, v, old):
        """the entry of the current name; `v`: where the property in it is made from"""
        M, t = self.M, self.src.t
        n = Ptr(st.new_region('node', None, 'undef').id, 0)
        if self.src.dyn:
            M.e.store(st, n.add(NODE), v, I64)
        else:
            M.one(st, 'h_prop_' + t, [n.add(NODE), v], 'a property')
        st.ghost['cur'] = (kind, n, old)
        return n

    def taken(self, st):
        st.setg('failed', T_)
        st.setg('done', simp(z3.Or(st.g('done'), st.g('pos') == self.M.w)))
        old = fbv('taken', 64) if self.src.dyn else self.M.fresh(st, self.src.t, 'taken')
        return self.node(st, 'taken', old if self.src.dyn else self.M.put_value(st, self.src.t, old), old)

    def find(self, st, k):
        out = []
        for q, eq in self.M.e.branch(st, simp(self.mine(st, k))):
            if not eq:
                if self.M.e.suppress:  # looking for invariants; the final pass decides
                    continue
                raise Unsupported('looking for another name')
            cur = q.ghost['cur']
            if cur is not None:
                out.append((q, cur[1]))
                continue
            q2 = q.copy()
            q2.ghost['cur'] = ('absent', None, None)
            out += [(q, self.taken(q)), (q2, None)]
        return out

    def put(self, st, k, v, ty, assign):
        M, e = self.M, self.M.e
        cur, out = st.ghost['cur'], []
        e.oblige(st, "what is copied exists", z3.ULT(st.g('pos'), self.src.n))
        e.oblige(st, "a property is copied under its name, below the given root", self.mine(st, k))
        if cur is None:
            q = st.copy()
            out.append((q, self.taken(q), False))
        if cur is None or cur[0] == 'absent':
            e.oblige(st, "a property is copied once", z3.Implies(st.g('pos') == M.w, z3.Not(st.g('done'))))
            st.setg('done', simp(z3.Or(st.g('done'), st.g('pos') == M.w)))
            if self.src.dyn:
                x = bv(0) if v is None else e.load(st, v, I64)
            else:
                x = M.put_value(st, self.src.t, M.zero(self.src.t)) if v is None else M.ctx.acc('a_pv_' + self.src.t, v) if 'Property<' in ty else v
            out.append((st, self.node(st, 'put', x, None), True))
        else:
            out.append((st, cur[1], False))
        if assign:
            e.oblige(out[0][0], "a copy leaves the properties that exist", False) if not out[0][2] else None
            out = [o for o in out if o[2]]
        return out

    def settle(self, st):
        cur, M = st.ghost['cur'], self.M
        if cur is None or cur[0] == 'absent':
            st.ghost['cur'] = None
            return
        kind, n, old = cur
        if self.src.dyn:
            v = M.e.load(st, n.add(NODE), I64)
            if not z3.is_bv(v):
                raise Unsupported('a shared property of another kind')
        else:
            v = M.get_value(st, self.src.t, M.ctx.acc('a_pv_' + self.src.t, n.add(NODE)))
        if kind == 'taken':
            M.e.oblige(st, "a copy leaves the properties that exist", v == old)
        else:
            M.e.oblige(st, "a property is copied with its value", v == z3.Select(self.src.V, st.g('pos')))
        st.ghost['cur'] = None


class Conf:
    def __init__(self, ctx):
        self.ctx, self.e = ctx, ctx.eng
        e = self.e
        self.s = s = ctx.state()
        self.S = CStl(ctx, s)
        self.S.maps_ = []
        s.ghost.update(walked=F_, pos=bv(0), done=F_, failed=F_, cur=None)
        if '__libc_single_threaded' in ctx.mod.globals:
            e.load_global(s, '@__libc_single_threaded')
            e.store(s, Ptr('@__libc_single_threaded', 0), bv(0, 8), I8)
        c, first = e.contract, len(e.contracts)
        c(r'^__dynamic_cast$', self.dyncast)
        c(r'^std::type_info::operator(==|!=)\(', self.tieq)
        c(r'^std::type_info::name\(', lambda eng, st, I, a, fn: Ptr(st.new_region('type name', 64).id, 0))
        c(r'^std::_Rb_tree_increment\(', self.inc)
        e.contracts[:] = e.contracts[first:] + e.contracts[:first]
        e.cand_gens = [scalar_gen(), self.gen]
        self.w = None
        self.other = fbv('another', 64)
        self.K, self.k = self.text(s, 'name')
        self.R, self.root = self.text(s, 'root')

    def off(self, t):
        return self.ctx.acc('a_pv_' + t, Ptr(self.s.new_region('probe', 64).id, 0)).o

    def text(self, s, n):
        v = fbv(n, 64)
        s.assume(z3.ULT(v, bv(1 << 30)))
        p = Ptr(s.new_region(n, 32, 'undef').id, 0)
        self.S.sset(s, p, v)
        return p, v

    def full(self, st, k, root):
        return z3.If(root == EMPTY, k, self.S.cat(st, self.S.cat(st, root, self.S.lit('/')), k))

    def zero(self, t):
        return EMPTY if t == 's' else bv(0, WID[t])

    def fresh(self, st, t, name):
        v = fbv(name, WID[t])
        if t == 's':
            st.assume(z3.ULT(v, bv(1 << 30)))
        if t == 'b':
            st.assume(z3.ULE(v, bv(1, 8)))
        return v

    def put_value(self, st, t, v):
        p = Ptr(st.new_region('value', SIZE[t], 'undef').id, 0)
        if t == 's':
            st.assume(z3.ULT(v, bv(1 << 30)))
            self.S.sset(st, p, v)
        else:
            if t == 'b':
                st.assume(z3.ULE(v, bv(1, 8)))
            self.e.store(st, p, v, TY[t])
        return p

    def get_value(self, st, t, p):
        v = self.e.load(st, p, TY[t])
        return v if z3.is_bv(v) else z3.If(v, bv(1, 8), bv(0, 8))

    def one(self, st, fn, args, what):
        outs = [o for o in self.e.run_fn(st, self.ctx.fn(fn), args) if o[0] in ('ret', 'throw')]
        if len(outs) != 1 or outs[0][0] != 'ret':
            raise Unsupported(f'{what}: {[o[0] for o in outs]}')
        return outs[0][1]

    def rets(self, st, fn, args, what):
        n = 0
        for o in self.e.run_fn(st, self.ctx.fn(fn), args):
            if o[0] == 'throw':
                self.e.oblige(o[1], what + " does not throw", False)
            elif o[0] == 'ret':
                n += 1
                yield o[1], o[2]
                if n == 1:
                    self.ctx.cover(what + ' completes', o[1])
        self.e.oblige(st, what + " can complete", n > 0)

    # ---- types at run time
    def vtable(self, st, p):
        v = self.e.load(st, p, PT)
        if not (isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith('@_ZTVN4kpsr')):
            raise Unsupported('an object of unknown type')
        return v.r[5:]

    def dyntype(self, st, p):
        n = self.vtable(st, p)
        m = re.match(r'N4kpsr8PropertyI(i|b|f|NSt.*)EE$', n)
        return {'i': 'i', 'b': 'b', 'f': 'f'}.get(m.group(1), 's') if m else None

    def dyncast(self, eng, st, I, a, fn):
        p = a[0]
        if p.r is None:
            return NULL
        want = a[2].r
        return p if '@_ZTI' + self.vtable(st, p) == want else NULL

    def tieq(self, eng, st, I, a, fn):
        if not all(isinstance(x, Ptr) and isinstance(x.r, str) and x.r.startswith('@_ZTI') for x in a[:2]):
            raise Unsupported('comparing unknown types')
        return z3.BoolVal((a[0].r == a[1].r) == ('operator==' in fn.dem))

    def inc(self, eng, st, I, a, fn):
        for m in self.S.maps_:
            if isinstance(m, Source) and isinstance(a[0], Ptr) and a[0].r == m.rid:
                return m.inc(st, a[0])
        raise Unsupported('iterating over an unmodelled map')

    def gen(self, eng, entry, hs, M, header):
        src = [m for m in self.S.maps_ if isinstance(m, Source)]
        out = []
        if not src or self.w is None:
            return out
        src, w = src[0], self.w
        out.append(Cand('copied so far', lambda st: st.g('done') == z3.And(z3.ULT(w, st.g('pos')), z3.ULT(w, src.n))))
        out.append(Cand('one pass', lambda st: st.g('walked')))
        for n, g, k in loop_vars(eng, entry, hs, M):
            if k == 'ptr' and isinstance(g(hs), Ptr) and g(hs).r == src.rid:
                J = lambda st, g=g: self.S.quot(g(st).o, src.stride)
                out.append(Cand(f'{n} is the position', lambda st, J=J: J(st) == st.g('pos')))
                out.append(Cand(f'{n} is within', lambda st, J=J: z3.ULE(J(st), src.n)))
            if k in (1, 8, 32, 64) or k == 'int':
                try:
                    v = g(hs)
                except Exception:
                    continue
                if z3.is_bv(v) and v.size() >= 32:
                    out.append(Cand(f'{n} counts no success', lambda st, g=g: (g(st) == bv(0, g(st).size())) == z3.Not(st.g('failed'))))
                    out.append(Cand(f'{n} is bounded by the position', lambda st, g=g: z3.ULE(g(st) if g(st).size() == 64 else z3.ZeroExt(64 - g(st).size(), g(st)), st.g('pos'))))
                if z3.is_bv(v) and v.size() == 8:
                    out.append(Cand(f'{n} tells success', lambda st, g=g: g(st) == z3.If(st.g('failed'), bv(0, 8), bv(1, 8))))
                    out.append(Cand(f'{n} tells failure', lambda st, g=g: g(st) == z3.If(st.g('failed'), bv(1, 8), bv(0, 8))))
        return out


# ---------------------------------------------------------------- one type
def unit_get(t):
    def run(ctx):
        M = Conf(ctx)
        e, s = M.e, M.s
        P = Ptr(s.new_region('configuration', ctx.const('c_cp_' + t)).id, 0)
        m = Map(M, s, ctx.acc('a_cpm_' + t, P), t)
        v0 = M.fresh(s, t, 'before')
        v = M.put_value(s, t, v0)
        for st, r in M.rets(s, 'h_get_' + t, [P, M.K, v], 'asking'):
            x = M.get_value(st, t, v)
            e.oblige(st, "asking says whether the property was set", r == z3.Select(m.P, M.k))
            e.oblige(st, "asking gives the value that was set, and leaves the target alone otherwise", x == z3.If(z3.Select(m.P, M.k), z3.Select(m.V, M.k), v0))
            e.oblige(st, "asking changes nothing", z3.And(m.others_stay(st, EMPTY - bv(1)), M.S.sget(st, M.K) == M.k))

    return run


def unit_set(t):
    def run(ctx):
        M = Conf(ctx)
        e, s = M.e, M.s
        P = Ptr(s.new_region('configuration', ctx.const('c_cp_' + t)).id, 0)
        m = Map(M, s, ctx.acc('a_cpm_' + t, P), t)
        x = M.fresh(s, t, 'value')
        v = M.put_value(s, t, x)
        for st, r in M.rets(s, 'h_set_' + t, [P, M.K, v], 'setting'):
            e.oblige(st, "a property has the value that was set last", m.holds(st, M.k, x))
            e.oblige(st, "setting a property touches no other", m.others_stay(st, M.k))
            e.oblige(st, "setting succeeds", r)
            e.oblige(st, "setting leaves the value that is passed alone", z3.And(M.get_value(st, t, v) == x, M.S.sget(st, M.K) == M.k))

    return run


def unit_copy(t):
    def run(ctx):
        dyn = t == 'd'
        M = Conf(ctx)
        e, s = M.e, M.s
        M.S.tokens = dyn
        n = 'c_dp' if dyn else 'c_cp_' + t
        acc = 'a_dpm' if dyn else 'a_cpm_' + t
        P, O = (Ptr(s.new_region(x, ctx.const(n)).id, 0) for x in ('configuration', 'another'))
        src = Source(M, s, ctx.acc(acc, O), t, dyn)
        target = Target(M, s, ctx.acc(acc, P), src, M.root)
        M.w = fbv('entry', 64)
        s.assume(z3.ULT(M.w, src.n))
        k = z3.BitVec('kk', 64)
        s.assume(z3.ForAll([k], z3.ULT(z3.Select(src.K, k), bv(1 << 30))))
        if t == 'b':
            s.assume(z3.ForAll([k], z3.ULE(z3.Select(src.V, k), bv(1, 8))))
        for st, r in M.rets(s, 'h_dcopy' if dyn else 'h_copy_' + t, [P, O, M.R], 'copying'):
            target.settle(st)
            ctx.cover('copying ends', st)
            e.oblige(st, "every property is copied", st.g('done'))
            if not dyn:
                e.oblige(st, "copying reports whether a name was taken", r == z3.Not(st.g('failed')))
            e.oblige(st, "copying changes neither the source nor the root", z3.And(z3.BoolVal(st.mem[src.rid].segs[0].fields[32][2].eq(src.K)), M.S.sget(st, M.R) == M.root))

    return run


# ---------------------------------------------------------------- any type
def unit_dget(stored):
    def run(ctx):
        for t in 'isb':
            M = Conf(ctx)
            e, s = M.e, M.s
            P = Ptr(s.new_region('configuration', ctx.const('c_dp')).id, 0)
            m = Map(M, s, ctx.acc('a_dpm', P), stored, True)
            v0 = M.fresh(s, t, 'before')
            v = M.put_value(s, t, v0)
            for st, r in M.rets(s, 'h_dget_' + t, [P, M.K, v], 'asking'):
                has = z3.And(z3.Select(m.P, M.k), z3.BoolVal(t == stored))
                e.oblige(st, "asking says whether a property of this type was set", r == has)
                e.oblige(st, "asking gives the value that was set, and leaves the target alone otherwise", M.get_value(st, t, v) == (z3.If(has, z3.Select(m.V, M.k), v0) if t == stored else v0))
                e.oblige(st, "asking changes nothing", m.others_stay(st, EMPTY - bv(1)))

    return run


def unit_dset(stored):
    def run(ctx):
        for t in 'isb':
            M = Conf(ctx)
            e, s = M.e, M.s
            P = Ptr(s.new_region('configuration', ctx.const('c_dp')).id, 0)
            m = Map(M, s, ctx.acc('a_dpm', P), stored, True)
            x = M.fresh(s, t, 'value')
            v = M.put_value(s, t, x)
            for st, r in M.rets(s, 'h_dset_' + t, [P, M.K, v], 'setting'):
                was = z3.Select(m.P, M.k)
                if t == stored:
                    e.oblige(st, "a property has the value that was set last", m.holds(st, M.k, x))
                    e.oblige(st, "setting succeeds", r)
                else:
                    e.oblige(st, "a property of another type is not replaced", z3.If(was, m.holds(st, M.k, z3.Select(m.V, M.k)), m.holds(st, M.k, x, t)))
                    e.oblige(st, "setting says whether it was done", r == z3.Not(was))
                e.oblige(st, "setting a property touches no other", m.others_stay(st, M.k))
                for key, n, old in m.ents(st):
                    if old is not None:
                        e.oblige(st, "a configuration that shares the property keeps its value", M.get_value(st, stored, ctx.acc('a_pv_' + stored, old)) == z3.Select(m.V, key))

    return run


# ---------------------------------------------------------------- environments
def env(ctx):
    M = Conf(ctx)
    s = M.s
    P = Ptr(s.new_region('environment', ctx.const('c_ce')).id, 0)
    s = M.one(s, 'h_ce', [P], 'an environment')
    return M, s, P, {t: Map(M, s, ctx.acc('a_cpm_' + t, ctx.acc('a_ce_' + t, P)), t, name=t) for t in 'isb'}


def unit_eget(t):
    def run(ctx):
        M, s, P, maps = env(ctx)
        e, m = M.e, maps[t]
        v0, d = M.fresh(s, t, 'before'), M.fresh(s, t, 'fallback')
        v, dp = M.put_value(s, t, v0), M.put_value(s, t, d)
        k = M.full(s, M.k, M.root)
        for st, r in M.rets(s, 'h_eget_' + t, [P, M.K, v, dp, M.R], 'asking'):
            has = z3.Select(m.P, k)
            e.oblige(st, "asking says whether the property was set below the root", r == has)
            e.oblige(st, "asking gives the value that was set, or the fallback", M.get_value(st, t, v) == z3.If(has, z3.Select(m.V, k), d))
            e.oblige(st, "asking changes nothing", z3.And(*[x.others_stay(st, EMPTY - bv(1)) for x in maps.values()]))

    return run


def unit_eset(t):
    def run(ctx):
        M, s, P, maps = env(ctx)
        e, m = M.e, maps[t]
        x = M.fresh(s, t, 'value')
        v = M.put_value(s, t, x)
        k = M.full(s, M.k, M.root)
        for st, r in M.rets(s, 'h_eset_' + t, [P, M.K, v, M.R], 'setting'):
            e.oblige(st, "a property has the value that was set last", m.holds(st, k, x))
            e.oblige(st, "setting a property touches no other", z3.And(m.others_stay(st, k), *[y.others_stay(st, EMPTY - bv(1)) for y in maps.values() if y is not m]))

    return run


def unit_ecopy(ctx):
    M = Conf(ctx)
    e, s = M.e, M.s
    P, O = (Ptr(s.new_region(x, ctx.const('c_ce')).id, 0) for x in ('environment', 'another'))
    s.ghost['copies'] = ()
    res = {t: fbv('ok_' + t, 1) for t in 'isfb'}

    def copy(eng, st, I, a, fn):
        for t in 'isfb':
            if same(a[0], ctx.acc('a_ce_' + t, P)):
                eng.oblige(st, "properties are copied from the configuration given, below its root", z3.And(z3.BoolVal(same(a[1], ctx.acc('a_ce_' + t, O))), M.S.sget(st, a[2]) == M.root))
                st.ghost['copies'] = st.ghost['copies'] + (t,)
                return res[t]
        raise Unsupported('copying into something else')

    e.contracts.insert(0, (re.compile(r'^kpsr::ConfigurationProperties<.*>::copyFrom\('), copy))
    for st, r in M.rets(s, 'h_ecopy', [P, O, M.R], 'merging'):
        e.oblige(st, "properties of every type are merged, once", sorted(st.ghost['copies']) == sorted('isfb'))
        e.oblige(st, "merging reports whether a name was taken", r == z3.And(*res.values()))


UNITS = [Unit(f'{CPP[t]}: {n}', f(t)) for t in 'isb' for n, f in (('get', unit_get), ('set', unit_set), ('copy', unit_copy))]
UNITS += [Unit('any type: copy', unit_copy('d'))]
UNITS += [Unit(f'any type: {n}, {CPP[t]} stored', f(t)) for t in 'isb' for n, f in (('get', unit_dget), ('set', unit_dset))]
UNITS += [Unit(f'environment: {n} {CPP[t]}', f(t)) for t in 'isb' for n, f in (('get', unit_eget), ('set', unit_eset))]
UNITS += [Unit('environment: merge', unit_ecopy)]
CONFIGS = [('default', ())]
CFLAGS = ('-I', f'{VERIF}/harness/sdk')
DRIVERS = [dict(src='d21.cpp', flags=['-O0', '-g0', '-I', f'{VERIF}/harness/stubs', '-I', f'{VERIF}/harness/sdk'], san=['-fsanitize=address'], libs=['-lpthread'], secs=5)]
ASSUMPTIONS = ['the KlepsydraSDK interface of environments is a stand-in in harness/sdk, as it is not part of the repository',
               'std::map and std::string by contract (any contents, any number of properties); a shared property may be held by other configurations as well',
               'run-time type information tells the types of properties apart; logging has no effect on a configuration',
               'a configuration is not merged into itself, and is used by one thread; configurations of float properties are the same template, run by the driver only',
               'reading and writing JSON (cereal) is covered by the bounded driver only']
BOUNDED = 'random histories of up to 14 operations on two environments and two dynamic configurations against plain maps: settings of all four types, merges, files (in a scratch directory), exports and updates, broken files'
EXPLANATION = 'every operation of the three configuration classes for any contents, name, root and value; copying by a loop invariant for any number of properties'
