"""Contracts on std::string, vector, unordered_map, queue, function and shared_ptr as abstract values.

 * a string is a content id (equal ids = equal contents); literals have fixed ids, concatenation is a function of its
   flattened parts
 * a vector is a list id: length and elements are functions of it, appending makes another list (lists are values, so a
   copy is the same list); element k of list l lives at index l * 2^24 + k of the region of its element type
 * an unordered_map is a presence array over key ids plus one node per possible key
 * a queue is a head and tail index over a content function
 * a std::function is an id; calling it is the unit's business
 * a shared_ptr is the pointer it holds (its counting is C02's subject)
"""
import re
import z3
from .engine import *
from .lib import const_bytes
from .cands import Cand

B = 1 << 24
LIM = 1 << 40
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


class _T:
    def __init__(self, kind, size):
        self.kind, self.size, self.width = kind, size, 8 * size


PT, I8, I32, I64 = _T('ptr', 8), _T('int', 1), _T('int', 4), _T('int', 8)


def parse(dem):
    """(scope components, parameter text) of a demangled function name"""
    depth, i, n = 0, 0, len(dem)
    cur, comps, start = '', [], 0
    while i < n:
        c = dem[i]
        if depth == 0 and dem.startswith('operator', i) and (i == 0 or not (dem[i - 1].isalnum() or dem[i - 1] == '_')):
            m = re.match(r'operator(\(\)|\[\]|->\*?|<=>|<<=?|>>=?|<=|>=|[-+*/%^&|~!=<>,]=?|=|&&|\|\||\+\+|--| new\[?\]?| delete\[?\]?| [\w:]+( const)?[*&]*)', dem[i:])
            # the longest plain operator
            for op in ('operator()', 'operator[]', 'operator->', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator==', 'operator!=', 'operator++', 'operator--', 'operator&&', 'operator||', 'operator+=', 'operator-='):
                if dem.startswith(op, i):
                    cur += op
                    i += len(op)
                    break
            else:
                if m:
                    cur += m.group(0)
                    i += len(m.group(0))
                else:
                    cur += 'operator'
                    i += 8
            continue
        if c in '<([{':
            if c == '(' and depth == 0:
                if dem.startswith('(anonymous namespace)', i):
                    cur += '(anonymous namespace)'
                    i += 21
                    continue
                comps.append(cur)
                # parameters up to the matching parenthesis
                d, j = 0, i
                while j < n:
                    if dem[j] in '(':
                        d += 1
                    elif dem[j] == ')':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                if dem.startswith('::', j + 1):  # something inside a function, e.g. a lambda
                    comps[-1] += dem[i:j + 1]
                    cur = ''
                    i = j + 3
                    continue
                return comps, dem[i + 1:j], dem[j + 1:]
            depth += 1
        elif c in '>)]}':
            if not (c == '>' and i and dem[i - 1] == '-'):
                depth -= 1
        elif c == ':' and depth == 0 and dem.startswith('::', i):
            comps.append(cur)
            cur = ''
            i += 2
            continue
        elif c == ' ' and depth == 0:
            cur, comps = '', []
            i += 1
            continue
        cur += c
        i += 1
    return comps + [cur], '', ''


def split_args(t):
    out, d, cur = [], 0, ''
    for i, c in enumerate(t):
        if c in '<([':
            d += 1
        elif c in '>)]' and not (c == '>' and i and t[i - 1] == '-'):
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(comp):
    i = comp.find('<')
    return split_args(comp[i + 1:comp.rfind('>')]) if i >= 0 else []


def base_name(comp):
    return re.sub(r'\[abi:\w+\]', '', comp.split('<')[0] if not comp.startswith('operator') else re.match(r'operator(->|<<|>>|<=|>=|<|>|[^<]*)', comp).group(0))


STRN = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
STRF = Function = None
LENS = z3.Function('strlen', BV64, BV64)
EMPTY = bv(0)


class Elem:
    """element type of vectors: stride and fields {offset: [kind, size, array]}"""

    def __init__(self, name, rx, stride, fields, n=B):
        self.name, self.rx, self.stride, self.fields = name, re.compile(rx), stride, fields
        self.len = z3.Function('len_' + name, BV64, BV64)
        self.rid = None
        self.hook = None
        self.token = None  # (st, p) -> list of bv64: the value of an element
        self.app = None

    def append(self, lid, toks):
        f = z3.Function(f'append_{self.name}', BV64, *[BV64] * len(toks), BV64)
        return f(lid, *toks)

    def at(self, fo, lid, j):
        return z3.Select(self.fields[fo][2], oz(lid) * bv(B) + oz(j))


class Stl:
    def __init__(self, ctx, s):
        self.ctx, self.e, self.s = ctx, ctx.eng, s
        self.lits = {'': 0}
        self.parts = {}
        self.elems = []
        self.maps = {}  # (rid) of nodes -> info
        self.mapat = {}  # (rid, off) -> info
        self.on_call = None
        self.live = []
        self.e.contracts[:] = [c for c in self.e.contracts if not isinstance(c[1], Stl)]
        self.e._hc = {}
        self.e.contracts.insert(0, (re.compile(r'std::|__gnu_cxx::'), self))
        self.seen = {}

    # ---------------------------------------------------------------- dispatch
    def select(self, fn):
        comps, params, tail = parse(fn.dem)
        if len(comps) < 2 or comps[0] not in ('std', '__gnu_cxx'):
            return None
        comps = [c for c in comps if c not in ('__cxx11', '__detail', '_V2')]
        m = base_name(comps[-1])
        if len(comps) == 2:
            h = getattr(self, 'free_' + OPN.get(m, m), None)
            if h is None:
                return None
            P = split_args(params)
            return lambda eng, st, I, a, f: h(st, I, a, P, comps)
        cls = base_name(comps[-2])
        kind = {'basic_string': 'str', 'vector': 'vec', 'unordered_map': 'map', 'map': 'map', 'queue': 'que', 'function': 'fun', 'shared_ptr': 'shp', '__shared_ptr': 'shp', '__shared_ptr_access': 'shp',
                '__normal_iterator': 'nit', 'char_traits': 'ct'}.get(cls)
        if kind is None:
            return None
        if m == cls:
            m = 'ctor'
        elif m == '~' + cls:
            m = 'dtor'
        m = OPN.get(m, m)
        if m.startswith('operator '):
            m = 'conv'
        h = getattr(self, f'{kind}_{m}', None)
        P = split_args(params)
        if h is None:
            if kind in ('str', 'vec', 'map', 'que'):
                d = fn.dem

                def bad(eng, st, I, a, f):
                    raise Unsupported(f"no contract for {d[:150]}")

                return bad if not (kind == 'vec' and m in ('ctor', 'dtor')) else bad
            return None
        T = targs(comps[-2])
        return lambda eng, st, I, a, f: h(st, I, a, P, T)

    # ---------------------------------------------------------------- strings
    def lit(self, t):
        if t not in self.lits:
            self.lits[t] = len(self.lits)
        v = bv(self.lits[t])
        self.parts[v.get_id()] = (v, ((t,) if t else ()))
        return v

    def id(self, v):
        """register facts of a content id"""
        return v

    def sget(self, st, p):
        v = self.e.load(st, p, I64)
        st.assume(z3.ULT(v, bv(LIM)))
        return v

    def sset(self, st, p, v):
        self.e.store(st, p, v, I64)

    def flat(self, v):
        h = self.parts.get(v.get_id())
        if h is not None:
            return h[1]
        c = cval(v)
        if c is not None:
            for t, i in self.lits.items():
                if i == c:
                    return (t,) if t else ()
        return (v,)

    def cat(self, st, a, b):
        fa, fb = self.flat(a), self.flat(b)
        fl = list(fa)
        for x in fb:
            if fl and isinstance(fl[-1], str) and isinstance(x, str):
                fl[-1] += x
            else:
                fl.append(x)
        fl = tuple(fl)
        if not fl:
            return EMPTY
        if len(fl) == 1:
            return self.lit(fl[0]) if isinstance(fl[0], str) else fl[0]
        f = z3.Function('cat', BV64, BV64, BV64)
        r = None
        for x in reversed(fl):
            x = self.lit(x) if isinstance(x, str) else x
            if r is None:
                r = x
            else:
                y = f(x, r)
                # an empty part adds nothing; a non-empty one makes the result non-empty
                st.assume(z3.ULT(y, bv(LIM)), z3.Implies(x == EMPTY, y == r), z3.Implies(r == EMPTY, y == x), z3.Implies(y == EMPTY, z3.And(x == EMPTY, r == EMPTY)))
                r = y
        self.parts[r.get_id()] = (r, fl)
        return r

    def cstr(self, st, p):
        """content id of the C string at p"""
        if isinstance(p, Ptr) and p.r in st.mem and st.mem[p.r].tag and st.mem[p.r].tag[0] == 'cstr':
            if p.o == 0:
                return st.mem[p.r].tag[1]
            raise Unsupported('a pointer into a string')
        b = const_bytes(self.e, st, p)
        if b is None:
            raise Unsupported('characters of an unknown string')
        return self.lit(bytes(b).decode('latin1'))

    def char(self, st, c):
        v = cval(c)
        if v is None:
            raise Unsupported('a string made of an unknown character')
        return self.lit(chr(v & 0xff))

    def sarg(self, st, p, P):
        if 'basic_string' in P:
            return self.sget(st, p)
        if re.search(r'char( const)?\*', P):
            return self.cstr(st, p)
        if re.fullmatch(r'char', P):
            return self.char(st, p)
        raise Unsupported('string argument ' + P)

    def slen(self, st, v):
        fl = self.flat(v)
        n = 0
        t = None
        for x in fl:
            if isinstance(x, str):
                n += len(x)
            else:
                y = LENS(x)
                st.assume(z3.ULT(y, bv(1 << 40)), (y == bv(0)) == (x == EMPTY))
                t = y if t is None else t + y
        return bv(n) if t is None else simp(t + bv(n))

    def val(self, st, v=None):
        return [(st, 'val', v)]

    def str_ctor(self, st, I, a, P, T):
        P = [p for p in P if not p.startswith('std::allocator')]
        if not P:
            self.sset(st, a[0], EMPTY)
        elif len(P) == 1:
            v = self.sarg(st, a[1], P[0])
            self.sset(st, a[0], v)
            if P[0].endswith('&&'):
                self.sset(st, a[1], self.fresh_id(st))
        elif re.search(r'char const\*', P[0]) and P[1] == 'unsigned long':
            v = self.cstr(st, a[1])
            self.e.oblige(st, 'a string is made of the whole text given', oz(a[2]) == self.slen(st, v))
            self.sset(st, a[0], v)
        else:
            raise Unsupported('string construction from ' + ', '.join(P))
        return self.val(st)

    def fresh_id(self, st):
        v = fbv('str', 64)
        st.assume(z3.ULT(v, bv(LIM)))
        return v

    def str_dtor(self, st, I, a, P, T):
        return self.val(st)

    def str_opassign(self, st, I, a, P, T):
        v = self.sarg(st, a[1], P[0])
        same = isinstance(a[1], Ptr) and isinstance(a[0], Ptr) and a[0].r == a[1].r and oz(a[0].o).eq(oz(a[1].o))
        self.sset(st, a[0], v)
        if P[0].endswith('&&') and not same:
            self.sset(st, a[1], self.fresh_id(st))
        return a[0]

    str_assign = str_opassign

    def str_opaddassign(self, st, I, a, P, T):
        if len(P) == 2 and P[0] == 'unsigned long' and P[1] == 'char' and all(z3.is_bv_value(simp(x)) for x in a[1:3]) and simp(a[1]).as_long() < 64:
            self.sset(st, a[0], self.cat(st, self.sget(st, a[0]), self.lit(chr(simp(a[2]).as_long()) * simp(a[1]).as_long())))
            return a[0]
        if len(P) > 1:
            raise Unsupported('append of a part')
        self.sset(st, a[0], self.cat(st, self.sget(st, a[0]), self.sarg(st, a[1], P[0])))
        return a[0]

    str_append = str_opaddassign

    def str_push_back(self, st, I, a, P, T):
        self.str_opaddassign(st, I, a, P, T)
        return self.val(st)

    def str_size(self, st, I, a, P, T):
        return self.slen(st, self.sget(st, a[0]))

    str_length = str_size

    def str_empty(self, st, I, a, P, T):
        return simp(self.sget(st, a[0]) == EMPTY)

    def str_clear(self, st, I, a, P, T):
        self.sset(st, a[0], EMPTY)
        return self.val(st)

    def str_reserve(self, st, I, a, P, T):
        return self.val(st)

    str_shrink_to_fit = str_reserve

    def str_swap(self, st, I, a, P, T):
        x, y = self.sget(st, a[0]), self.sget(st, a[1])
        self.sset(st, a[0], y)
        self.sset(st, a[1], x)
        return self.val(st)

    def str_c_str(self, st, I, a, P, T):
        r = st.new_region('cstr', None, 'input')
        r.tag = ('cstr', self.sget(st, a[0]))
        return Ptr(r.id, 0)

    str_data = str_c_str

    # what a search or a part of a string gives is not interpreted, only that it depends on the arguments
    def _uf(self, st, name, a, P, w=64):
        v = [self.sget(st, a[0])]
        for x, p in zip(a[1:], P):
            v.append(self.sarg(st, x, p) if re.search(r'basic_string|char( const)?\*', p) else x if z3.is_bv(x) else self.e.as_int(x))
        v = [oz(x) for x in v]
        f = z3.Function(f"str_{name}_{len(v)}_{'_'.join(str(x.size()) for x in v)}", *[x.sort() for x in v], z3.BitVecSort(w))
        return f(*v)

    def str_find(self, st, I, a, P, T):
        return self._uf(st, 'find', a, P)

    def str_rfind(self, st, I, a, P, T):
        return self._uf(st, 'rfind', a, P)

    def str_find_first_of(self, st, I, a, P, T):
        return self._uf(st, 'ffo', a, P)

    def str_find_last_of(self, st, I, a, P, T):
        return self._uf(st, 'flo', a, P)

    def str_substr(self, st, I, a, P, T):
        v = self._uf(st, 'substr', a[1:], P)
        st.assume(z3.ULT(v, bv(LIM)))
        ok = z3.ULE(oz(a[2]), self.slen(st, self.sget(st, a[1])))
        out = []
        for q, b in self.e.branch(st, ok):
            if b:
                self.sset(q, a[0], v)
                out.append((q, 'val', None))
            else:
                out.append((q, 'throw', self.e.throw_new(q, '_ZTISt12out_of_range')))
        return out

    def _edit(self, st, I, a, P, T):
        self.sset(st, a[0], self.fresh_id(st))
        return a[0]

    str_insert = str_replace = str_erase = _edit

    def str_resize(self, st, I, a, P, T):
        self._edit(st, I, a, P, T)
        return self.val(st)

    str_pop_back = str_resize

    def free_oplt(self, st, I, a, P, comps):
        q = self._eq(st, a, P)
        return NotImplemented if q is None else simp(z3.And(q[0] != q[1], self.order(q[0], q[1])))

    def order(self, x, y):
        return z3.Function('str_less', BV64, BV64, z3.BoolSort())(x, y)

    def str_compare(self, st, I, a, P, T):
        if len(P) > 1:
            return self._uf(st, 'compare', a, P, 32)
        x, y = self.sget(st, a[0]), self.sarg(st, a[1], P[0])
        return simp(z3.If(x == y, bv(0, 32), z3.If(self.order(x, y), bv(-1, 32), bv(1, 32))))

    def free_opplus(self, st, I, a, P, comps):
        if not any('basic_string' in p for p in P) or len(P) != 2:
            return NotImplemented
        x, y = self.sarg(st, a[1], P[0]), self.sarg(st, a[2], P[1])
        self.sset(st, a[0], self.cat(st, x, y))
        return self.val(st)

    def _eq(self, st, a, P):
        if not any('basic_string' in p and not '_iterator' in p for p in P) or len(P) != 2:
            return None
        if any(not ('basic_string<char' in re.sub(r'^std::(__cxx11::)?', '', p)[:18] or re.search(r'^char const\*', p)) for p in P):
            return None
        return self.sarg(st, a[0], P[0]), self.sarg(st, a[1], P[1])

    def free_opeq(self, st, I, a, P, comps):
        q = self._eq(st, a, P)
        return NotImplemented if q is None else simp(q[0] == q[1])

    def free_opne(self, st, I, a, P, comps):
        q = self._eq(st, a, P)
        return NotImplemented if q is None else simp(q[0] != q[1])

    def free_to_string(self, st, I, a, P, comps):
        x = a[1]
        f = z3.Function('to_string_' + P[0].replace(' ', '_'), x.sort(), BV64)
        v = f(x)
        st.assume(z3.ULT(v, bv(LIM)), v != EMPTY)
        self.sset(st, a[0], v)
        return self.val(st)

    # ---------------------------------------------------------------- vectors
    def elem_type(self, name, rx, stride, fields, token=None):
        el = Elem(name, rx, stride, fields)
        r = self.s.new_region('lists_' + name, None)
        r.segs.append(Seg(0, bv(1 << 54), stride, fields, name=name))
        el.rid = r.id
        el.token = token
        self.elems.append(el)
        return el

    def elem(self, T):
        t = T[0]
        for el in self.elems:
            if el.rx.search(t):
                return el
        raise Unsupported('vector of ' + t)

    def list_kind(self, el):
        return f'ptr:{el.rid}:{B * el.stride}'

    def quot(self, o, k):
        c, t = linform(o)
        if c % k or any(q % k for _, q in t.values()):
            raise Unsupported('a vector whose storage is unknown')
        return oz(from_lin(c // k, {i: (x, q // k) for i, (x, q) in t.items()}))

    def vget(self, st, p, el):
        v = self.e.load(st, p, PT)
        if not isinstance(v, Ptr):
            raise Unsupported('an unmodelled vector')
        if v.r is None:
            return EMPTY
        if v.r != el.rid:
            raise Unsupported('a vector over foreign storage')
        l = self.quot(v.o, B * el.stride)
        st.assume(z3.ULT(l, bv(1 << 30)))
        return l

    def vset(self, st, p, el, lid):
        self.e.store(st, p, Ptr(el.rid, oadd(0, oz(lid) * bv(B * el.stride))), PT)

    def vlen(self, st, el, lid):
        n = el.len(lid)
        st.assume(z3.ULT(n, bv(B)), (n == bv(0)) == (lid == EMPTY))
        return n

    def split(self, el, o):
        """(list, index) of an element pointer's offset"""
        c, t = linform(o)
        k = B * el.stride
        lo = {i: x for i, x in t.items() if x[1] % k == 0}
        hi = {i: x for i, x in t.items() if x[1] % k != 0}
        sc = scval_int(c)
        lc = sc // k if sc >= 0 else 0
        lid = oz(from_lin(lc, {i: (x, q // k) for i, (x, q) in lo.items()}))
        if any(q % el.stride and (M64 + 1 - q) % el.stride for _, q in hi.values()) or (sc - lc * k) % el.stride:
            raise Unsupported('a pointer into an element')
        j = oz(from_lin((sc - lc * k) // el.stride, {i: (x, (scval_int(q) // el.stride) & M64) for i, (x, q) in hi.items()}))
        return lid, j

    def by_rid(self, rid):
        for el in self.elems:
            if el.rid == rid:
                return el

    def deref(self, st, p):
        if not isinstance(p, Ptr):
            return p
        el = self.by_rid(p.r)
        if el is None:
            return p
        lid, j = self.split(el, p.o)
        self.e.oblige(st, "only existing elements are used", z3.ULT(j, self.vlen(st, el, lid)), 'safety')
        self.seen[(el.name, str(simp(oz(lid))))] = (el, lid)
        if el.hook:
            el.hook(st, lid, j)
        return p

    def vec_ctor(self, st, I, a, P, T):
        el = self.elem(T)
        P = [p for p in P if not p.startswith('std::allocator')]
        if not P:
            self.vset(st, a[0], el, EMPTY)
        elif 'vector<' in P[0]:
            self.vset(st, a[0], el, self.vget(st, a[1], el))
            if P[0].endswith('&&'):
                self.vset(st, a[1], el, EMPTY)
        elif len(P) == 2 and '__normal_iterator' in P[0] and all(isinstance(x, Ptr) and x.r == el.rid for x in a[1:3]):
            # by value in the demangled name, one pointer each
            (l, i), (l2, j) = self.split(el, a[1].o), self.split(el, a[2].o)
            self.e.oblige(st, 'a vector is copied as a whole', z3.And(l == l2, i == bv(0), j == self.vlen(st, el, l)), 'safety')
            self.vset(st, a[0], el, l)
            st.ghost['member'] = None
        else:
            raise Unsupported('vector construction from ' + ', '.join(P))
        return self.val(st)

    def vec_dtor(self, st, I, a, P, T):
        return self.val(st)

    def vec_opassign(self, st, I, a, P, T):
        el = self.elem(T)
        if 'vector<' not in P[0]:
            raise Unsupported('vector assignment from ' + P[0])
        l = self.vget(st, a[1], el)
        self.vset(st, a[0], el, l)
        if P[0].endswith('&&'):
            self.vset(st, a[1], el, EMPTY)
        return a[0]

    def vec_push_back(self, st, I, a, P, T):
        el = self.elem(T)
        l = self.vget(st, a[0], el)
        n = self.vlen(st, el, l)
        toks = el.token(st, a[1])
        l2 = el.append(l, toks)
        st.assume(z3.ULT(l2, bv(1 << 30)), el.len(l2) == n + bv(1), z3.ULT(n + bv(1), bv(B)), l2 != EMPTY)
        self.vset(st, a[0], el, l2)
        return self.val(st)

    def vec_emplace_back(self, st, I, a, P, T):
        if len(P) == 1:
            self.vec_push_back(st, I, a, P, T)
            return self.val(st, Opaque('ref'))
        raise Unsupported('emplace_back')

    def vec_reserve(self, st, I, a, P, T):
        return self.val(st)

    vec_shrink_to_fit = vec_reserve

    def vec_clear(self, st, I, a, P, T):
        self.vset(st, a[0], self.elem(T), EMPTY)
        return self.val(st)

    def vec_swap(self, st, I, a, P, T):
        el = self.elem(T)
        x, y = self.vget(st, a[0], el), self.vget(st, a[1], el)
        self.vset(st, a[0], el, y)
        self.vset(st, a[1], el, x)
        return self.val(st)

    def vec_size(self, st, I, a, P, T):
        el = self.elem(T)
        return self.vlen(st, el, self.vget(st, a[0], el))

    def vec_empty(self, st, I, a, P, T):
        el = self.elem(T)
        return simp(self.vlen(st, el, self.vget(st, a[0], el)) == bv(0))

    def vec_begin(self, st, I, a, P, T):
        el = self.elem(T)
        l = self.vget(st, a[0], el)
        self.vlen(st, el, l)
        if self.on_begin:
            self.on_begin(st, a[0])
        return Ptr(el.rid, oadd(0, l * bv(B * el.stride)))

    on_begin = None
    vec_cbegin = vec_begin

    def vec_end(self, st, I, a, P, T):
        el = self.elem(T)
        l = self.vget(st, a[0], el)
        return Ptr(el.rid, oadd(oadd(0, l * bv(B * el.stride)), self.vlen(st, el, l) * bv(el.stride)))

    vec_cend = vec_end

    def _at(self, st, a, T, j):
        el = self.elem(T)
        l = self.vget(st, a[0], el)
        if self.on_begin:
            self.on_begin(st, a[0])
        return self.deref(st, Ptr(el.rid, oadd(oadd(0, l * bv(B * el.stride)), oz(j) * bv(el.stride))))

    def vec_opindex(self, st, I, a, P, T):
        return self._at(st, a, T, a[1])

    def vec_at(self, st, I, a, P, T):
        el = self.elem(T)
        n = self.vlen(st, el, self.vget(st, a[0], el))
        out = []
        for q, ok in self.e.branch(st, z3.ULT(oz(a[1]), n)):
            out.append((q, 'val', self._at(q, a, T, a[1])) if ok else (q, 'throw', self.e.throw_new(q, '_ZTISt12out_of_range')))
        return out

    def vec_front(self, st, I, a, P, T):
        return self._at(st, a, T, bv(0))

    def vec_back(self, st, I, a, P, T):
        el = self.elem(T)
        return self._at(st, a, T, self.vlen(st, el, self.vget(st, a[0], el)) - bv(1))

    def nit_opderef(self, st, I, a, P, T):
        p = self.e.load(st, a[0], PT)
        if not isinstance(p, Ptr) or self.by_rid(p.r) is None:
            return NotImplemented
        return self.deref(st, p)

    nit_oparrow = nit_opderef

    # ---------------------------------------------------------------- maps
    def map_at_obj(self, st, p, name, vfields, vsize, vinit, vT=None, voff=40, kfield=None):
        """declare the map object at p: one node per key id; vinit(st, k) = [(offset, value)] of a new entry"""
        stride = voff + vsize + 8
        r = st.new_region('nodes_' + name, None)
        ident = z3.Lambda([z3.BitVec('k', 64)], z3.BitVec('k', 64))
        fields = {8: kfield or ['int', 8, ident]}
        for o, f in vfields.items():
            fields[voff + o] = f
        r.segs.append(Seg(0, bv(LIM), stride, fields, name=name))
        info = dict(name=name, rid=r.id, stride=stride, init=vinit, g='mapP_' + name, voff=voff)
        self.mapat[(p.r, str(simp(oz(p.o))))] = info
        self.maps[r.id] = info
        st.ghost[info['g']] = z3.Array('P_' + name, BV64, z3.BoolSort())
        return info

    def minfo(self, p):
        i = self.mapat.get((p.r, str(simp(oz(p.o)))))
        if i is None:
            raise Unsupported('an unmodelled map')
        return i

    def field(self, st, info, fo):
        return st.mem[info['rid']].segs[0].fields[info['voff'] + fo][2]

    def node(self, info, k, off=0):
        return Ptr(info['rid'], oadd(oadd(0, k * bv(info['stride'])), off))

    def present(self, st, info, k):
        return z3.Select(st.g(info['g']), k)

    def nodekey(self, info, p):
        c, t = linform(p.o)
        s = info['stride']
        return oz(from_lin(scval_int(c) // s, {i: (x, q // s) for i, (x, q) in t.items()}))

    def keyarg(self, st, p):
        return self.sget(st, p)

    def map_ctor(self, st, I, a, P, T):
        if [p for p in P if 'allocator' not in p]:
            raise Unsupported('map construction')
        i = self.mapat.get((a[0].r, str(simp(oz(a[0].o)))))
        if i is None:  # not one the property speaks of; any use of it is reported
            return self.val(st)
        st.setg(i['g'], z3.K(BV64, F_))
        return self.val(st)

    def map_dtor(self, st, I, a, P, T):
        return self.val(st)

    def map_find(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        return [(q, 'val', self.node(i, k) if has else NULL) for q, has in self.e.branch(st, self.present(st, i, k))]

    def map_end(self, st, I, a, P, T):
        return NULL

    map_cend = map_end

    def map_count(self, st, I, a, P, T):
        i = self.minfo(a[0])
        return simp(z3.If(self.present(st, i, self.keyarg(st, a[1])), bv(1), bv(0)))

    def map_contains(self, st, I, a, P, T):
        i = self.minfo(a[0])
        return simp(self.present(st, i, self.keyarg(st, a[1])))

    def map_opindex(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        out = []
        for q, has in self.e.branch(st, self.present(st, i, k)):
            if not has:
                q.setg(i['g'], z3.Store(q.g(i['g']), k, T_))
                for o, v, ty in i['init'](q):
                    self.e.store(q, self.node(i, k, i['voff'] + o), v, ty)
            out.append((q, 'val', self.node(i, k, i['voff'])))
        return out

    def map_at(self, st, I, a, P, T):
        i = self.minfo(a[0])
        k = self.keyarg(st, a[1])
        return [(q, 'val', self.node(i, k, i['voff'])) if has else (q, 'throw', self.e.throw_new(q, '_ZTISt12out_of_range')) for q, has in self.e.branch(st, self.present(st, i, k))]

    def map_erase(self, st, I, a, P, T):
        i = self.minfo(a[0])
        if len(P) != 1:
            raise Unsupported('erase of a range')
        if 'iterator' in P[0]:
            n = a[1]
            n = n if isinstance(n, Ptr) and n.r == i['rid'] else self.e.load(st, n, PT)
            if not isinstance(n, Ptr) or n.r != i['rid']:
                self.e.oblige(st, "only an existing entry is erased", False, 'safety')
                raise Infeasible()
            k = self.nodekey(i, n)
            self.e.oblige(st, "only an existing entry is erased", self.present(st, i, k), 'safety')
            st.setg(i['g'], z3.Store(st.g(i['g']), k, F_))
            return self.val(st, Opaque('next'))
        k = self.keyarg(st, a[1])
        n = simp(z3.If(self.present(st, i, k), bv(1), bv(0)))
        st.setg(i['g'], z3.Store(st.g(i['g']), k, F_))
        return n

    def map_clear(self, st, I, a, P, T):
        st.setg(self.minfo(a[0])['g'], z3.K(BV64, F_))
        return self.val(st)

    def map_empty(self, st, I, a, P, T):
        i = self.minfo(a[0])
        v = fbv('isempty', 1)
        k = z3.BitVec('k', 64)
        st.assume(z3.Implies(v, st.g(i['g']) == z3.K(BV64, F_)), z3.Implies(z3.Not(v), st.g(i['g']) != z3.K(BV64, F_)))
        return v

    # ---------------------------------------------------------------- queues of strings
    def queue_at(self, st, p, name='q'):
        k = (p.r, str(simp(oz(p.o))))
        self.que = dict(key=k, F=z3.Function('Q_' + name, BV64, BV64), f=[])
        H, T = fbv('H', 64), fbv('T', 64)
        st.assume(z3.ULE(H, T), z3.ULE(T, bv(LIM)))
        st.ghost.update(qH=H, qT=T)
        return self.que

    def qi(self, p):
        if (p.r, str(simp(oz(p.o)))) != self.que['key']:
            raise Unsupported('an unmodelled queue')

    def qitem(self, i):
        return self.que['F'](i)

    def que_ctor(self, st, I, a, P, T):
        if P and 'queue' in P[0]:
            raise Unsupported('queue copy')
        self.qi(a[0])
        st.setg('qH', bv(0))
        st.setg('qT', bv(0))
        return self.val(st)

    def que_dtor(self, st, I, a, P, T):
        return self.val(st)

    def que_empty(self, st, I, a, P, T):
        self.qi(a[0])
        return simp(st.g('qH') == st.g('qT'))

    def que_size(self, st, I, a, P, T):
        self.qi(a[0])
        return simp(st.g('qT') - st.g('qH'))

    def que_front(self, st, I, a, P, T):
        self.qi(a[0])
        self.e.oblige(st, "the front of an empty queue is never read", z3.ULT(st.g('qH'), st.g('qT')), 'safety')
        r = st.new_region('qitem', 32)
        r.cells[0] = (8, self.qitem(st.g('qH')))
        return Ptr(r.id, 0)

    def que_back(self, st, I, a, P, T):
        self.qi(a[0])
        self.e.oblige(st, "the back of an empty queue is never read", z3.ULT(st.g('qH'), st.g('qT')), 'safety')
        r = st.new_region('qitem', 32)
        r.cells[0] = (8, self.qitem(st.g('qT') - bv(1)))
        return Ptr(r.id, 0)

    def que_pop(self, st, I, a, P, T):
        self.qi(a[0])
        self.e.oblige(st, "an empty queue is never popped", z3.ULT(st.g('qH'), st.g('qT')), 'safety')
        st.setg('qH', simp(st.g('qH') + bv(1)))
        return self.val(st)

    def que_push(self, st, I, a, P, T):
        self.qi(a[0])
        st.assume(self.qitem(st.g('qT')) == self.sget(st, a[1]))
        st.setg('qT', simp(st.g('qT') + bv(1)))
        return self.val(st)

    def que_emplace(self, st, I, a, P, T):
        if len(P) != 1 or 'basic_string' not in P[0]:
            raise Unsupported('queue emplace')
        self.que_push(st, I, a, P, T)
        return self.val(st, Opaque('ref'))

    # ---------------------------------------------------------------- functions
    def isreal(self, st, p):
        """a std::function made by real code (not one of the model's)"""
        r = st.mem.get(p.r)
        if r is None or not isinstance(p.o, int):
            return False
        c = r.cells.get(p.o + 24)
        return c is not None and isinstance(c[1], Ptr) and c[1].r is not None

    def unreal(self, st, p):
        if self.isreal(st, p):
            self.e.store(st, p.add(16), NULL, PT)
            self.e.store(st, p.add(24), NULL, PT)

    def fget(self, st, p):
        return self.e.load(st, p, I64)

    def fun_ctor(self, st, I, a, P, T):
        P = [p for p in P if p]
        if not P or P[0] in ('std::nullptr_t', 'decltype(nullptr)'):
            self.unreal(st, a[0])
            self.e.store(st, a[0], bv(0), I64)
            return self.val(st)
        if len(P) == 1 and re.match(r'std::function<', P[0]) and not self.isreal(st, a[1]):
            self.e.store(st, a[0], self.fget(st, a[1]), I64)
            if P[0].endswith('&&'):
                self.e.store(st, a[1], bv(0), I64)
            return self.val(st)
        return NotImplemented

    def fun_dtor(self, st, I, a, P, T):
        return NotImplemented if self.isreal(st, a[0]) else self.val(st)

    def fun_opassign(self, st, I, a, P, T):
        if P[0] in ('std::nullptr_t', 'decltype(nullptr)'):
            self.unreal(st, a[0])
            self.e.store(st, a[0], bv(0), I64)
            return a[0]
        if re.match(r'std::function<', P[0]) and not self.isreal(st, a[1]):
            self.unreal(st, a[0])
            self.e.store(st, a[0], self.fget(st, a[1]), I64)
            if P[0].endswith('&&'):
                self.e.store(st, a[1], bv(0), I64)
            return a[0]
        return NotImplemented

    def fun_conv(self, st, I, a, P, T):
        return NotImplemented if self.isreal(st, a[0]) else simp(self.fget(st, a[0]) != bv(0))

    def fun_swap(self, st, I, a, P, T):
        if self.isreal(st, a[0]) or self.isreal(st, a[1]):
            return NotImplemented
        x, y = self.fget(st, a[0]), self.fget(st, a[1])
        self.e.store(st, a[0], y, I64)
        self.e.store(st, a[1], x, I64)
        return self.val(st)

    def fun_opcall(self, st, I, a, P, T):
        if self.isreal(st, a[0]):
            return NotImplemented
        if self.on_call is None:
            raise Unsupported('call of a std::function')
        return self.on_call(st, I, self.fget(st, a[0]), a[1:], P)

    # ---------------------------------------------------------------- shared_ptr
    def shp_ctor(self, st, I, a, P, T):
        if not P or P[0] == 'std::nullptr_t' or P[0] == 'decltype(nullptr)':
            self.e.store(st, a[0], NULL, PT)
            self.e.store(st, a[0].add(8), NULL, PT)
            return self.val(st)
        if re.match(r'std::(__)?shared_ptr<', P[0]) and len(P) == 1:
            for o in (0, 8):
                self.e.store(st, a[0].add(o), self.e.load(st, a[1].add(o), PT), PT)
            if P[0].endswith('&&'):
                for o in (0, 8):
                    self.e.store(st, a[1].add(o), NULL, PT)
            return self.val(st)
        return NotImplemented

    def shp_dtor(self, st, I, a, P, T):
        return self.val(st)

    def shp_opassign(self, st, I, a, P, T):
        if re.match(r'std::(__)?shared_ptr<', P[0]):
            for o in (0, 8):
                self.e.store(st, a[0].add(o), self.e.load(st, a[1].add(o), PT), PT)
            if P[0].endswith('&&'):
                for o in (0, 8):
                    self.e.store(st, a[1].add(o), NULL, PT)
            return a[0]
        return NotImplemented

    def shp_reset(self, st, I, a, P, T):
        if P:
            return NotImplemented
        for o in (0, 8):
            self.e.store(st, a[0].add(o), NULL, PT)
        return self.val(st)

    def shp_get(self, st, I, a, P, T):
        return self.e.load(st, a[0], PT)

    shp_oparrow = shp_opderef = shp__M_get = shp_get

    # ---------------------------------------------------------------- candidates
    def map_cands(self, entry, hs, M):
        """a loop leaves a map as it is"""
        out = []
        for i in self.mapat.values():
            if ('g', i['g']) in M:
                out.append(Cand(f"{i['name']} keeps its keys", lambda st, g=i['g']: st.ghost[g] == entry.ghost[g]))
            for k in M:
                if k[0] == i['rid'] and k[1] == 's':
                    out.append(Cand(f"{i['name']} keeps its values", lambda st, r=k[0], f=k[3]: st.mem[r].segs[0].fields[f][2] == entry.mem[r].segs[0].fields[f][2]))
        return out


OPN = {'operator=': 'opassign', 'operator<': 'oplt', 'operator+': 'opplus', 'operator+=': 'opaddassign', 'operator==': 'opeq', 'operator!=': 'opne', 'operator[]': 'opindex', 'operator()': 'opcall', 'operator*': 'opderef', 'operator->': 'oparrow',
       'operator bool': 'conv'}
