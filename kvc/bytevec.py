"""Contract on std::vector<unsigned char>: a real (begin, end, capacity) triple over a byte segment of any length.

Accessors (data, size, begin, operator[] ...) run as they are; the operations that make room are given by what they leave:
the bytes of the vector, in storage of exactly its size.
"""
import re
import z3
from .engine import *
from .stl import parse, split_args, base_name, OPN, PT
from .lib import copy_sym, seg_of

BYTE = z3.BitVecSort(8)
ARR = z3.ArraySort(BV64, BYTE)
REAL = ('data', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'back', 'front', '_M_data_ptr', '_M_range_check', 'get_allocator', 'max_size', 'capacity', '_S_max_size')


def bytes_region(st, n, a=None, name='bytes'):
    r = st.new_region(name, None, 'input')
    a = a if a is not None else z3.Const('BYTES_' + str(r.id), ARR)
    r.segs = [Seg(0, n, 1, {0: ['int', 1, a]}, name=name)]
    return Ptr(r.id, 0)


class ByteVec:
    def __init__(self, eng):
        self.e = eng
        eng.contracts.insert(0, (re.compile(r'std::vector<unsigned char, '), self))

    def make(self, st, p, n, a=None, name='bytes'):
        b = bytes_region(st, n, a, name)
        self.put(st, p, b, n)
        return b

    def put(self, st, p, b, n):
        e = self.e
        e.store(st, p, b, PT)
        e.store(st, p.add(8), b.add(n), PT)
        e.store(st, p.add(16), b.add(n), PT)

    def get(self, st, p):
        """(length, content)"""
        e = self.e
        b, en = e.load(st, p, PT), e.load(st, p.add(8), PT)
        if not isinstance(b, Ptr) or b.r is None:
            return bv(0), z3.K(BV64, bv(0, 8))
        r, _, (g, i) = seg_of(e, st, b)
        n = simp(oz(osub(en.o, b.o)))
        k = z3.BitVec('bi', 64)
        a = g.fields[0][2]
        return n, (a if cval(oz(i)) == 0 else z3.Lambda([k], z3.Select(a, k + oz(i))))

    def rng(self, st, f, l):
        """content of [f, l)"""
        if not isinstance(f, Ptr) or f.r is None:
            return bv(0), z3.K(BV64, bv(0, 8))
        if f.r != l.r:
            self.e.oblige(st, 'a range of bytes has both ends in one object', False, 'safety')
            raise Infeasible()
        n = simp(oz(osub(l.o, f.o)))
        r = st.mem[f.r]
        if r.segs:
            _, _, (g, i) = seg_of(self.e, st, f)
            self.e.oblige(st, 'memory-safety: a range of bytes lies within its object', z3.Or(n == 0, z3.And(z3.ULE(n, oz(g.n)), z3.ULE(oz(i), oz(g.n) - n))), 'safety')
            k = z3.BitVec('bi', 64)
            return n, z3.Lambda([k], z3.Select(g.fields[0][2], k + oz(i)))
        c = cval(n)
        if c is None:
            raise Unsupported('a range of symbolic length over plain memory')
        a = z3.K(BV64, bv(0, 8))
        for i in range(c):
            a = z3.Store(a, bv(i), self.e.load(st, f.add(i), _B))
        return n, a

    def set(self, st, p, n, a):
        old = self.e.load(st, p, PT)
        if isinstance(old, Ptr) and old.r in st.mem and old.o == 0 and st.mem[old.r].name == 'bytes':
            st.wreg(old.r).alive = False
        c = cval(n)
        if c == 0:
            for i in (0, 8, 16):
                self.e.store(st, p.add(i), NULL, PT)
            return
        b = bytes_region(st, c if c is not None else n, simp(a))
        self.put(st, p, b, c if c is not None else n)

    def splice(self, st, p, at, n, a):
        """insert n bytes at index `at`"""
        m, old = self.get(st, p)
        k = z3.BitVec('bi', 64)
        self.set(st, p, simp(m + n), z3.Lambda([k], z3.If(z3.ULT(k, at), z3.Select(old, k), z3.If(z3.ULT(k - at, n), z3.Select(a, k - at), z3.Select(old, k - n)))))

    def select(self, fn):
        comps, params, tail = parse(fn.dem)
        comps = [c for c in comps if c not in ('__cxx11',)]
        if len(comps) != 3 or comps[0] != 'std' or not comps[1].startswith('vector<unsigned char, '):
            return None
        m = base_name(comps[-1])
        if m in REAL:
            return None
        m = {'vector': 'ctor', '~vector': 'dtor'}.get(m, OPN.get(m, m))
        P = split_args(params)
        h = getattr(self, 'b_' + m, None)
        d = fn.dem

        def go(eng, st, I, a, f):
            if h is None:
                raise Unsupported(f'no contract for {d[:150]}')
            r = h(st, a, P)
            return r if isinstance(r, list) else [(st, 'val', r)]

        return go

    def b_ctor(self, st, a, P):
        for i in (0, 8, 16):
            self.e.store(st, a[0].add(i), NULL, PT)
        P = [p for p in P if not p.startswith('std::allocator')]
        if P:
            if 'std::vector' in P[0]:
                return self.b_opassign(st, a, P) and None
            self.b_assign(st, a, P)
        return None

    def b_dtor(self, st, a, P):
        self.set(st, a[0], bv(0), z3.K(BV64, bv(0, 8)))

    def b_opassign(self, st, a, P):
        if 'initializer_list' in P[0]:
            raise Unsupported('initializer list')
        if isinstance(a[1], Ptr) and a[0].r == a[1].r and a[0].o == a[1].o:
            return a[0]
        n, x = self.get(st, a[1])
        if P[0].endswith('&&'):
            b = self.e.load(st, a[1], PT)
            self.set(st, a[0], bv(0), x)
            for i in (0, 8, 16):
                self.e.store(st, a[0].add(i), self.e.load(st, a[1].add(i), PT), PT)
                self.e.store(st, a[1].add(i), NULL, PT)
            return a[0]
        self.set(st, a[0], n, x)
        return a[0]

    def b_assign(self, st, a, P):
        if len(P) == 2 and 'unsigned char*' not in P[0] and '__normal_iterator' not in P[0] and 'char' not in P[0]:
            self.set(st, a[0], oz(a[1]), z3.K(BV64, self.e.load(st, a[2], _B)))
        elif len(P) == 1 and P[0] == 'unsigned long':
            self.set(st, a[0], oz(a[1]), z3.K(BV64, bv(0, 8)))
        elif len(P) == 2:
            n, x = self.rng(st, a[1], a[2])
            self.set(st, a[0], n, x)
        else:
            raise Unsupported('vector of bytes from ' + ', '.join(P))

    def b_resize(self, st, a, P):
        m, old = self.get(st, a[0])
        v = self.e.load(st, a[2], _B) if len(P) == 2 else bv(0, 8)
        k = z3.BitVec('bi', 64)
        self.set(st, a[0], oz(a[1]), z3.Lambda([k], z3.If(z3.ULT(k, m), z3.Select(old, k), v)))

    def b_clear(self, st, a, P):
        self.set(st, a[0], bv(0), z3.K(BV64, bv(0, 8)))

    def b_reserve(self, st, a, P):
        pass

    def b_shrink_to_fit(self, st, a, P):
        pass

    def b_swap(self, st, a, P):
        for i in (0, 8, 16):
            x, y = self.e.load(st, a[0].add(i), PT), self.e.load(st, a[1].add(i), PT)
            self.e.store(st, a[0].add(i), y, PT)
            self.e.store(st, a[1].add(i), x, PT)

    def b_push_back(self, st, a, P):
        m, old = self.get(st, a[0])
        v = self.e.load(st, a[1], _B)
        self.set(st, a[0], simp(m + bv(1)), z3.Store(old, m, v))

    def b_emplace_back(self, st, a, P):
        self.b_push_back(st, a, P)
        m, _ = self.get(st, a[0])
        return self.e.load(st, a[0], PT).add(osub(m, 1))

    def b_insert(self, st, a, P):
        b = self.e.load(st, a[0], PT)
        at = oz(osub(a[1].o, b.o)) if isinstance(b, Ptr) and b.r is not None else bv(0)
        if len(P) != 3 or P[1] == 'unsigned long':
            raise Unsupported('insertion of ' + ', '.join(P))
        n, x = self.rng(st, a[2], a[3])
        self.splice(st, a[0], at, n, x)
        return self.e.load(st, a[0], PT).add(at)


class _Byte:
    kind, size, width = 'int', 1, 8


_B = _Byte()
