"""kvc engine: forward symbolic execution of LLVM IR between cut points, generating verification
conditions over machine (bit-vector) arithmetic.

 * every path of the real function is followed; a branch is dropped only if the path condition is unsat
 * loops are cut at their header: everything the loop may write is havocked and an inductive invariant
   (the maximal inductive subset of a candidate set, computed by Houdini on every run) is assumed;
   nothing is unrolled unless the unit explicitly asks for exact unrolling of a concrete-trip loop
 * callees are replaced by a contract when the unit registers one, executed from their IR otherwise
 * anything outside the supported fragment raises Unsupported: the unit is then *undecided*, never proved
"""
import re, time, itertools
import ctypes as C
import z3
from . import llvm

z3.set_param('warning', False)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


BV64 = z3.BitVecSort(64)
_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const(f"{name}!{next(_fresh)}", sort)


def fbv(name, w):
    if w == 1:
        return fresh(name, z3.BoolSort())
    return fresh(name, z3.BitVecSort(w))


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def is_c(e):
    return isinstance(e, int) or z3.is_bv_value(e)


def cval(e):
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def scval(e):
    v = cval(e)
    if v is None:
        return None
    w = 64 if isinstance(e, int) else e.size()
    return v - (1 << w) if v >> (w - 1) else v


def simp(e):
    return z3.simplify(e)


M64 = (1 << 64) - 1


def linform(e):
    """(const, {id:(term,coef)}) of a BV64 expr, modulo 2^64"""
    if isinstance(e, int):
        return e & M64, {}
    const = 0
    terms = {}
    stack = [(e, 1)]
    while stack:
        x, k = stack.pop()
        if z3.is_bv_value(x):
            const = (const + k * x.as_long()) & M64
            continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in x.children():
                stack.append((c, k))
            continue
        if d == z3.Z3_OP_BSUB:
            cs = x.children()
            stack.append((cs[0], k))
            for c in cs[1:]:
                stack.append((c, -k))
            continue
        if d == z3.Z3_OP_BNEG:
            stack.append((x.arg(0), -k))
            continue
        if d == z3.Z3_OP_BMUL and x.num_args() == 2:
            a, b = x.children()
            if z3.is_bv_value(a):
                stack.append((b, k * a.as_long()))
                continue
            if z3.is_bv_value(b):
                stack.append((a, k * b.as_long()))
                continue
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            stack.append((x.arg(0), k << x.arg(1).as_long()))
            continue
        i = x.get_id()
        t, c = terms.get(i, (x, 0))
        c = (c + k) & M64
        if c == 0:
            terms.pop(i, None)
        else:
            terms[i] = (x, c)
    return const, terms


def from_lin(const, terms):
    e = None
    for i in sorted(terms):
        t, c = terms[i]
        if c == 1:
            x = t
        else:
            x = t * bv(c)
        e = x if e is None else e + x
    const &= M64
    if e is None:
        return const
    if const:
        e = e + bv(const)
    return e


def oadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    ca, ta = linform(a)
    cb, tb = linform(b)
    t = dict(ta)
    for i, (x, c) in tb.items():
        y, k = t.get(i, (x, 0))
        k = (k + c) & M64
        if k:
            t[i] = (x, k)
        else:
            t.pop(i, None)
    return from_lin(ca + cb, t)


def osub(a, b):
    cb, tb = linform(b)
    nb = from_lin(-cb, {i: (x, (-c) & M64) for i, (x, c) in tb.items()})
    return oadd(a, nb)


def oz(o):
    return bv(o) if isinstance(o, int) else o


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        if not isinstance(o, int):
            c, t = linform(o)
            o = from_lin(c, t)
        self.o = o

    def __repr__(self):
        return f"Ptr({self.r}+{self.o})"

    def add(self, d):
        return Ptr(self.r, oadd(self.o, d))


NULL = Ptr(None, 0)


class Agg:
    """struct / array SSA value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Opaque:
    """value we do not model (floating point, unknown)"""
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag


class FPI(Opaque):
    """floating-point value known to lie between two unsigned integers (exact while they stay below 2^52;
    rounding is monotone and integers below 2^53 are exact)"""

    def __init__(self, lb, ub, guards=(), f=None):
        super().__init__('fp')
        self.lb, self.ub, self.guards, self.f = lb, ub, tuple(guards), f

    @staticmethod
    def const(f):
        import math
        if f != f or f < 0 or f > 1024:
            return Opaque('fp')
        return FPI(bv(math.floor(f)), bv(math.ceil(f)), (), f)

    @staticmethod
    def small(x):
        return z3.ULE(x, bv(1 << 40))


def fpi_bin(op, a, b):
    if not (isinstance(a, FPI) and isinstance(b, FPI)):
        return Opaque('fp')
    G = a.guards + b.guards + (FPI.small(a.ub), FPI.small(b.ub))
    if op == 'fadd':
        return FPI(a.lb + b.lb, a.ub + b.ub, G)
    if op == 'fmul' and (a.f is not None or b.f is not None):
        return FPI(a.lb * b.lb, a.ub * b.ub, G)
    return Opaque('fp')


class Seg:
    """array segment of a region: `n` elements of `stride` bytes from `start`; fields map
    offset -> [kind, size, z3 array or object]; kinds: 'int', 'ptr:<rid>:<stride>', 'opaque'"""

    def __init__(self, start, n, stride, fields, hook=None, name=''):
        self.start = start
        self.n = n  # python int or z3 bv64
        self.stride = stride
        self.fields = fields
        self.hook = hook
        self.name = name

    def copy(self):
        return Seg(self.start, self.n, self.stride, {k: list(v) for k, v in self.fields.items()}, self.hook, self.name)

    def extent(self):
        if isinstance(self.n, int):
            return self.n * self.stride
        return self.n * bv(self.stride)


class Region:
    def __init__(self, rid, name, size=None, init='undef'):
        self.id = rid
        self.name = name
        self.size = size  # int, z3 or None (unchecked)
        self.init = init  # 'undef' | 'input' | 'zero'
        self.cells = {}  # off -> (size, val)
        self.segs = []
        self.hooks = {}  # off -> hook
        self.alive = True
        self.const = False
        self.tag = None
        self.own = None  # state id owning this copy

    def copy(self):
        r = Region(self.id, self.name, self.size, self.init)
        r.cells = dict(self.cells)
        r.segs = [s.copy() for s in self.segs]
        r.hooks = self.hooks
        r.alive = self.alive
        r.const = self.const
        r.tag = self.tag
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'i', 'prev', 'locs', 'allocas', 'call', 'depth')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.i = self.i
        f.prev = self.prev
        f.locs = dict(self.locs)
        f.allocas = list(self.allocas)
        f.call = self.call
        f.depth = self.depth
        return f


class Cut:
    def __init__(self, depth, header, blocks, probe):
        self.depth = depth
        self.header = header
        self.blocks = blocks
        self.probe = probe
        self.pure = None


_sid = itertools.count()


class State:
    def __init__(self, eng):
        self.eng = eng
        self.pc = []
        self.frames = []
        self.mem = {}
        self.ghost = {}
        self.cuts = []
        self.writes = set()
        self.model = None
        self.exc = None
        self.caught = []
        self.trace = []
        self.steps = 0
        self.sid = next(_sid)

    def copy(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.ghost = dict(self.ghost)
        s.cuts = list(self.cuts)
        s.writes = set(self.writes)
        s.model = self.model
        s.exc = self.exc
        s.caught = list(self.caught)
        s.trace = list(self.trace)
        s.steps = self.steps
        s.sid = next(_sid)
        self.sid = next(_sid)  # both lose ownership of shared regions
        return s

    # ---- regions
    def reg(self, rid):
        r = self.mem.get(rid)
        if r is None:
            raise Unsupported(f"no region {rid}")
        return r

    def wreg(self, rid):
        r = self.mem[rid]
        if r.own != self.sid:
            r = r.copy()
            r.own = self.sid
            self.mem[rid] = r
        return r

    def new_region(self, name, size=None, init='undef'):
        rid = f"{name}#{next(_fresh)}"
        r = Region(rid, name, size, init)
        r.own = self.sid
        self.mem[rid] = r
        return r

    def g(self, k, v=None):
        return self.ghost.get(k, v)

    def setg(self, k, v):
        self.ghost[k] = v
        self.writes.add(('g', k))

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                if not f:
                    raise Infeasible()
                continue
            self.pc.append(f)
        self.model = None


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'where', 'unit', 'result', 'backend', 'time', 'model', 'kind', 'hints')


class Engine:
    def __init__(self, mod, unit='unit'):
        self.mod = mod
        self.unit = unit
        self.contracts = []  # (regex, handler)
        self.lib = []
        self.obls = []
        self.suppress = 0
        self.bases = {}
        self.ptrints = {}  # ast id -> (expr, Ptr)
        self.keep = []
        self.ptrdiff = set()
        self.visited = {}
        self.externals = {}
        self.trusted_used = {}
        self.cand_gens = []
        self.stats = dict(paths=0, feas=0, houdini=0, loops=0, feas_time=0.0, insts=0)
        self.loop_log = {}
        self.unroll = None
        self.unroll_max = 0
        self.globals_cache = {}
        self.feas_timeout = 3000
        self.deadline = None
        self.max_depth = 80
        self.check_overflow = False
        self.tiids = {}
        self._cc = {}
        self.cell_alias = []
        self.noterm = True
        self.qaxioms = []
        self.harvest = None

    # ------------------------------------------------------------ solver
    def feasible(self, s, extra=None):
        self.stats['feas'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("engine deadline")
        t = time.time()
        sol = z3.SimpleSolver()
        sol.set('timeout', self.feas_timeout)
        qs = False
        for f in s.pc:
            if has_quant(f):
                qs = True
                continue
            sol.add(f)
        if extra is not None:
            sol.add(extra)
        r = sol.check()
        self.stats['feas_time'] += time.time() - t
        if r == z3.sat:
            return sol.model()
        if r == z3.unsat:
            return None
        return True

    def branch(self, s, cond):
        """returns list of (state, bool)"""
        if isinstance(cond, bool):
            return [(s, cond)]
        c = simp(cond)
        if z3.is_true(c):
            return [(s, True)]
        if z3.is_false(c):
            return [(s, False)]
        tm = fm = False
        if s.model is not None and s.model is not True:
            ev = s.model.eval(c, model_completion=True)
            if z3.is_true(ev):
                tm = s.model
            elif z3.is_false(ev):
                fm = s.model
        if tm is False:
            tm = self.feasible(s, c)
        if fm is False:
            fm = self.feasible(s, z3.Not(c)) if tm is not None else True
        out = []
        if tm is not None and fm is not None:
            s2 = s.copy()
            s.pc.append(c)
            s.model = tm if tm is not True else None
            s2.pc.append(simp(z3.Not(c)))
            s2.model = fm if fm is not True else None
            return [(s, True), (s2, False)]
        if tm is not None:
            s.pc.append(c)
            return [(s, True)]
        if fm is not None:
            s.pc.append(simp(z3.Not(c)))
            return [(s, False)]
        return []

    def where(self, s):
        out = []
        for f in reversed(s.frames[-4:]):
            if f.blk is None:
                continue
            I = f.blk.insts[min(f.i, len(f.blk.insts) - 1)]
            out.append(f"{f.fn.short}:{I.line}")
        return " < ".join(out)

    def oblige(self, s, name, goal, kind='post', hints=None):
        if self.suppress:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        o = Obl()
        o.name = name
        o.pc = list(s.pc)
        o.goal = goal
        o.where = self.where(s)
        o.unit = self.unit
        o.kind = kind
        o.result = None
        o.backend = None
        o.time = 0
        o.model = None
        o.hints = hints
        self.obls.append(o)

    # ------------------------------------------------------------ pointers / ints
    def base(self, r):
        b = self.bases.get(r)
        if b is None:
            b = z3.BitVec(f"base[{r}]", 64)
            if isinstance(r, tuple) and r[0] == 'fn':  # code is aligned (pointers to members rely on it)
                b = z3.Concat(z3.BitVec(f"base[{r}]", 63), bv(0, 1))
            self.bases[r] = b
        return b

    def p2i(self, p):
        if isinstance(p, Ptr):
            if p.r is None:
                return oz(p.o)
            e = self.base(p.r) + oz(p.o)
            self.ptrints[e.get_id()] = (e, p)
            return e
        return p

    def i2p(self, e):
        if isinstance(e, Ptr):
            return e
        v = cval(e)
        if v is not None:
            return Ptr(None, v)
        h = self.ptrints.get(e.get_id())
        if h is not None:
            return h[1]
        raise Unsupported("inttoptr of unknown integer")

    def as_int(self, v, w=64):
        if isinstance(v, Ptr):
            return self.p2i(v)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return bv(v, w)
        return v

    def ptr_eq(self, s, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                if isinstance(a.o, int) and isinstance(b.o, int):
                    return z3.BoolVal(a.o == b.o)
                d = osub(a.o, b.o)
                return z3.BoolVal(d == 0) if isinstance(d, int) else d == 0
            return z3.BoolVal(False)
        return self.as_int(a) == self.as_int(b)

    # ------------------------------------------------------------ memory
    def locate(self, s, p, size, what):
        """bounds / liveness checks; returns (region, kind, info)"""
        if not isinstance(p, Ptr):
            p = self.i2p(p)
        if p.r is None:
            self.oblige(s, f"memory-safety: {what} through null/invalid pointer", False, 'safety')
            raise Infeasible()
        if isinstance(p.r, tuple):
            raise Unsupported(f"data access to function pointer {p.r}")
        if p.r not in s.mem:
            if p.r.startswith('@'):
                self.load_global(s, p.r)
            else:
                self.oblige(s, f"memory-safety: {what} of dead object {p.r.split('#')[0]}", False, 'safety')
                raise Infeasible()
        r = s.mem[p.r]
        if not r.alive:
            self.oblige(s, f"memory-safety: {what} of freed object {r.name}", False, 'safety')
            raise Infeasible()
        o = p.o
        if isinstance(o, int):
            for g in r.segs:
                if o >= g.start:
                    if isinstance(g.n, int):
                        if o < g.start + g.n * g.stride:
                            return r, 'seg', (g, (o - g.start) // g.stride, (o - g.start) % g.stride)
                    elif g is r.segs[-1]:
                        # symbolic extent, last segment
                        idx, fo = (o - g.start) // g.stride, (o - g.start) % g.stride
                        self.oblige(s, f"memory-safety: {what} in bounds of {r.name}", z3.ULT(bv(idx), oz(g.n)), 'safety')
                        return r, 'seg', (g, idx, fo)
            if isinstance(r.size, int):
                if o + size > r.size:
                    self.oblige(s, f"memory-safety: {what} in bounds of {r.name}", False, 'safety')
                    raise Infeasible()
            elif r.size is not None:
                self.oblige(s, f"memory-safety: {what} in bounds of {r.name}", z3.And(z3.ULE(bv(o + size), r.size)), 'safety')
            return r, 'cell', o
        # symbolic offset
        c, t = linform(o)
        best = None
        for g in r.segs:
            if all(k % g.stride == 0 or (M64 + 1 - k) % g.stride == 0 for (_, k) in t.values()):
                d = abs(scval_int(c) - g.start)
                if best is None or (c >= g.start and d < best[0]):
                    best = (d, g)
        if best is None:
            # concretise when the path condition fixes the offset
            m = self.feasible(s)
            if m is not None and m is not True:
                v = m.eval(oz(o), model_completion=True)
                if self.feasible(s, oz(o) != v) is None:
                    return self.locate(s, Ptr(p.r, v.as_long()), size, what)
            raise Unsupported(f"symbolic offset {o} into {r.name} ({what})")
        g = best[1]
        rel = scval_int(c) - g.start
        fo = rel % g.stride
        q = (rel - fo) // g.stride
        terms = {}
        for i, (x, k) in t.items():
            ks = scval_int(k)
            terms[i] = (x, (ks // g.stride) & M64)
        idx = from_lin(q, terms)
        self.oblige(s, f"memory-safety: {what} in bounds of {r.name}", z3.ULT(oz(idx), oz(g.n)), 'safety')
        return r, 'seg', (g, idx, fo)

    def load(self, s, p, ty, order='na'):
        """yields value (hooks may raise Fork via returning list)"""
        if ty.kind == 'struct':
            return Agg([self.load(s, p.add(off), t) for off, t in ty.fields])
        if ty.kind == 'array':
            return Agg([self.load(s, p.add(i * ty.elem.size), ty.elem) for i in range(ty.n)])
        if ty.kind == 'vector':
            return Agg([self.load(s, p.add(i * ty.elem.size), ty.elem) for i in range(ty.n)])
        size = ty.size
        r, k, info = self.locate(s, p, size, 'read')
        if k == 'seg':
            g, idx, fo = info
            return self.seg_load(s, r, g, idx, fo, ty)
        v = self.cell_load(s, r, info, size, ty)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if ty.kind == 'int':
            if isinstance(v, Ptr):
                v = self.p2i(v)
            if isinstance(v, Opaque):
                return fbv('opq', ty.width)
            w = ty.width
            if w == 1:
                if z3.is_bool(v):
                    return v
                return z3.Extract(0, 0, v) == 1
            if z3.is_bool(v):
                return z3.If(v, bv(1, w), bv(0, w))
            if v.size() != w:
                if v.size() > w:
                    return simp(z3.Extract(w - 1, 0, v))
                return z3.ZeroExt(w - v.size(), v)
            return v
        if ty.kind == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Opaque):
                return v
            return self.i2p(v)
        return v

    def cell_load(self, s, r, off, size, ty):
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # overlap?
        cover = []
        for o, (sz, v) in r.cells.items():
            if o < off + size and off < o + sz:
                cover.append((o, sz, v))
        if not cover:
            v = self.default_value(s, r, off, size, ty)
            r = s.wreg(r.id)
            r.cells[off] = (size, v)
            return v
        if ty.kind == 'ptr' and size == 8:
            pass
        bytes_ = []
        for i in range(size):
            a = off + i
            hit = None
            for (o, sz, v) in cover:
                if o <= a < o + sz:
                    hit = (o, sz, v)
                    break
            if hit is None:
                bval = self.default_value(s, r, a, 1, None)
                s.wreg(r.id).cells[a] = (1, bval)
                bytes_.append(bval)
                r = s.mem[r.id]
                continue
            o, sz, v = hit
            if isinstance(v, Ptr):
                v = self.p2i(v)
            if isinstance(v, Opaque):
                if ty is not None and ty.kind in ('double', 'float'):
                    return Opaque('fp')
                bytes_.append(fbv('opq', 8))
                continue
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8 * sz), bv(0, 8 * sz))
            k = a - o
            if v.size() == 8:
                bytes_.append(v)
            elif 8 * k + 7 < v.size():
                bytes_.append(z3.Extract(8 * k + 7, 8 * k, v))
            else:
                bytes_.append(bv(0, 8))
        if len(bytes_) == 1:
            return simp(bytes_[0])
        return simp(z3.Concat(*reversed(bytes_)))

    def default_value(self, s, r, off, size, ty):
        if r.init == 'zero':
            if ty is not None and ty.kind == 'ptr':
                return NULL
            return bv(0, 8 * size)
        if ty is not None and ty.kind == 'ptr':
            if r.init == 'input':
                raise Unsupported(f"pointer read from unmodelled input memory {r.name}+{off}")
            return Opaque('uninit-ptr')
        if ty is not None and ty.kind in ('float', 'double', 'x86_fp80'):
            return Opaque('fp')
        return fbv(f"{r.name}+{off}", 8 * size)

    def store(self, s, p, v, ty, order='na'):
        if ty.kind == 'struct':
            for (off, t), x in zip(ty.fields, v.v):
                self.store(s, p.add(off), x, t)
            return
        if ty.kind in ('array', 'vector'):
            for i, x in enumerate(v.v):
                self.store(s, p.add(i * ty.elem.size), x, ty.elem)
            return
        size = ty.size
        r, k, info = self.locate(s, p, size, 'write')
        if r.const:
            self.oblige(s, f"memory-safety: write to constant {r.name}", False, 'safety')
            raise Infeasible()
        if ty.kind == 'int' and not isinstance(v, (Ptr, Opaque)):
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            elif v.size() < 8 * size:
                v = z3.ZeroExt(8 * size - v.size(), v)
            h = self.ptrints.get(v.get_id())
            if h is not None:
                v = h[1]
        if k == 'seg':
            g, idx, fo = info
            return self.seg_store(s, r, g, idx, fo, v, size)
        self.cell_store(s, r.id, info, size, v)

    def cell_store(self, s, rid, off, size, v):
        r = s.wreg(rid)
        c = r.cells.get(off)
        if c is None or c[0] != size:
            for o in [o for o, (sz, _) in r.cells.items() if o < off + size and off < o + sz]:
                sz, old = r.cells.pop(o)
                s.writes.add((rid, 'c', o, sz))
                # keep the parts outside
                if isinstance(old, (Ptr, Opaque)):
                    if o >= off and o + sz <= off + size:
                        continue
                    old = self.p2i(old) if isinstance(old, Ptr) else fbv('opq', 8 * sz)
                if z3.is_bool(old):
                    old = z3.If(old, bv(1, 8 * sz), bv(0, 8 * sz))
                if o < off:
                    n = off - o
                    r.cells[o] = (n, simp(z3.Extract(8 * n - 1, 0, old)))
                if o + sz > off + size:
                    n = o + sz - (off + size)
                    r.cells[off + size] = (n, simp(z3.Extract(8 * sz - 1, 8 * (sz - n), old)))
        r.cells[off] = (size, v)
        s.writes.add((rid, 'c', off, size))

    def seg_field(self, g, fo, size):
        f = g.fields.get(fo)
        if f is not None and f[1] == size:
            return fo, f
        return None, None

    def seg_load(self, s, r, g, idx, fo, ty):
        k, f = self.seg_field(g, fo, ty.size)
        if f is None:
            # partial / wide access on byte segments
            if g.stride == 1 and 0 in g.fields and g.fields[0][0] == 'int':
                arr = g.fields[0][2]
                bs = [z3.Select(arr, simp(oz(oadd(idx, i)))) for i in range(ty.size)]
                if ty.size > 1:
                    self.oblige(s, f"memory-safety: read in bounds of {r.name}", z3.ULT(oz(oadd(idx, ty.size - 1)), oz(g.n)), 'safety')
                return self.coerce(simp(z3.Concat(*reversed(bs))), ty)
            raise Unsupported(f"segment field {fo}/{ty.size} of {r.name}")
        if f[0] == 'int':
            v = z3.Select(f[2], oz(idx))
            return self.coerce(simp(v), ty)
        if f[0].startswith('ptr:'):
            _, rid, stride = f[0].split(':')
            t = z3.Select(f[2], oz(idx))
            return Ptr(rid, t * bv(int(stride)))
        if f[0] == 'opaque':
            return Opaque('seg')
        if f[0] == 'const':
            return f[3]
        raise Unsupported(f"segment load kind {f[0]}")

    def seg_store(self, s, r, g, idx, fo, v, size):
        gi = r.segs.index(g)
        r = s.wreg(r.id)
        g = r.segs[gi]
        k, f = self.seg_field(g, fo, size)
        if f is None:
            if g.stride == 1 and 0 in g.fields and g.fields[0][0] == 'int' and not isinstance(v, (Ptr, Opaque)):
                f = g.fields[0]
                for i in range(size):
                    f[2] = z3.Store(f[2], oz(oadd(idx, i)), simp(z3.Extract(8 * i + 7, 8 * i, v)))
                s.writes.add((r.id, 's', gi, 0))
                return
            raise Unsupported(f"segment store field {fo}/{size} of {r.name}")
        s.writes.add((r.id, 's', gi, fo))
        if f[0] == 'int':
            if isinstance(v, Ptr):
                v = self.p2i(v)
            f[2] = z3.Store(f[2], oz(idx), v)
            return
        if f[0].startswith('ptr:'):
            _, rid, stride = f[0].split(':')
            if not isinstance(v, Ptr) or v.r != rid:
                raise Unsupported("store of foreign pointer into pointer segment")
            c, t = linform(v.o)
            st = int(stride)
            if c % st or any(k % st for _, k in t.values()):
                raise Unsupported("unaligned pointer into pointer segment")
            e = from_lin(c // st, {i: (x, k // st) for i, (x, k) in t.items()})
            f[2] = z3.Store(f[2], oz(idx), oz(e))
            return
        if f[0] == 'opaque':
            return
        raise Unsupported(f"segment store kind {f[0]}")

    def hook_for(self, s, p):
        if not isinstance(p, Ptr) or p.r is None or isinstance(p.r, tuple):
            return None
        r = s.mem.get(p.r)
        if r is None:
            return None
        if isinstance(p.o, int):
            h = r.hooks.get(p.o)
            if h is not None:
                s.steps += 1
                return h
        if r.segs:
            c = linform(p.o)[0]
            for g in r.segs:
                if g.hook is not None and isinstance(g.n, int) and g.start <= c < g.start + g.n * g.stride:
                    s.steps += 1
                    return g.hook
        h = r.hooks.get('*')
        if h is not None:
            s.steps += 1
        return h

    # ------------------------------------------------------------ globals
    def load_global(self, s, rid):
        name = rid[1:]
        ref = self.mod.globals.get(name)
        if ref is None:
            raise Unsupported(f"global {name}")
        T = self.mod.type(llvm.LLVMGlobalGetValueType(ref))
        const = bool(llvm.LLVMIsGlobalConstant(ref)) or name.startswith('_ZTV') or name.startswith('_ZTI')
        r = Region(rid, name, T.size if T.size else None, 'input')
        r.own = s.sid
        init = llvm.LLVMGetInitializer(ref)
        if const and init:
            self._ginit(s, r, 0, self.mod.val(init), T)
            r.init = 'zero'
            r.const = True
        s.mem[rid] = r

    def _ginit(self, s, r, off, v, T):
        k = v.kind
        if k == 'zeroinit' or k in ('undef', 'poison'):
            if T.kind in ('int', 'ptr'):
                r.cells[off] = (T.size, NULL if T.kind == 'ptr' else bv(0, 8 * T.size))
            return  # init zero default
        if T.kind == 'struct':
            for i, (o, t) in enumerate(T.fields):
                self._ginit(s, r, off + o, self.mod.val(llvm.LLVMGetAggregateElement(v.ref, i)), t)
            return
        if T.kind in ('array', 'vector'):
            for i in range(T.n):
                self._ginit(s, r, off + i * T.elem.size, self.mod.val(llvm.LLVMGetAggregateElement(v.ref, i)), T.elem)
            return
        x = self.const(s, v)
        if T.kind == 'int' and not isinstance(x, Ptr):
            if z3.is_bool(x):
                x = z3.If(x, bv(1, 8), bv(0, 8))
            elif x.size() < 8 * T.size:
                x = z3.ZeroExt(8 * T.size - x.size(), x)
        r.cells[off] = (T.size, x)

    def const(self, s, v):
        k = v.kind
        if k == 'cint':
            w = v.ty.width
            if w == 1:
                return z3.BoolVal(bool(v.x))
            if w > 64:
                if llvm.LLVMIsNull(v.ref):
                    return bv(0, w)
                raise Unsupported("wide constant")
            return bv(v.x, w)
        if k == 'nullptr':
            return NULL
        if k == 'func':
            return Ptr(('fn', v.x.name), 0)
        if k == 'alias':
            return self.const(s, self.mod.val(v.x))
        if k == 'gvar':
            return Ptr('@' + v.x, 0)
        if k in ('undef', 'poison'):
            return self.undef(v.ty)
        if k == 'zeroinit':
            return self.zero(v.ty)
        if k == 'cfp':
            try:
                return FPI.const(llvm.LLVMConstRealGetDouble(v.ref, C.byref(C.c_int())))
            except Exception:
                return Opaque('fp')
        if k in ('cstruct', 'carray', 'cdataarray', 'cdatavector', 'cvector'):
            n = v.ty.n
            return Agg([self.const(s, self.mod.val(llvm.LLVMGetAggregateElement(v.ref, i))) for i in range(n)])
        if k == 'cexpr':
            op, ops, T = v.x
            if op == 'gep':
                return self.gep(self.const(s, ops[0]), T, [self.const(s, o) for o in ops[1:]])
            if op in ('bitcast', 'addrspacecast'):
                return self.const(s, ops[0])
            if op == 'ptrtoint':
                return self.coerce(self.const(s, ops[0]), v.ty)
            if op == 'inttoptr':
                return self.i2p(self.const(s, ops[0]))
            if op in ('sub', 'add'):
                a, b = [self.const(s, o) for o in ops]
                return self.binop(s, op, a, b, v.ty)
            raise Unsupported(f"constant expression {op}")
        raise Unsupported(f"constant kind {k}: {v}")

    def undef(self, ty):
        if ty.kind == 'int':
            return fbv('undef', ty.width)
        if ty.kind in ('struct',):
            return Agg([self.undef(t) for _, t in ty.fields])
        if ty.kind in ('array', 'vector'):
            return Agg([self.undef(ty.elem) for _ in range(ty.n)])
        return Opaque('undef')

    def zero(self, ty):
        if ty.kind == 'int':
            return z3.BoolVal(False) if ty.width == 1 else bv(0, ty.width)
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return Agg([self.zero(t) for _, t in ty.fields])
        if ty.kind in ('array', 'vector'):
            return Agg([self.zero(ty.elem) for _ in range(ty.n)])
        return Opaque('zero')

    def gep(self, p, T, idx):
        if isinstance(p, Opaque):
            return p
        if not isinstance(p, Ptr):
            p = self.i2p(p)
        off = p.o
        for j, i in enumerate(idx):
            if j == 0:
                off = oadd(off, self.scale(i, T.size))
                continue
            if T.kind == 'struct':
                o, T2 = T.fields[cval(i)]
                off = oadd(off, o)
                T = T2
            elif T.kind in ('array', 'vector'):
                off = oadd(off, self.scale(i, T.elem.size))
                T = T.elem
            else:
                raise Unsupported(f"gep into {T}")
        return Ptr(p.r, off)

    def scale(self, i, k):
        v = scval(i) if not isinstance(i, int) else i
        if v is not None:
            return (v * k) & M64
        if i.size() < 64:
            i = self.sext(i, 64)
        return i * bv(k) if k != 1 else i

    def sext(self, i, w):
        return simp(z3.SignExt(w - i.size(), i))

    # ------------------------------------------------------------ instruction evaluation
    def ev(self, s, x):
        if isinstance(x, llvm.Inst) or (isinstance(x, llvm.Val) and x.kind == 'arg'):
            f = s.frames[-1]
            try:
                return f.locs[x.ref]
            except KeyError:
                raise Unsupported(f"undefined SSA value {x}")
        v = self._cc.get(x.ref)
        if v is None:
            v = self.const(s, x)
            if x.kind in ('cint', 'nullptr', 'func', 'gvar'):
                self._cc[x.ref] = v
        return v

    def binop(self, s, op, a, b, ty, I=None):
        if ty.kind in ('float', 'double', 'x86_fp80', 'vector'):
            return fpi_bin(op, a, b) if ty.kind == 'double' else Opaque('fp')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fbv('opq', ty.width)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.as_int(a), self.as_int(b)
        w = ty.width
        if w == 1:
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Unsupported(f"i1 {op}")
        if op == 'sub':
            ha, hb = self.ptrints.get(a.get_id()), self.ptrints.get(b.get_id())
            if ha and hb and ha[1].r == hb[1].r:
                d = oz(osub(ha[1].o, hb[1].o))
                self.ptrdiff.add(d.get_id())
                self.keep.append(d)
                return d
        if op == 'add':
            for x, y in ((a, b), (b, a)):
                hx = self.ptrints.get(x.get_id())
                if hx:
                    return self.p2i(hx[1].add(y))
        if op == 'sdiv' and a.get_id() in self.ptrdiff and is_c(b):
            c, t = linform(a)
            k = cval(b)
            cs = scval_int(c)
            if cs % k == 0 and all(scval_int(q) % k == 0 for _, q in t.values()):
                r = oz(from_lin((cs // k) & M64, {i: (x, (scval_int(q) // k) & M64) for i, (x, q) in t.items()}))
                return r
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not is_c(b):
                self.oblige(s, "arithmetic: division by zero", b != 0, 'safety')
            elif cval(b) == 0:
                self.oblige(s, "arithmetic: division by zero", False, 'safety')
                raise Infeasible()
        e = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b),
             'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b),
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
             'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
        if self.check_overflow and I is not None and op in ('add', 'sub', 'mul'):
            pass
        if is_c(a) and is_c(b):
            e = simp(e)
        elif is_c(a) or is_c(b):
            e = simp(e)
        return e

    def icmp(self, s, pred, a, b):
        c = self.icmp_(s, pred, a, b)
        h = self.harvest
        if h is not None and z3.is_expr(c) and s.cuts and s.cuts[-1].header is h[0] and s.cuts[-1].probe:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                a, b = oz(a.o), oz(b.o)
            if z3.is_bv(a) and z3.is_bv(b) and not (is_c(a) and is_c(b)):
                h[1].setdefault((a.get_id(), b.get_id()), (a, b))
        return c

    def icmp_(self, s, pred, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return fbv('opqcmp', 1)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred == 'eq':
                    return self.ptr_eq(s, a, b)
                if pred == 'ne':
                    return simp(z3.Not(self.ptr_eq(s, a, b)))
                if a.r == b.r:
                    a, b = oz(a.o), oz(b.o)
                else:
                    a, b = self.p2i(a), self.p2i(b)
            else:
                a, b = self.as_int(a), self.as_int(b)
        if z3.is_bool(a):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            A = z3.If(a, bv(1, 8), bv(0, 8))
            B = z3.If(b, bv(1, 8), bv(0, 8))
            a, b = (z3.If(a, bv(255, 8), bv(0, 8)), z3.If(b, bv(255, 8), bv(0, 8))) if pred[0] == 's' else (A, B)
        if pred in ('eq', 'ne'):
            ha, hb = self.ptrints.get(a.get_id()), self.ptrints.get(b.get_id())
            if ha and hb:
                q = self.ptr_eq(s, ha[1], hb[1])
                return q if pred == 'eq' else simp(z3.Not(q))
            # pointer differences compared with constants: n*k == c
            for x, y in ((a, b), (b, a)):
                if x.get_id() in self.ptrdiff and is_c(y):
                    c, t = linform(x)
                    if len(t) >= 1:
                        from math import gcd
                        k = 0
                        for _, q in t.values():
                            k = gcd(k, abs(scval_int(q)))
                        k = gcd(k, abs(scval_int(c)))
                        if k > 1 and scval(y) % k == 0:
                            rr = oz(from_lin((scval_int(c) // k) & M64, {i: (z, (scval_int(q) // k) & M64) for i, (z, q) in t.items()}))
                            e = rr == bv((scval(y) // k) & M64)
                            return simp(e) if pred == 'eq' else simp(z3.Not(e))
        e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
        return simp(e)

    def cast(self, s, op, v, fr, to):
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint':
            return self.coerce(v, to)
        if op == 'inttoptr':
            return self.i2p(v)
        if to.kind in ('float', 'double', 'x86_fp80', 'half') or fr.kind in ('float', 'double', 'x86_fp80'):
            if to.kind == 'int':
                r = fbv('fpint', to.width)
                if isinstance(v, FPI) and op == 'fptoui' and to.width == 64:
                    s.assume(z3.Implies(z3.And(*v.guards, FPI.small(v.ub)), z3.And(z3.ULE(v.lb, r), z3.ULE(r, v.ub))))
                return r
            if op == 'uitofp' and z3.is_bv(v) and v.size() <= 64 and to.kind == 'double':
                x = v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
                return FPI(x, x)
            return v if op in ('fpext', 'freeze') and isinstance(v, FPI) else Opaque('fp')
        if isinstance(v, Opaque):
            return fbv('opq', to.width)
        if isinstance(v, Ptr):
            v = self.p2i(v)
        w = to.width
        if op == 'trunc':
            if w == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w - 1, 0, v))
        if z3.is_bool(v):
            if op == 'zext':
                return simp(z3.If(v, bv(1, w), bv(0, w)))
            return simp(z3.If(v, bv((1 << w) - 1, w), bv(0, w)))
        if op == 'zext':
            return simp(z3.ZeroExt(w - v.size(), v))
        if op == 'sext':
            return simp(z3.SignExt(w - v.size(), v))
        raise Unsupported(op)

    # ------------------------------------------------------------ execution
    def call(self, s, fn, args):
        """push a frame for fn"""
        f = Frame()
        f.fn = fn
        f.blk = fn.blocks[0]
        f.i = 0
        f.prev = None
        f.locs = {}
        f.allocas = []
        f.call = None
        f.depth = len(s.frames)
        if len(s.frames) > self.max_depth:
            raise Unsupported("inlining depth (recursion?)")
        for i, a in enumerate(args):
            p = llvm.LLVMGetParam(fn.ref, i)
            f.locs[p] = a
        s.frames.append(f)
        self.visited[fn.name] = self.visited.get(fn.name, 0) + 1

    def run_fn(self, s, fn, args):
        """execute fn from state s to completion; returns list of outcomes
           ('ret', state, value) | ('throw', state, exc) | ('stop', state, tag)"""
        base = len(s.frames)
        self.call(s, fn, args)
        return self.explore(s, base)

    def explore(self, s, base):
        work = [s]
        outs = []
        while work:
            st = work.pop()
            try:
                r = self.run_path(st, base)
            except Infeasible:
                continue
            for x in r:
                if isinstance(x, State):
                    work.append(x)
                else:
                    outs.append(x)
                    self.stats['paths'] += 1
        return outs

    def run_path(self, s, base):
        while True:
            f = s.frames[-1]
            I = f.blk.insts[f.i]
            self.stats['insts'] += 1
            r = self.step(s, f, I, base)
            if r is not None:
                return r

    def setv(self, s, I, v):
        s.frames[-1].locs[I.ref] = v

    def jump(self, s, f, to, base):
        frm = f.blk
        d = f.depth
        # leaving cuts
        while s.cuts and s.cuts[-1].depth == d:
            c = s.cuts[-1]
            if to is c.header:
                f.prev = frm
                f.blk = to
                f.i = 0
                if not c.probe and c.pure == s.steps:
                    self.oblige(s, "a loop round that does nothing is not repeated for ever", False, 'progress')
                return [('back', s, c)] if c.probe else []
            if to not in c.blocks:
                if c.probe:
                    return [('exit', s, c)]
                s.cuts.pop()
                continue
            break
        f.prev = frm
        f.blk = to
        f.i = 0
        loops = f.fn.loops
        if f.fn.irreducible:
            raise Unsupported(f"irreducible control flow in {f.fn.short}")
        if to in loops:
            return self.cut_loop(s, f, to, loops[to], base)
        return None

    def do_phis(self, s, f):
        vals = []
        i = f.i
        while f.blk.insts[i].op == 'phi':
            I = f.blk.insts[i]
            vals.append((I, self.ev(s, I.x[f.prev])))
            i += 1
        for I, v in vals:
            f.locs[I.ref] = v
        f.i = i

    def step(self, s, f, I, base):
        op = I.op
        if op == 'alloca':
            n = cval(self.ev(s, I.ops[0]))
            r = s.new_region(f"{f.fn.name[:40]}:{I.line or 0}.{I.idx}", (n or 1) * I.x.size)
            r.tag = ('alloca', I.ref)
            f.allocas.append(r.id)
            f.locs[I.ref] = Ptr(r.id, 0)
        elif op == 'load':
            p = self.ev(s, I.ops[0])
            h = self.hook_for(s, p)
            if h is not None:
                return self.outcomes(s, f, I, h.load(self, s, p, I.ty, I.x), base)
            f.locs[I.ref] = self.load(s, p if isinstance(p, Ptr) else self.i2p_op(s, p), I.ty, I.x)
        elif op == 'store':
            v = self.ev(s, I.ops[0])
            p = self.ev(s, I.ops[1])
            h = self.hook_for(s, p)
            if h is not None:
                return self.outcomes(s, f, I, h.store(self, s, p, v, I.ops[0].ty, I.x), base)
            self.store(s, p if isinstance(p, Ptr) else self.i2p_op(s, p), v, I.ops[0].ty, I.x)
        elif op == 'br':
            if not I.ops:
                return self.jump(s, f, I.x[0], base)
            c = self.ev(s, I.ops[0])
            if isinstance(c, Opaque):
                c = fbv('opq', 1)
            outs = []
            res = self.branch(s, c)
            if len(res) == 1:
                st, b = res[0]
                return self.jump(st, st.frames[-1], I.x[0 if b else 1], base)
            for st, b in res:
                r = self.jump(st, st.frames[-1], I.x[0 if b else 1], base)
                outs.extend(r if r is not None else [st])
            return outs
        elif op == 'switch':
            v = self.ev(s, I.ops[0])
            d, cases = I.x
            outs = []
            cur = s
            for cv, blk in cases:
                done = False
                nxt = None
                for st, b in self.branch(cur, self.icmp(cur, 'eq', v, bv(cv, I.ops[0].ty.width))):
                    if b:
                        r = self.jump(st, st.frames[-1], blk, base)
                        outs.extend(r if r is not None else [st])
                    else:
                        nxt = st
                if nxt is None:
                    return outs
                cur = nxt
            r = self.jump(cur, cur.frames[-1], d, base)
            outs.extend(r if r is not None else [cur])
            return outs
        elif op == 'phi':
            self.do_phis(s, f)
            return None
        elif op == 'ret':
            v = self.ev(s, I.ops[0]) if I.ops else None
            return self.do_ret(s, v, base)
        elif op in ('call', 'invoke'):
            return self.do_call(s, f, I, base)
        elif op == 'gep':
            f.locs[I.ref] = self.gep(self.ev(s, I.ops[0]), I.x, [self.ev(s, o) for o in I.ops[1:]])
        elif op == 'icmp':
            f.locs[I.ref] = self.icmp(s, I.x, self.ev(s, I.ops[0]), self.ev(s, I.ops[1]))
        elif op == 'fcmp':
            f.locs[I.ref] = fbv('fcmp', 1)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            f.locs[I.ref] = self.binop(s, op, self.ev(s, I.ops[0]), self.ev(s, I.ops[1]), I.ty, I)
        elif op == 'fneg':
            f.locs[I.ref] = Opaque('fp')
        elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint',
                    'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            f.locs[I.ref] = self.cast(s, op, self.ev(s, I.ops[0]), I.ops[0].ty, I.ty)
        elif op == 'select':
            c = self.ev(s, I.ops[0])
            a, b = self.ev(s, I.ops[1]), self.ev(s, I.ops[2])
            c = simp(c)
            if z3.is_true(c):
                v = a
            elif z3.is_false(c):
                v = b
            elif isinstance(a, (Ptr, Opaque, Agg)) or isinstance(b, (Ptr, Opaque, Agg)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    v = Ptr(a.r, z3.If(c, oz(a.o), oz(b.o)))
                else:
                    outs = []
                    for st, t in self.branch(s, c):
                        st.frames[-1].locs[I.ref] = a if t else b
                        st.frames[-1].i += 1
                        outs.append(st)
                    return outs
            else:
                v = simp(z3.If(c, a, b))
            f.locs[I.ref] = v
        elif op == 'extractvalue':
            v = self.ev(s, I.ops[0])
            for k in I.x:
                v = v.v[k]
            f.locs[I.ref] = v
        elif op == 'insertvalue':
            v = self.ev(s, I.ops[0])
            x = self.ev(s, I.ops[1])

            def ins(a, idx):
                r = Agg(a.v if isinstance(a, Agg) else [Opaque()] * 8)
                r.v[idx[0]] = x if len(idx) == 1 else ins(r.v[idx[0]], idx[1:])
                return r

            f.locs[I.ref] = ins(v, I.x)
        elif op == 'cmpxchg':
            p, e, n = [self.ev(s, o) for o in I.ops[:3]]
            h = self.hook_for(s, p)
            if h is not None:
                return self.outcomes(s, f, I, h.cmpxchg(self, s, p, e, n, I.ops[1].ty, I.x), base)
            T = I.ops[1].ty
            old = self.load(s, p, T)
            eq = self.icmp(s, 'eq', old, e)
            outs = []
            for st, b in self.branch(s, eq):
                if b:
                    self.store(st, p, n, T)
                st.frames[-1].locs[I.ref] = Agg([old, z3.BoolVal(b)])
                st.frames[-1].i += 1
                outs.append(st)
            return outs
        elif op == 'atomicrmw':
            p, v = self.ev(s, I.ops[0]), self.ev(s, I.ops[1])
            h = self.hook_for(s, p)
            if h is not None:
                return self.outcomes(s, f, I, h.rmw(self, s, p, I.x[0], v, I.ty, I.x[1]), base)
            old = self.load(s, p, I.ty)
            nv = self.rmw_value(s, I.x[0], old, v, I.ty)
            self.store(s, p, nv, I.ty)
            f.locs[I.ref] = old
        elif op == 'fence':
            s.trace.append(('fence', I.x))
        elif op == 'landingpad':
            f.locs[I.ref] = Agg([s.exc[0], s.exc[2]])
        elif op == 'resume':
            v = self.ev(s, I.ops[0])
            return self.unwind(s, s.exc, base)
        elif op == 'unreachable':
            self.oblige(s, "control reaches unreachable", False, 'safety')
            return []
        elif op == 'extractelement' or op == 'insertelement' or op == 'shufflevector':
            raise Unsupported(op)
        else:
            raise Unsupported(f"instruction {I}")
        s.frames[-1].i += 1
        return None

    def rmw_value(self, s, op, old, v, ty):
        if op == 'xchg':
            return v
        if op in ('add', 'sub', 'and', 'or', 'xor'):
            return self.binop(s, op, old, v, ty)
        raise Unsupported(f"atomicrmw {op}")

    def i2p_op(self, s, p):
        if isinstance(p, Opaque):
            self.oblige(s, f"memory-safety: access through uninitialised pointer", False, 'safety')
            raise Infeasible()
        return self.i2p(p)

    def outcomes(self, s, f, I, res, base):
        """res: list of (state, kind, value) with kind 'val' | 'throw' | 'enter' | 'stop' ; or single value"""
        if res is None:
            res = [(s, 'val', None)]
        elif not isinstance(res, list):
            res = [(s, 'val', res)]
        outs = []
        for x in res:
            st, kind, v = x[0], x[1], x[2]
            if kind == 'val':
                if I.ty.kind != 'void':
                    st.frames[-1].locs[I.ref] = v
                outs.extend(self.after_call(st, I, base))
            elif kind == 'throw':
                outs.extend(self.unwind(st, v, base))
            elif kind == 'enter':
                fr = st.frames[-1]
                self.call(st, v[0], v[1])
                st.frames[-1].call = I
                outs.append(st)
            elif kind == 'stop':
                outs.append(('stop', st, v))
        if len(outs) == 1 and outs[0] is s:
            return None
        return outs

    def after_call(self, s, I, base):
        f = s.frames[-1]
        if I.op == 'invoke':
            r = self.jump(s, f, I.x[1], base)
            return r if r is not None else [s]
        f.i += 1
        return [s]

    def pop_frame(self, s):
        f = s.frames.pop()
        for rid in f.allocas:
            s.mem.pop(rid, None)
        return f

    def leave_cuts(self, s, d):
        """frame depth d is being left (return/unwind). Returns probe cut hit or None"""
        while s.cuts and s.cuts[-1].depth >= d:
            c = s.cuts[-1]
            if c.probe:
                return c
            s.cuts.pop()
        return None

    def do_ret(self, s, v, base):
        d = s.frames[-1].depth
        c = self.leave_cuts(s, d)
        if c is not None:
            return [('exit', s, c)]
        self.pop_frame(s)
        if len(s.frames) <= base:
            return [('ret', s, v)]
        f = s.frames[-1]
        I = f.blk.insts[f.i]
        if I.ty.kind != 'void':
            f.locs[I.ref] = v
        return self.after_call(s, I, base)

    def unwind(self, s, exc, base):
        """exc: (Ptr obj, tiname, selector)"""
        first = True
        while True:
            if len(s.frames) <= base:
                return [('throw', s, exc)]
            f = s.frames[-1]
            I = f.blk.insts[f.i]
            if I.op == 'invoke':
                lp = self.find_landing(s, I, exc)
                if lp is not None:
                    s.exc = (exc[0], exc[1], lp)
                    r = self.jump(s, f, I.x[2], base)
                    return r if r is not None else [s]
            c = self.leave_cuts(s, f.depth)
            if c is not None:
                return [('exit', s, c)]
            self.pop_frame(s)

    def tiid(self, name):
        if name not in self.tiids:
            self.tiids[name] = len(self.tiids) + 1
        return bv(self.tiids[name], 32)

    def find_landing(self, s, I, exc):
        B = I.x[2]
        for J in B.insts:
            if J.op == 'landingpad':
                break
        else:
            raise Unsupported("no landingpad")
        clauses, cleanup = J.x
        for c in clauses:
            if c.kind in ('zeroinit', 'carray') :
                # filter clause (noexcept spec): treat as terminate
                return bv(0xffffffff, 32)
            v = self.const(s, c)
            if v.r is None:
                return self.tiid('*')
            if self.ti_match(exc[1], v.r[1:]):
                return self.tiid(v.r[1:])
        if cleanup:
            return bv(0, 32)
        return None

    STD_TI = {'_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
              '_ZTISt12domain_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
              '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
              '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
              '_ZTISt15underflow_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
              '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
              '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
              '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTISt9exception': []}

    def ti_bases(self, ti):
        if ti in self.STD_TI:
            return self.STD_TI[ti]
        ref = self.mod.globals.get(ti)
        out = []
        if ref is not None:
            init = llvm.LLVMGetInitializer(ref)
            if init:
                v = self.mod.val(init)
                n = v.ty.n
                for i in range(2, n):
                    e = self.mod.val(llvm.LLVMGetAggregateElement(init, i))
                    if e.kind == 'gvar':
                        out.append(e.x)
        return out

    def ti_match(self, thrown, catch):
        if thrown == catch:
            return True
        if thrown == '?' :
            return catch == '?'
        return any(self.ti_match(b, catch) for b in self.ti_bases(thrown))

    def throw_new(self, s, ti, size=16, tag=None):
        r = s.new_region('exc:' + ti, size)
        r.tag = ('exc', tag)
        return (Ptr(r.id, 0), ti, None)

    # ------------------------------------------------------------ calls
    def do_call(self, s, f, I, base):
        callee = I.x[0]
        if isinstance(callee, llvm.Val) and callee.kind == 'func':
            fn = callee.x
        elif isinstance(callee, llvm.Val) and callee.kind == 'inlineasm':
            f.i += 1
            return None
        else:
            p = self.ev(s, callee)
            if isinstance(p, Opaque):
                raise Unsupported("indirect call through unmodelled pointer")
            if isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'fn':
                fn = self.mod.funcs.get(p.r[1])
                if fn is None:
                    raise Unsupported(f"call to {p.r[1]}")
            elif isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'cb':
                args = [self.ev(s, o) if o is not None else None for o in I.ops]
                s.steps += 1
                return self.outcomes(s, f, I, p.r[1](self, s, I, args), base)
            else:
                raise Unsupported(f"indirect call to {p}")
        args = [self.ev(s, o) if o is not None else None for o in I.ops]
        h = self.find_handler(fn)
        if h is not None:
            s.steps += 1
            res = h(self, s, I, args, fn)
            if res is not NotImplemented:
                return self.outcomes(s, f, I, res, base)
        if fn.decl:
            raise Unsupported(f"external function {fn.dem}")
        # byval arguments would need copies
        self.call(s, fn, args)
        s.frames[-1].call = I
        return None

    def find_handler(self, fn):
        h = self._hc.get(fn.name, 0) if hasattr(self, '_hc') else 0
        if h != 0:
            return h
        if not hasattr(self, '_hc'):
            self._hc = {}
        d = fn.dem
        res = None
        for rx, hd in self.contracts:
            if rx.search(d):
                res = hd.select(fn) if hasattr(hd, 'select') else hd
                if res is None:
                    continue
                break
        if res is None:
            for rx, hd in self.lib:
                if rx.search(d):
                    res = hd
                    self.trusted_used[getattr(hd, '_desc', rx.pattern)] = self.trusted_used.get(getattr(hd, '_desc', rx.pattern), 0) + 1
                    break
        self._hc[fn.name] = res
        return res

    def contract(self, rx, handler):
        self.contracts.append((re.compile(rx), handler))
        if hasattr(self, '_hc'):
            del self._hc

    # ------------------------------------------------------------ loops
    def havoc(self, s, keys, ends, entry):
        """havoc the written locations in s (at loop header)"""
        for k in sorted(keys, key=str):
            if k[0] == 'g':
                v = s.ghost.get(k[1])
                s.ghost[k[1]] = self.fresh_like('g_' + str(k[1]), v)
                continue
            rid = k[0]
            if rid not in s.mem:
                continue
            r = s.wreg(rid)
            if k[1] == 's':
                g = r.segs[k[2]]
                f = g.fields[k[3]]
                if f[2] is not None:
                    f[2] = fresh(f"{r.name}.{k[3]}", f[2].sort())
            elif k[1] == 'c':
                off, size = k[2], k[3]
                c = r.cells.get(off)
                if c is None or c[0] != size:
                    # not initialised (at this granularity) on entry: forget
                    for o in [o for o, (sz, _) in r.cells.items() if o < off + size and off < o + sz]:
                        sz, v = r.cells[o]
                        if isinstance(v, Ptr):
                            raise Unsupported("mixed-granularity havoc of pointer")
                        r.cells[o] = (sz, fbv(f"{r.name}+{o}", 8 * sz))
                    if c is None and r.init != 'undef' and off not in r.cells:
                        r.cells[off] = (size, fbv(f"{r.name}+{off}", 8 * size))
                    continue
                v = c[1]
                r.cells[off] = (size, self.havoc_val(s, r, off, size, v, ends))
            elif k[1] == 'dead':
                raise Unsupported(f"object {rid} freed inside a loop")
            else:
                raise Unsupported(f"havoc {k}")

    def havoc_val(self, s, r, off, size, v, ends):
        if isinstance(v, Opaque):
            return v
        # any pointer among end values?
        vals = [v]
        for e in ends:
            er = e.mem.get(r.id)
            if er is not None:
                c = er.cells.get(off)
                if c is not None and c[0] == size:
                    vals.append(c[1])
        ps = [x for x in vals if isinstance(x, Ptr)]
        if not ps:
            if isinstance(v, Opaque):
                return v
            w = v.size() if z3.is_bv(v) else 8 * size
            return fbv(f"{r.name}+{off}", w)
        rs = {p.r for p in ps}
        if len(rs) != 1 or len(ps) != len(vals):
            # pointer to different objects per iteration: dead on entry to the iteration? -> opaque
            # (reading it before it is rewritten is then reported as unsupported access)
            return Opaque('havoc-ptr')
        from math import gcd
        st = 0
        c0, t0 = linform(ps[0].o)
        for p in ps[1:]:
            d = osub(p.o, ps[0].o)
            c, t = linform(d)
            st = gcd(st, abs(scval_int(c)))
            for _, q in t.values():
                st = gcd(st, abs(scval_int(q)))
        if st == 0:
            return v
        n = fresh(f"it_{r.name}+{off}", BV64)
        s.pc.append(z3.And(n >= bv((-((1 << 62) // st)) & M64), n <= bv((1 << 62) // st)))  # objects are < 2^62 bytes
        return Ptr(ps[0].r, oadd(ps[0].o, n * bv(st)))

    def fresh_like(self, name, v):
        if v is None:
            raise Unsupported(f"havoc of unset ghost {name}")
        if isinstance(v, tuple):
            return tuple(self.fresh_like(name, x) for x in v)
        if isinstance(v, bool):
            return fresh(name, z3.BoolSort())
        if isinstance(v, int):
            raise Unsupported(f"havoc of python-int ghost {name}")
        if z3.is_expr(v):
            return fresh(name, v.sort())
        raise Unsupported(f"havoc of ghost {name}: {type(v)}")

    def cut_loop(self, s, f, header, blocks, base):
        if self.unroll and self.unroll(self, s, f, header):
            return None
        self.stats['loops'] += 1
        depth = f.depth
        entry = s
        outer_writes = s.writes
        fbase = base

        # phi nodes at header: resolve entry values as locals
        def enter(st):
            """make header state start after the phis, phi values already set"""
            ff = st.frames[-1]
            i = 0
            while ff.blk.insts[i].op == 'phi':
                i += 1
            ff.i = i
            return st

        phis = [J for J in header.insts if J.op == 'phi']
        entry = entry.copy()
        if phis:
            self.do_phis(entry, entry.frames[-1])
        M = set()
        ends = []

        def phi_val(st, J):
            return self.ev(st, J.x[st.frames[-1].prev])

        def mk(keys, ends_):
            st = entry.copy()
            st.writes = set()
            st.model = None
            self.havoc(st, keys, ends_, entry)
            for J in phis:
                v0 = entry.frames[-1].locs[J.ref]
                vs = [v0] + [phi_val(e, J) for e in ends_]
                if isinstance(v0, Ptr) or any(isinstance(x, Ptr) for x in vs):
                    rs = {x.r if isinstance(x, Ptr) else '?' for x in vs}
                    if len(rs) != 1:
                        raise Unsupported("phi over different objects")
                    from math import gcd
                    k = 0
                    for x in vs[1:]:
                        c, tt = linform(osub(x.o, v0.o))
                        for q in [c] + [q for _, q in tt.values()]:
                            k = gcd(k, abs(scval_int(q)))
                    k = k or 1
                    n = fresh('phi', BV64)
                    st.pc.append(z3.And(n >= bv((-((1 << 62) // k)) & M64), n <= bv((1 << 62) // k)))
                    n = n * bv(k) if k != 1 else n
                    st.frames[-1].locs[J.ref] = Ptr(v0.r, oadd(v0.o, n))
                elif z3.is_expr(v0):
                    st.frames[-1].locs[J.ref] = fresh('phi', v0.sort())
            st.cuts.append(Cut(depth, header, blocks, True))
            st.trace.append(('loop', header))
            return enter(st)

        self.suppress += 1
        try:
            # 1. modified set
            for _ in range(12):
                mark = next(_fresh)
                st = mk(M, ends)
                snap = st.copy()
                outer, self.harvest = self.harvest, (header, {})
                try:
                    outs = self.explore(st, base)
                finally:
                    seen, self.harvest = self.harvest[1], outer
                backs = [o for o in outs if o[0] == 'back']
                W = set()
                for o in outs:
                    W |= o[1].writes
                W = {k for k in W if k[0] == 'g' or k[0] in entry.mem}
                nb = [o[1] for o in backs]
                if W <= M and (len(nb) == len(ends) or _ > 3):
                    break
                M |= W
                ends = nb
            else:
                raise Unsupported("modified-set fixpoint")
            # also locations that exits write are merely post-loop effects of that path: already in M (over-approx)
            # 2. Houdini
            hs = mk(M, ends)
            cands = []
            for gen in self.cand_gens:
                cands.extend(gen(self, entry, hs, M, header))
            if self.cand_gens:
                cands.extend(self.harvested(seen.values(), snap, M, phis, mark))
            log = dict(header=f"{f.fn.short}:{header.insts[-1].line}", cands=len(cands))
            cands = self.filter_entry(entry, cands)
            log['entry'] = len(cands)
            rounds = 0
            while True:
                rounds += 1
                hs = mk(M, ends)
                fs = []
                live = []
                for c in cands:
                    x = c(hs)
                    if x is not None:
                        fs.append(x)
                        live.append(c)
                cands = live
                hs.pc.extend(fs)
                outs = self.explore(hs, base)
                nb = [o[1] for o in outs if o[0] == 'back']
                dropped = False
                for e in nb:
                    for J in phis:
                        e.frames[-1].locs[J.ref] = self.ev(e, J.x[e.frames[-1].prev])
                    keep = self.filter_state(e, cands)
                    if len(keep) != len(cands):
                        dropped = True
                        cands = keep
                self.stats['houdini'] += 1
                if not dropped:
                    break
            log['kept'] = len(cands)
            log['rounds'] = rounds
            log['names'] = [getattr(c, 'name', '?') for c in cands][:40]
            self.loop_log[log['header']] = log
        finally:
            self.suppress -= 1
        # 3. final
        st = mk(M, ends)
        st.cuts[-1] = Cut(depth, header, blocks, False)
        if not M and not phis:
            st.cuts[-1].pure = st.steps
        for c in cands:
            x = c(st)
            if x is not None:
                st.pc.append(x)
        st.writes = set(outer_writes) | M
        return [st]

    def harvested(self, pairs, snap, M, phis, mark):
        """candidate invariants from the comparisons the loop itself makes (whatever its shape): every two values
        compared, as functions of what the loop changes"""
        vary = {}

        def sym(v, get):
            if z3.is_bv(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vary[v.get_id()] = (v, get)

        for k in M:
            if len(k) == 4 and k[1] == 'c' and k[0] in snap.mem:
                c = snap.mem[k[0]].cells.get(k[2])
                if c is not None and c[0] == k[3]:
                    def get(st, k=k):
                        c = st.mem[k[0]].cells[k[2]]
                        if c[0] != k[3] or not z3.is_bv(c[1]):
                            raise KeyError(k)
                        return c[1]
                    sym(c[1], get)
            elif k[0] == 'g':
                sym(snap.ghost.get(k[1]), lambda st, k=k: st.ghost[k[1]])
        for J in phis:
            sym(snap.frames[-1].locs.get(J.ref), lambda st, J=J: st.frames[-1].locs[J.ref])

        def usable(e):
            """the changing symbols of a term, None if it depends on anything computed in the loop body"""
            out, todo, n = set(), [e], 0
            while todo:
                x = todo.pop()
                n += 1
                if n > 24 or not z3.is_bv(x):
                    return None
                if z3.is_const(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        if x.get_id() in vary:
                            out.add(x.get_id())
                        else:
                            t = x.decl().name().rpartition('!')[2]
                            if t.isdigit() and int(t) >= mark:
                                return None
                else:
                    todo.extend(x.children())
            return out

        from .cands import Cand
        out = []
        for a, b in list(pairs)[:24]:
            va, vb = usable(a), usable(b)
            if va is None or vb is None or not (va | vb):
                continue
            syms = [vary[i] for i in va | vb]
            for n, r in (('<=u', z3.ULE), ('>=u', z3.UGE), ('<=s', lambda x, y: x <= y), ('>=s', lambda x, y: x >= y), ('==', lambda x, y: x == y), ('!=', lambda x, y: x != y)):
                out.append(Cand(f"{a} {n} {b}"[:90], lambda st, e=r(a, b), syms=syms: z3.substitute(e, *[(v, g(st)) for v, g in syms])))
        return out

    def filter_entry(self, entry, cands):
        return self.filter_state(entry, cands, entry=True)

    def filter_state(self, st, cands, entry=False):
        """largest subset of cands each implied by st (model-guided)"""
        fs = []
        for c in cands:
            x = c(st)
            if x is None:
                continue
            if isinstance(x, bool):
                x = z3.BoolVal(x)
            fs.append((c, x))
        qf = [(c, x) for c, x in fs if not has_quant(x)]
        qq = [(c, x) for c, x in fs if has_quant(x)]
        keep = []
        sol = z3.SimpleSolver()
        sol.set('timeout', 10000)
        for f in st.pc:
            if not has_quant(f):
                sol.add(f)
        cur = list(qf)
        while cur:
            sol.push()
            sol.add(z3.Or([z3.Not(x) for _, x in cur]))
            r = sol.check()
            if r == z3.unsat:
                sol.pop()
                break
            if r == z3.sat:
                m = sol.model()
                sol.pop()
                n = [(c, x) for c, x in cur if not z3.is_false(m.eval(x, model_completion=True))]
                if len(n) == len(cur):
                    n2 = []
                    for c, x in cur:
                        if self.quick_valid(st, x):
                            n2.append((c, x))
                    cur = n2
                    break
                cur = n
            else:
                sol.pop()
                cur = [(c, x) for c, x in cur if self.quick_valid(st, x)]
                break
        # candidates refuted with QF facts only may hold with the quantified ones
        ids = {id(c) for c, _ in cur}
        if any(has_quant(f) for f in st.pc):
            for c, x in qf:
                if id(c) not in ids and getattr(c, 'strong', False) and self.quick_valid(st, x):
                    ids.add(id(c))
        for c, x in qq:
            if self.quick_valid(st, x, 8000):
                ids.add(id(c))
        return [c for c, x in fs if id(c) in ids]

    def quick_valid(self, st, x, to=4000):
        sol = z3.Solver()
        sol.set('timeout', to)
        sol.add(*st.pc)
        sol.add(z3.Not(x))
        return sol.check() == z3.unsat


_q = {}


def has_quant(e):
    if not z3.is_expr(e):
        return False
    i = e.get_id()
    if i in _q:
        return _q[i][1]
    r = False
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            if x.is_lambda():
                stack.append(x.body())
                continue
            r = True
            break
        stack.extend(x.children())
    _q[i] = (e, r)
    return r


def scval_int(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c
