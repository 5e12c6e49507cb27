"""Assumed contracts on what lies outside /repo (C++ runtime, libc, LLVM intrinsics).  Every handler
that a run actually uses is listed in the evidence as an assumption (`_desc`)."""
import re
import z3
from .engine import *

REG = []


def lib(rx, desc):
    def deco(fn):
        fn._desc = desc
        REG.append((re.compile(rx), fn))
        return fn

    return deco


def noop(eng, s, I, args, fn):
    return None


def ret_fresh(eng, s, I, ty, name='ext'):
    if ty.kind == 'void':
        return None
    if ty.kind == 'int':
        return fbv(name, ty.width)
    if ty.kind == 'struct':
        return Agg([ret_fresh(eng, s, I, t, name) for _, t in ty.fields])
    return Opaque(name)


@lib(r'^llvm\.(dbg|lifetime|assume|experimental\.noalias|invariant|prefetch|donothing|stacksave|stackrestore|annotation|var\.annotation)', 'llvm no-op intrinsics')
def _dbg(eng, s, I, args, fn):
    if I.ty.kind != 'void':
        return [(s, 'val', ret_fresh(eng, s, I, I.ty))]
    return None


@lib(r'^llvm\.threadlocal\.address', 'thread-local variables are those of the verified thread')
def _tls(eng, s, I, args, fn):
    return args[0]


@lib(r'^llvm\.fmuladd\.f64', 'floating point is approximated by integer bounds (rounding is monotone)')
def _fmuladd(eng, s, I, args, fn):
    return fpi_bin('fadd', fpi_bin('fmul', args[0], args[1]), args[2])


@lib(r'^llvm\.expect', 'llvm.expect is the identity')
def _expect(eng, s, I, args, fn):
    return args[0]


@lib(r'^llvm\.(umax|umin|smax|smin)\.', 'llvm min/max')
def _minmax(eng, s, I, args, fn):
    a, b = args
    k = fn.name.split('.')[1]
    c = {'umax': z3.UGT, 'umin': z3.ULT, 'smax': lambda x, y: x > y, 'smin': lambda x, y: x < y}[k](a, b)
    return simp(z3.If(c, a, b))


@lib(r'^llvm\.eh\.typeid\.for', 'Itanium EH type ids')
def _typeid(eng, s, I, args, fn):
    p = args[0]
    return eng.tiid('*' if p.r is None else p.r[1:])


@lib(r'^llvm\.trap', 'llvm.trap is unreachable')
def _trap(eng, s, I, args, fn):
    eng.oblige(s, "trap unreachable", False, 'safety')
    return []


@lib(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow', 'llvm overflow intrinsics')
def _ovf(eng, s, I, args, fn):
    a, b = args
    sg = fn.name.split('.')[1][0] == 's'
    op = fn.name.split('.')[1][1:]
    w = a.size()
    ext = (lambda x: z3.SignExt(w, x)) if sg else (lambda x: z3.ZeroExt(w, x))
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
    r = simp(f(a, b))
    o = simp(ext(r) != f(ext(a), ext(b)))
    return Agg([r, o])


def rng(eng, s, p, n, what):
    """bounds obligation for a byte range, n python int"""
    eng.locate(s, p, max(n, 1), what)


@lib(r'^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$', 'memcpy/memmove copy exactly the byte range')
def _memcpy(eng, s, I, args, fn):
    d, src, n = args[:3]
    isl = fn.name.startswith('llvm')
    k = cval(n)
    rv = None if isl else d
    if k is None:
        k2 = only_value(eng, s, n)
        if k2 is not None:
            k = k2
    if k is None:
        copy_sym(eng, s, d, src, n)
        return [(s, 'val', rv)]
    if k == 0:
        return [(s, 'val', rv)]
    copy_range(eng, s, d, src, k)
    return [(s, 'val', rv)]


def only_value(eng, s, e):
    m = eng.feasible(s)
    if m is None or m is True:
        return None
    v = m.eval(e, model_completion=True)
    if eng.feasible(s, e != v) is None:
        return v.as_long()
    return None


def copy_sym(eng, s, d, src, n):
    """symbolic-length byte copy between byte segments"""
    rd, kd, idd = eng.locate(s, d, 1, 'write') if False else seg_of(eng, s, d)
    rs, ks, ids = seg_of(eng, s, src)
    gd, di = idd
    gs, si = ids
    n = oz(n)
    eng.oblige(s, f"memory-safety: copy within source {rs.name}", z3.Or(n == 0, z3.And(z3.ULE(n, oz(gs.n)), z3.ULE(oz(si), oz(gs.n) - n))), 'safety')
    eng.oblige(s, f"memory-safety: copy within destination {rd.name}", z3.Or(n == 0, z3.And(z3.ULE(n, oz(gd.n)), z3.ULE(oz(di), oz(gd.n) - n))), 'safety')
    gi = rd.segs.index(gd)
    A = gs.fields[0][2]
    w = s.wreg(rd.id)
    f = w.segs[gi].fields[0]
    old = f[2]
    i = z3.BitVec('ci', 64)
    di, si = oz(di), oz(si)
    f[2] = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, di), z3.ULT(i - di, n)), z3.Select(A, i - di + si), z3.Select(old, i)))
    s.writes.add((rd.id, 's', gi, 0))


def seg_of(eng, s, p):
    if p.r is None or isinstance(p.r, tuple):
        eng.oblige(s, "memory-safety: copy through null", False, 'safety')
        raise Infeasible()
    if p.r not in s.mem:
        eng.oblige(s, "memory-safety: copy through dead object", False, 'safety')
        raise Infeasible()
    r = s.mem[p.r]
    for g in r.segs:
        if g.stride == 1 and len(r.segs) == 1:
            return r, 'seg', (g, osub(p.o, g.start))
    raise Unsupported(f"symbolic-length copy on {r.name}")


def copy_range(eng, s, d, src, k):
    rs, kinds, infos = eng.locate(s, src, 1, 'read')
    if k > 1:
        eng.locate(s, src.add(k - 1), 1, 'read')
    rd, kindd, infod = eng.locate(s, d, 1, 'write')
    if k > 1:
        eng.locate(s, d.add(k - 1), 1, 'write')
    if rd.const:
        eng.oblige(s, "memory-safety: write to constant", False, 'safety')
        raise Infeasible()
    if kinds == 'cell' and kindd == 'cell':
        so, do = infos, infod
        items = []
        covered = []
        for o, (sz, v) in list(rs.cells.items()):
            if o < so + k and so < o + sz:
                if o >= so and o + sz <= so + k:
                    items.append((o - so, sz, v))
                    covered.append((o - so, sz))
                else:
                    lo, hi = max(o, so), min(o + sz, so + k)
                    val = eng.cell_load(s, s.mem[rs.id], lo, hi - lo, None)
                    items.append((lo - so, hi - lo, val))
                    covered.append((lo - so, hi - lo))
        covered.sort()
        # gaps
        pos = 0
        gaps = []
        for o, sz in covered:
            if o > pos:
                gaps.append((pos, o))
            pos = max(pos, o + sz)
        if pos < k:
            gaps.append((pos, k))
        for lo, hi in gaps:
            if rs.init == 'undef':
                continue
            o = lo
            while o < hi:
                z = 8
                while z > 1 and ((so + o) % z or o + z > hi):
                    z //= 2
                v = eng.default_value(s, s.mem[rs.id], so + o, z, None)
                s.wreg(rs.id).cells[so + o] = (z, v)
                items.append((o, z, v))
                o += z
        # drop destination cells
        w = s.wreg(rd.id)
        for o in [o for o, (sz, _) in w.cells.items() if o < do + k and do < o + sz]:
            sz, old = w.cells[o]
            if o >= do and o + sz <= do + k:
                w.cells.pop(o)
                s.writes.add((rd.id, 'c', o, sz))
            else:
                lo, hi = max(o, do), min(o + sz, do + k)
                eng.cell_store(s, rd.id, lo, hi - lo, fbv('gap', 8 * (hi - lo)))
        for o, sz, v in items:
            eng.cell_store(s, rd.id, do + o, sz, v)
        return
    if kinds == 'seg' and kindd == 'cell':
        g, idx, fo = infos
        # whole elements, field by field
        if isinstance(src.o, int) or True:
            off = 0
            while off < k:
                p = src.add(off)
                r, kk, inf = eng.locate(s, p, 1, 'read')
                if kk != 'seg':
                    raise Unsupported("mixed copy")
                g, idx, fo = inf
                fs = [(fo2, f) for fo2, f in g.fields.items() if fo2 <= fo < fo2 + f[1]]
                if not fs or fs[0][0] != fo:
                    raise Unsupported("copy of part of a segment field")
                sz = fs[0][1][1]
                if off + sz > k:
                    raise Unsupported("copy of part of a segment field")
                v = eng.seg_load(s, r, g, idx, fo, _T(sz, fs[0][1][0]))
                eng.cell_store(s, rd.id, infod + off, sz, v)
                off += sz
                if off < k:
                    # padding
                    pass
            return
    if kinds == 'cell' and kindd == 'seg':
        off = 0
        while off < k:
            p = d.add(off)
            r, kk, inf = eng.locate(s, p, 1, 'write')
            if kk != 'seg':
                raise Unsupported("mixed copy")
            g, idx, fo = inf
            f = g.fields.get(fo)
            if f is None or off + f[1] > k:
                raise Unsupported("copy to part of a segment field")
            v = eng.cell_load(s, s.mem[rs.id], infos + off, f[1], None)
            eng.seg_store(s, r, g, idx, fo, v, f[1])
            off += f[1]
        return
    if kinds == 'seg' and kindd == 'seg' and infos[0].stride == 1 and infod[0].stride == 1:
        return copy_sym(eng, s, d, src, bv(k))
    raise Unsupported("segment to segment copy")


class _T:
    def __init__(self, size, kind):
        self.size = size
        self.kind = 'ptr' if kind.startswith('ptr') else ('int' if kind == 'int' else 'double')
        self.width = 8 * size


@lib(r'^llvm\.memset|^memset$|^bzero$', 'memset fills exactly the byte range')
def _memset(eng, s, I, args, fn):
    if fn.name == 'bzero':
        args = [args[0], bv(0, 8), args[1]]
    d, b, n = args[:3]
    rv = None if fn.name.startswith('llvm') else d
    k = cval(n)
    if k is None:
        k = only_value(eng, s, n)
    if k is None:
        raise Unsupported("memset of symbolic length")
    if k == 0:
        return [(s, 'val', rv)]
    if b.size() > 8:
        b = simp(z3.Extract(7, 0, b))
    r, kind, info = eng.locate(s, d, 1, 'write')
    eng.locate(s, d.add(k - 1), 1, 'write')
    if kind == 'seg':
        g, idx, fo = info
        gi = r.segs.index(g)
        whole = isinstance(g.n, int) and cval(oz(idx)) == 0 and fo == 0 and k == g.n * g.stride
        w = s.wreg(r.id)
        g = w.segs[gi]
        for fo2, f in g.fields.items():
            if f[0] != 'int':
                raise Unsupported("memset of pointers")
            v = simp(z3.Concat(*([b] * f[1]))) if f[1] > 1 else b
            if whole:
                f[2] = z3.K(BV64, v)
            elif k % g.stride == 0 and fo == 0:
                i = z3.BitVec('mi', 64)
                lo = oz(idx)
                cnt = bv(k // g.stride)
                f[2] = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, lo), z3.ULT(i - lo, cnt)), v, z3.Select(f[2], i)))
            else:
                raise Unsupported("partial memset of a segment")
            s.writes.add((r.id, 's', gi, fo2))
        return [(s, 'val', rv)]
    off = info
    o = off
    end = off + k
    while o < end:
        # skip over segments inside
        z = 8
        while z > 1 and (o % z or o + z > end):
            z //= 2
        hit = [g for g in s.mem[r.id].segs if isinstance(g.n, int) and g.start <= o < g.start + g.n * g.stride]
        if hit:
            g = hit[0]
            gi = s.mem[r.id].segs.index(g)
            if g.start + g.n * g.stride > end:
                raise Unsupported("memset partially covers a segment")
            w = s.wreg(r.id)
            for fo2, f in w.segs[gi].fields.items():
                if f[0] == 'int':
                    f[2] = z3.K(BV64, simp(z3.Concat(*([b] * f[1]))) if f[1] > 1 else b)
                else:
                    raise Unsupported("memset of pointers")
                s.writes.add((r.id, 's', gi, fo2))
            o = g.start + g.n * g.stride
            continue
        v = simp(z3.Concat(*([b] * z))) if z > 1 else b
        eng.cell_store(s, r.id, o, z, v)
        o += z
    return [(s, 'val', rv)]


@lib(r'^operator new(\[\])?\(unsigned long(, std::align_val_t)?\)$|^malloc$', 'operator new returns a fresh object (allocation failure not modelled)')
def _new(eng, s, I, args, fn):
    n = cval(args[0])
    r = s.new_region('heap', n if n is not None else args[0])
    r.tag = ('heap', I.line)
    return Ptr(r.id, 0)


@lib(r'^operator delete|^free$', 'operator delete ends the lifetime of the object')
def _delete(eng, s, I, args, fn):
    p = args[0]
    if isinstance(p, Opaque):
        raise Unsupported("delete of unmodelled pointer")
    if p.r is None:
        return None
    if p.r not in s.mem or not s.mem[p.r].alive:
        eng.oblige(s, "memory-safety: double delete", False, 'safety')
        raise Infeasible()
    r = s.wreg(p.r)
    r.alive = False
    s.writes.add((r.id, 'dead'))
    return None


ORDER = {0: 'monotonic', 1: 'acquire', 2: 'acquire', 3: 'release', 4: 'acq_rel', 5: 'seq_cst'}


def _order(e):
    k = cval(e)
    if k is None:
        raise Unsupported("symbolic memory order")
    return ORDER[k]


@lib(r'^__atomic_(load|store|exchange|compare_exchange)$', 'libatomic generic operations are single atomic accesses with the given order')
def _atomic(eng, s, I, args, fn):
    op = fn.name[len('__atomic_'):]
    n = cval(args[0])
    if n not in (1, 2, 4, 8):
        raise Unsupported("wide atomic")
    T = _T(n, 'int')
    p = args[1]
    h = eng.hook_for(s, p)
    if op == 'load':
        v = h.load(eng, s, p, T, _order(args[3])) if h is not None else eng.load(s, p, T)
        if isinstance(v, list):
            raise Unsupported("forking load hook")
        eng.store(s, args[2], v, T)
        return None
    if op == 'store':
        v = eng.load(s, args[2], T)
        if h is not None:
            return h.store(eng, s, p, v, T, _order(args[3]))
        eng.store(s, p, v, T)
        return None
    if op == 'compare_exchange':
        e = eng.load(s, args[2], T)
        d = eng.load(s, args[3], T)
        so, fo = _order(args[4]), _order(args[5])
        if h is not None:
            res = h.cmpxchg(eng, s, p, e, d, T, (so, fo))
            if not isinstance(res, list):
                res = [(s, 'val', res)]
        else:
            old = eng.load(s, p, T)
            res = []
            for st, b in eng.branch(s, eng.icmp(s, 'eq', old, e)):
                if b:
                    eng.store(st, p, d, T)
                res.append((st, 'val', Agg([old, z3.BoolVal(b)])))
        out = []
        for st, k, v in res:
            if k == 'val':
                for st2, b in eng.branch(st, v.v[1]):
                    if not b:
                        eng.store(st2, args[2], v.v[0], T)
                    out.append((st2, 'val', z3.BoolVal(b)))
            else:
                out.append((st, k, v))
        return out
    raise Unsupported(op)


@lib(r'^__cxa_allocate_exception', 'C++ exception runtime')
def _cxa_alloc(eng, s, I, args, fn):
    r = s.new_region('exc', cval(args[0]))
    return Ptr(r.id, 0)


@lib(r'^__cxa_free_exception', 'C++ exception runtime')
def _cxa_free(eng, s, I, args, fn):
    return None


@lib(r'^__cxa_throw$', 'C++ exception runtime')
def _cxa_throw(eng, s, I, args, fn):
    return [(s, 'throw', (args[0], args[1].r[1:], None))]


@lib(r'^__cxa_begin_catch', 'C++ exception runtime')
def _cxa_begin(eng, s, I, args, fn):
    s.caught.append(s.exc)
    return args[0]


@lib(r'^__cxa_end_catch', 'C++ exception runtime')
def _cxa_end(eng, s, I, args, fn):
    if s.caught:
        s.caught.pop()
    return None


@lib(r'^__cxa_rethrow', 'C++ exception runtime')
def _cxa_rethrow(eng, s, I, args, fn):
    if not s.caught:
        raise Unsupported("rethrow outside a handler")
    e = s.caught.pop()
    return [(s, 'throw', e)]


@lib(r'^__cxa_get_exception_ptr', 'C++ exception runtime')
def _cxa_gep(eng, s, I, args, fn):
    return args[0]


@lib(r'^__cxa_guard_(acquire|release|abort)', 'function-local statics are initialised once')
def _guard(eng, s, I, args, fn):
    if 'acquire' in fn.name:
        return bv(1, 32)
    return None


@lib(r'^__cxa_atexit', 'atexit registration has no effect on the property')
def _atexit(eng, s, I, args, fn):
    return bv(0, 32)


@lib(r'^strlen$', 'strlen returns the offset of the terminator (fresh length <= 2^20 when the text is not modelled)')
def _strlen(eng, s, I, args, fn):
    p = args[0]
    if isinstance(p, Ptr) and p.r is not None:
        try:
            k = const_bytes(eng, s, p)
        except (Unsupported, Infeasible):
            k = None
        if k is not None:
            return bv(len(k))
    n = fbv('strlen', 64)
    s.assume(z3.ULE(n, 1 << 20))
    return n


def const_bytes(eng, s, p, lim=4096):
    """the constant C string at p, or None"""
    if not isinstance(p.o, int):
        return None
    out = []
    o = p.o
    while len(out) < lim:
        c = cval(eng.load(s, Ptr(p.r, o), _T(1, 'int')))
        if c is None:
            return None
        if c == 0:
            return out
        out.append(c)
        o += 1
    return None


@lib(r'^__clang_call_terminate|^std::terminate|^abort$|^__cxa_pure_virtual|^std::__glibcxx_assert_fail|^__assert_fail', 'std::terminate/abort do not return')
def _term(eng, s, I, args, fn):
    if eng.noterm:
        eng.oblige(s, "std::terminate unreachable", False, 'safety')
    return []


@lib(r'^(spdlog::|std::shared_ptr<spdlog)', 'logging (spdlog) has no effect on the property')
def _spd(eng, s, I, args, fn):
    return [(s, 'val', ret_fresh(eng, s, I, I.ty, 'spdlog'))]


@lib(r'^std::this_thread::(yield|sleep_for|sleep_until)', 'yield/sleep have no effect but the passage of time')
def _yield(eng, s, I, args, fn):
    return None


@lib(r'^(sched_yield|usleep|nanosleep)$', 'yield/sleep have no effect but the passage of time')
def _yield2(eng, s, I, args, fn):
    return bv(0, 32)


@lib(r'^std::chrono::_V2::(steady|system)_clock::now|^std::chrono::.*clock::now', 'clock reads return an arbitrary time')
def _now(eng, s, I, args, fn):
    return [(s, 'val', ret_fresh(eng, s, I, I.ty, 'now'))]


EXC = r'(std::)(logic_error|runtime_error|domain_error|invalid_argument|length_error|out_of_range|range_error|overflow_error|bad_alloc|exception|system_error|bad_function_call)'


@lib(r'^' + EXC + r'::~?\2\(', 'std exception objects carry no state the property depends on')
def _excctor(eng, s, I, args, fn):
    return None


@lib(r'^' + EXC + r'::what\(\) const', 'std exception objects carry no state the property depends on')
def _what(eng, s, I, args, fn):
    return Opaque('what')


@lib(r'^std::__throw_(\w+)\(', 'std::__throw_* throw the named standard exception')
def _stdthrow(eng, s, I, args, fn):
    m = re.match(r'^std::__throw_(\w+)', fn.dem)
    k = m.group(1)
    k = {'out_of_range_fmt': 'out_of_range'}.get(k, k)
    return [(s, 'throw', eng.throw_new(s, f"_ZTISt{len(k)}{k}"))]


@lib(r'^std::(__cxx11::)?basic_string<char.*>::~?basic_string\(|^std::(__cxx11::)?basic_string<char.*>::basic_string<|^std::allocator<char>::|^std::__new_allocator<char>::', 'std::string construction/destruction for diagnostics only')
def _str_opaque(eng, s, I, args, fn):
    return [(s, 'val', ret_fresh(eng, s, I, I.ty, 'str'))]


@lib(r'^llvm\.(ctpop|ctlz|cttz|bswap|abs)\.', 'llvm bit intrinsics')
def _bits(eng, s, I, args, fn):
    a = args[0]
    w = a.size()
    k = fn.name.split('.')[1]
    if k == 'abs':
        return simp(z3.If(a < 0, -a, a))
    if k == 'ctpop':
        e = bv(0, w)
        for i in range(w):
            e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return simp(e)
    if k == 'cttz':
        e = bv(w, w)
        for i in reversed(range(w)):
            e = z3.If(z3.Extract(i, i, a) == 1, bv(i, w), e)
        return simp(e)
    if k == 'ctlz':
        e = bv(w, w)
        for i in range(w):
            e = z3.If(z3.Extract(i, i, a) == 1, bv(w - 1 - i, w), e)
        return simp(e)
    raise Unsupported(k)


def install(eng):
    eng.lib = list(REG)
