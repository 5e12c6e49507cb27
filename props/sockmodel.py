"""Contracts on the system calls, errno and std::string used by the socket classes"""
import errno as E
import z3
from kvc.check import *
from kvc.cands import *

HARNESS = 'c11_socket.cpp'
STR = r'^std::(__cxx11::)?basic_string<char.*>::'
MAXLEN = 1 << 38
b32 = lambda v: bv(v, 32)
TEMP_W = (E.EINTR, E.EAGAIN)
TEMP_R = (E.EINTR, E.EAGAIN, E.ETIMEDOUT)
BROKEN_R = (E.ECONNRESET, E.ENOTCONN)


class _T:
    def __init__(self, kind, size):
        self.kind, self.size, self.width = kind, size, 8 * size


PT, I32, I64, I16, I8 = _T('ptr', 8), _T('int', 4), _T('int', 8), _T('int', 2), _T('int', 1)


def among(e, vals):
    return z3.Or(*[e == b32(v) for v in vals])


def set_errno(e, st, v=None):
    v = fbv('errno', 32) if v is None else b32(v)
    st.assume(v > 0)
    e.store(st, Ptr(st.ghost['errno'], 0), v, I32)
    return v


def base(ctx):
    e = ctx.eng
    s = ctx.state()
    r = s.new_region('errno', 4)
    r.cells[0] = (4, fbv('errno0', 32))
    s.ghost['errno'] = r.id
    txt = s.new_region('text', None, 'input')
    s.ghost['text'] = txt.id
    e.contract(r'^__errno_location$', lambda eng, st, I, a, f: Ptr(st.ghost['errno'], 0))
    e.contract(r'^strerror(_r)?$', lambda eng, st, I, a, f: Ptr(st.ghost['text'], 0))
    e.contract(r'kpsr::socket_mdlw::(buildErrorMessage|buildStringFromParts)<', lambda eng, st, I, a, f: [(st, 'val', None)])
    e.cand_gens = [scalar_gen()]
    return s


def sock(ctx, s, fd, name='sock', fn='h_ctor', size='c_sizeof_data'):
    """a DataSocket made by its real constructor"""
    e = ctx.eng
    r = s.new_region(name, ctx.const(size), 'undef')
    e.suppress += 1
    outs = e.run_fn(s, ctx.fn(fn), [Ptr(r.id, 0), fd])
    e.suppress -= 1
    (k, st, v), = [o for o in outs if o[0] == 'ret']
    return Ptr(r.id, 0), st


def ghost_gen(pairs_extra=()):
    """equalities and bounds between ghosts, scalars and pointer offsets of the loop"""

    def gen(eng, entry, hs, M, header):
        out = []
        gs = [k[1] for k in M if k[0] == 'g' and z3.is_bv(hs.ghost.get(k[1])) and hs.ghost[k[1]].size() == 64]
        fixed = [k for k, v in hs.ghost.items() if z3.is_bv(v) and v.size() == 64 and k not in gs]
        vs = [(n, g, k) for n, g, k in loop_vars(eng, entry, hs, M) if k in (64, 'ptr') and not n.startswith('ghost')]
        for a in gs:
            A = lambda st, a=a: st.ghost[a]
            for b in gs + fixed:
                if a != b:
                    out.append(Cand(f"{a}=={b}", lambda st, a=a, b=b: st.ghost[a] == st.ghost[b]))
                    out.append(Cand(f"{a}<={b}", lambda st, a=a, b=b: z3.ULE(st.ghost[a], st.ghost[b])))
                    out.append(Cand(f"{a}+2<={b}", lambda st, a=a, b=b: z3.ULE(st.ghost[a] + bv(2), st.ghost[b])))
            out.append(Cand(f"{a}<=max", lambda st, a=a: z3.ULE(st.ghost[a], bv(MAXLEN))))
            out.append(Cand(f"{a}>=15", lambda st, a=a: z3.UGE(st.ghost[a], bv(15))))
            for n, g, k in vs:
                if k == 64:
                    out.append(Cand(f"{a}=={n}", lambda st, a=a, g=g: st.ghost[a] == g(st)))
                    for b in gs + fixed:
                        if b != a:
                            out.append(Cand(f"{a}+{n}=={b}", lambda st, a=a, b=b, g=g: st.ghost[a] + g(st) == st.ghost[b]))
                            out.append(Cand(f"{n}<={b}", lambda st, b=b, g=g: z3.ULE(g(st), st.ghost[b])))
                else:
                    out.append(Cand(f"&{n}=={a}", lambda st, a=a, g=g: oz(g(st).o) == st.ghost[a] if isinstance(g(st), Ptr) else None))
                    for b in gs + fixed:
                        if b != a:
                            out.append(Cand(f"&{n}=={a}+{b}", lambda st, a=a, b=b, g=g: oz(g(st).o) == st.ghost[a] + st.ghost[b] if isinstance(g(st), Ptr) else None))
        for k in M:
            if k[0] == 'g':
                v = hs.ghost.get(k[1])
                if z3.is_bool(v) if not isinstance(v, bool) else True:
                    out.append(Cand(f"not {k[1]}", lambda st, k=k: z3.Not(st.ghost[k[1]])))
        return out

    return gen


def string_contracts(ctx):
    """std::string as (size, capacity, start of its storage, how many leading bytes are those of the stream)"""
    e = ctx.eng

    def this(st, a):
        if a[0].r != st.ghost.get('str'):
            raise Unsupported('a string other than the message')

    def grow(st, k):
        """storage for at least k bytes, elsewhere"""
        c, b = fbv('cap', 64), fbv('storage', 64)
        st.assume(z3.UGE(c, k), z3.ULE(c, bv(MAXLEN)))
        st.setg('cap', c)
        st.setg('at', b)

    def resize(eng, st, I, a, f):
        this(st, a)
        k = a[1]
        out = []
        for q, over in eng.branch(st, z3.UGT(k, st.g('cap'))):
            if over:
                grow(q, k)
            q.setg('V', simp(z3.If(z3.ULT(k, q.g('V')), k, q.g('V'))))
            q.setg('sz', k)
            out.append((q, 'val', None))
        return out

    def reserve(eng, st, I, a, f):
        this(st, a)
        out = []
        for q, over in eng.branch(st, z3.UGT(a[1], st.g('cap'))):
            if over:
                grow(q, a[1])
            out.append((q, 'val', None))
        return out

    def clear(eng, st, I, a, f):
        this(st, a)
        st.setg('sz', bv(0))
        st.setg('V', bv(0))
        return [(st, 'val', None)]

    def at(eng, st, I, a, f):
        this(st, a)
        eng.oblige(st, "a character of the message is addressed inside the message", z3.ULE(a[1], st.g('sz')))
        return Ptr(st.ghost['chars'], simp(st.g('at') + a[1]))

    def data(eng, st, I, a, f):
        this(st, a)
        return Ptr(st.ghost['chars'], st.g('at'))

    def size(eng, st, I, a, f):
        this(st, a)
        return st.g('sz')

    def cap(eng, st, I, a, f):
        this(st, a)
        return st.g('cap')

    def empty(eng, st, I, a, f):
        this(st, a)
        return st.g('sz') == bv(0)

    for rx, h in (('resize\\(unsigned long', resize), ('reserve\\(unsigned long\\)', reserve), ('clear\\(\\)', clear), ('operator\\[\\]\\(', at), ('(data|c_str)\\(\\)( const)?', data),
                  ('(size|length)\\(\\) const', size), ('capacity\\(\\) const', cap), ('empty\\(\\) const', empty)):
        e.contract(STR + rx, h)


def string_object(ctx, s, sz=None):
    r = s.new_region('message', 32, 'undef')
    c = s.new_region('chars', None, 'input')
    n, cp, at = (fbv('len', 64) if sz is None else sz), fbv('cap0', 64), fbv('storage0', 64)
    s.assume(z3.ULE(n, cp), z3.UGE(cp, bv(15)), z3.ULE(cp, bv(MAXLEN)))
    s.ghost.update(str=r.id, chars=c.id, sz=n, cap=cp, at=at, V=bv(0))
    return Ptr(r.id, 0)
