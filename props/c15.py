"""C15: serialisation mappers"""
import re
import z3
from kvc.check import *
from kvc.stl import *
from kvc.bytevec import *

HARNESS = 'c15_mappers.cpp'
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


def same_bytes(a, b, n):
    if n <= 64:
        return z3.And(*[z3.Select(a, bv(i)) == z3.Select(b, bv(i)) for i in range(n)])
    i = z3.BitVec('qi', 64)
    return z3.ForAll([i], z3.Implies(z3.ULT(i, bv(n)), z3.Select(a, i) == z3.Select(b, i)))


def content(e, st, p):
    return seg_of(e, st, p)[2][0].fields[0][2]


def mapper(s):
    return Ptr(s.new_region('mapper', 8, 'input').id, 0)


def unit_void(n, size):
    def go(ctx):
        e, s = ctx.eng, ctx.state()
        k = ctx.const(size) if isinstance(size, str) else size
        B_ = ByteVec(e)
        M = mapper(s)
        # encoding: whatever the message held before
        ev = bytes_region(s, k, name='event')
        a0 = content(e, s, ev)
        O = Ptr(s.new_region('message', 24).id, 0)
        m = fbv('OLDLEN', 64)
        s.assume(z3.ULT(m, bv(1 << 40)))
        B_.make(s, O, m)
        ctx.cover('a message that holds something else', s, m == bv(k + 3))
        st1 = []
        for o in e.run_fn(s.copy(), ctx.fn(f'h_to_{n}'), [M, ev, O]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "encoding does not throw", False)
                continue
            ln, c = B_.get(st, O)
            e.oblige(st, "the message is exactly as long as the event", ln == bv(k))
            e.oblige(st, "the message is the bytes of the event, in order", same_bytes(c, a0, k))
            e.oblige(st, "encoding leaves the event as it was", same_bytes(content(e, st, ev), a0, k))
            st1.append(st)
        e.oblige(s, "encoding can complete", len(st1) > 0)
        # decoding: any message
        s2 = ctx.state()
        M2 = mapper(s2)
        ev = bytes_region(s2, k, name='event')
        b0 = content(e, s2, ev)
        I = Ptr(s2.new_region('message', 24).id, 0)
        m = fbv('LEN', 64)
        s2.assume(z3.ULT(m, bv(1 << 40)))
        mb = B_.make(s2, I, m)
        c0 = content(e, s2, mb)
        ctx.cover('a whole message', s2, m == bv(k))
        ctx.cover('a message that was cut', s2, m == bv(k - 1))
        ctx.cover('no message at all', s2, m == bv(0))
        ok = 0
        for o in e.run_fn(s2.copy(), ctx.fn(f'h_from_{n}'), [M2, I, ev]):
            st = o[1]
            ln, c = B_.get(st, I)
            e.oblige(st, "decoding leaves the message as it was", z3.And(ln == m, same_bytes(c, c0, k)))
            if o[0] != 'ret':
                e.oblige(st, "a whole message is accepted", m != bv(k))
                e.oblige(st, "a refused message does not touch the event", same_bytes(content(e, st, ev), b0, k))
                continue
            ok += 1
            e.oblige(st, "a message shorter than an event is refused", z3.UGE(m, bv(k)))
            e.oblige(st, "the event is the bytes of the message, in order", same_bytes(content(e, st, ev), c0, k))
        e.oblige(s2, "decoding can complete", ok > 0)
        # there and back
        for st in st1:
            ev2 = bytes_region(st, k, name='decoded')
            for o in e.run_fn(st, ctx.fn(f'h_from_{n}'), [M, O, ev2]):
                e.oblige(o[1], "an event comes back as it went", same_bytes(content(e, o[1], ev2), a0, k) if o[0] == 'ret' else False)

    return go


ENC = z3.Function('encode', BV64, BV64, BV64, BV64, BV64)  # what was written before, format, name, value
CLOSE = z3.Function('finish', BV64, BV64)
DEC = z3.Function('decode', BV64, BV64, BV64, BV64)  # content, format, name
OKD = z3.Function('wellformed', BV64, BV64, BV64, z3.BoolSort())
STREAMS = r'^std::(__cxx11::)?basic_(i|o)?stringstream<.*>::'


class Archives:
    """what cereal promises: a finished archive holds the fields written to it under their names, and reading a name of such a content
    gives the value back; anything else may be refused"""

    def __init__(self, ctx, S):
        self.ctx, self.e, self.S = ctx, ctx.eng, S
        self.fmt = {}
        c = self.e.contract
        c(STREAMS + r'basic_(i|o)?stringstream\(', self.sctor)
        c(STREAMS + r'~basic_', self.none)
        c(STREAMS + r'str\(', self.sstr)
        c(r'std::basic_ostream<.*>& std::operator<<\s*<.*basic_string<', self.sput)
        c(r'^std::basic_(i|o)stream<char, .*>::basic_(i|o)stream\(std::basic_streambuf', self.bctor)
        c(r'^std::basic_(i|o)stream<char, .*>::~basic_(i|o)stream\(', self.none)
        c(r'^std::basic_ios<char, .*>::(basic_ios|~basic_ios)\(', self.none)
        c(r'^std::basic_ostream<char, .*>::flush\(', self.flush)
        c(r'^cereal::(JSON|PortableBinary|Binary|XML)(In|Out)putArchive::~', self.adtor)
        c(r'^cereal::(JSON|PortableBinary|Binary|XML)(In|Out)putArchive::\1\2putArchive\(', self.actor)
        c(r'cereal::InputArchive<cereal::\w+, .*>::operator\(\)', self.read)
        c(r'cereal::OutputArchive<cereal::\w+, .*>::operator\(\)', self.write)

    def none(self, eng, st, I, a, fn):
        return [(st, 'val', None)]

    def flush(self, eng, st, I, a, fn):
        return [(st, 'val', a[0])]

    def key(self, p):
        return f'stream:{p.r}'

    def sctor(self, eng, st, I, a, fn):
        _, P, _ = parse(fn.dem)
        P = split_args(P)
        q = a[1:] if len(a) == len(P) + 1 else a[2:]  # a base subobject is made with its table of bases
        v = self.S.sget(st, q[0]) if P and 'basic_string' in P[0] else EMPTY
        if P and 'basic_string' in P[0] and 'stringstream<' in P[0]:
            raise Unsupported('moved stream')
        st.ghost[self.key(a[0])] = v
        return [(st, 'val', None)]

    def sstr(self, eng, st, I, a, fn):
        _, P, _ = parse(fn.dem)
        P = split_args(P)
        if P:
            st.ghost[self.key(a[0])] = self.S.sget(st, a[1])
            if P[0].endswith('&&'):
                self.S.sset(st, a[1], self.S.fresh_id(st))
            return [(st, 'val', None)]
        self.S.sset(st, a[0], st.ghost[self.key(a[1])])
        return [(st, 'val', None)]

    def sput(self, eng, st, I, a, fn):
        k = self.stream(st, a[0])
        st.ghost[k] = self.S.cat(st, st.ghost[k], self.S.sget(st, a[1]))
        return [(st, 'val', a[0])]

    def bctor(self, eng, st, I, a, fn):
        q = [x for x in a[1:] if isinstance(x, Ptr) and isinstance(x.r, str) and x.r in st.mem and ('via', x.r) and st.mem[x.r].name == 'streambuf']
        if not q:
            raise Unsupported('a stream over an unknown buffer')
        st.ghost['alias:' + str(a[0].r)] = q[0]
        return [(st, 'val', None)]

    def stream(self, st, p):
        return self.key(st.ghost.get('alias:' + str(p.r), p))

    def format(self, fn):
        f = re.search(r'cereal::(JSON|PortableBinary|Binary|XML)(In|Out)putArchive', fn.dem).group(1)
        return bv(['JSON', 'PortableBinary', 'Binary', 'XML'].index(f) + 1)

    def actor(self, eng, st, I, a, fn):
        k = self.stream(st, a[1])
        out = 'OutputArchive' in fn.dem.split('(')[0]
        st.ghost['archive:' + str(a[0].r)] = (k, out, self.format(fn))
        if out and 'JSON' in fn.dem.split('(')[0] and len(a) > 2:
            eng.oblige(st, "numbers are written with all their digits", eng.load(st, a[2], I32) == bv(324, 32))
        if not out:
            bad = st.copy()  # a text that cannot be read at all
            v = st.ghost[k]
            bad.assume(self.refused(bad, v, out, self.format(fn)))
            return [(st, 'val', None)] + ([(bad, 'throw', eng.throw_new(bad, '_ZTISt13runtime_error'))] if eng.feasible(bad) is not None else [])
        return [(st, 'val', None)]

    def refused(self, st, v, out, f):
        """only what is not a finished archive is refused at once"""
        return z3.And(*[v != x for x, ff, nm, w in st.ghost.get('encs', ())]) if st.ghost.get('encs') else T_

    def adtor(self, eng, st, I, a, fn):
        k, out, f = st.ghost['archive:' + str(a[0].r)]
        if out and cval(f) in (1, 4):
            st.ghost[k] = CLOSE(st.ghost[k])
            self.note(st, k)
        return [(st, 'val', None)]

    def note(self, st, k):
        for q in st.ghost.get('pend', ()):
            if q[0] == k:
                st.ghost['encs'] = st.ghost.get('encs', ()) + ((st.ghost[k],) + q[1:],)

    def nvp(self, st, p, fn):
        _, P, _ = parse(fn.dem)
        P = split_args(P)
        if len(P) != 1:
            raise Unsupported('several fields at once')
        if 'NameValuePair' in P[0]:
            return self.S.cstr(st, self.e.load(st, p, PT)), self.e.load(st, p.add(8), PT)
        return self.S.lit('value0'), p

    def write(self, eng, st, I, a, fn):
        k, out, f = st.ghost['archive:' + str(a[0].r)]
        nm, p = self.nvp(st, a[1], fn)
        json = cval(f) in (1, 4)
        v = eng.load(st, p, I64)
        st.ghost[k] = ENC(st.ghost[k], f, nm if json else bv(0), v)
        st.ghost['pend'] = st.ghost.get('pend', ()) + ((k, f, nm if json else bv(0), v),)
        st.ghost['name'] = nm
        if not json:
            self.note(st, k)
        return [(st, 'val', a[0])]

    def read(self, eng, st, I, a, fn):
        k, out, f = st.ghost['archive:' + str(a[0].r)]
        nm, p = self.nvp(st, a[1], fn)
        json = cval(f) in (1, 4)
        c = st.ghost[k]
        key = nm if json else bv(0)
        for x, ff, n2, w in st.ghost.get('encs', ()):
            st.assume(z3.Implies(z3.And(c == x, f == ff, n2 == key), z3.And(OKD(c, f, key), DEC(c, f, key) == w)))
        bad = st.copy()
        st.assume(OKD(c, f, key))
        eng.store(st, p, DEC(c, f, key), I64)
        st.ghost['name'] = nm
        st.ghost['from'] = c
        st.ghost[k] = fbv('rest', 64)
        bad.assume(z3.Not(OKD(c, f, key)))
        r = [(st, 'val', a[0])]
        if eng.feasible(bad) is not None:
            r.append((bad, 'throw', eng.throw_new(bad, '_ZTISt13runtime_error')))
        return r


def event(e, s, name='event', v=None):
    r = s.new_region(name, 8)
    v = fbv('EVENT', 64) if v is None else v
    r.cells[0] = (8, v)
    return Ptr(r.id, 0), v


def unit_json(ctx):
    e, s = ctx.eng, ctx.state()
    S = Stl(ctx, s)
    A = Archives(ctx, S)
    M = mapper(s)
    E, v = event(e, s)
    O = Ptr(s.new_region('message', 32).id, 0)
    S.sset(s, O, S.fresh_id(s))
    want = CLOSE(ENC(EMPTY, bv(1), S.lit('event'), v))
    ctx.cover('a message that holds something else', s)
    n = 0
    for o in e.run_fn(s.copy(), ctx.fn('h_jto'), [M, E, O]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "encoding does not throw", False)
            continue
        e.oblige(st, "the text is one finished document that holds the event and nothing else", S.sget(st, O) == want)
        e.oblige(st, "encoding leaves the event as it was", e.load(st, E, I64) == v)
        D, _ = event(e, st, 'decoded')
        for o2 in e.run_fn(st, ctx.fn('h_jfrom'), [M, O, D]):
            if o2[0] == 'ret':
                n += 1
                e.oblige(o2[1], "an event comes back as it went", e.load(o2[1], D, I64) == v)
            else:
                e.oblige(o2[1], "what was encoded is decoded", False)
    e.oblige(s, "there and back can complete", n > 0)
    n = 0
    c = S.sget(s, O)
    D, _ = event(e, s, 'decoded')
    for o in e.run_fn(s.copy(), ctx.fn('h_jfrom'), [M, O, D]):
        st = o[1]
        e.oblige(st, "decoding leaves the text as it was", S.sget(st, O) == c)
        if o[0] == 'ret':
            n += 1
            e.oblige(st, "the event is what the text holds under the name of the event", z3.And(OKD(c, bv(1), S.lit('event')), e.load(st, D, I64) == DEC(c, bv(1), S.lit('event'))))
    e.oblige(s, "decoding can complete", n > 0)


def unit_binary(ctx):
    e, s = ctx.eng, ctx.state()
    S = Stl(ctx, s)
    A = Archives(ctx, S)
    M = mapper(s)
    E, v = event(e, s)
    buf = Ptr(s.new_region('streambuf', 64, 'input').id, 0)
    O = Ptr(s.new_region('message', 8).id, 0)
    e.store(s, O, buf, PT)
    k = A.key(buf)
    s.ghost[k] = EMPTY
    ctx.cover('an empty buffer', s)
    n = 0
    for o in e.run_fn(s.copy(), ctx.fn('h_bto'), [M, E, O]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "encoding does not throw", False)
            continue
        e.oblige(st, "the buffer holds the event and nothing else", st.ghost[k] == ENC(EMPTY, bv(2), bv(0), v))
        e.oblige(st, "encoding leaves the event as it was", e.load(st, E, I64) == v)
        D, _ = event(e, st, 'decoded')
        for o2 in e.run_fn(st, ctx.fn('h_bfrom'), [M, O, D]):
            if o2[0] == 'ret':
                n += 1
                e.oblige(o2[1], "an event comes back as it went", e.load(o2[1], D, I64) == v)
            else:
                e.oblige(o2[1], "what was encoded is decoded", False)
    e.oblige(s, "there and back can complete", n > 0)
    c = S.fresh_id(s)
    s.ghost[k] = c
    D, _ = event(e, s, 'decoded')
    n = 0
    for o in e.run_fn(s.copy(), ctx.fn('h_bfrom'), [M, O, D]):
        if o[0] == 'ret':
            n += 1
            e.oblige(o[1], "the event is what the buffer holds", z3.And(OKD(c, bv(2), bv(0)), e.load(o[1], D, I64) == DEC(c, bv(2), bv(0))))
    e.oblige(s, "decoding can complete", n > 0)


def unit_identity(ctx):
    e, s = ctx.eng, ctx.state()
    m = Ptr(s.new_region('mapper', 8).id, 0)
    ss = e.run_fn(s, ctx.fn('h_inew'), [m])
    for o in ss:
        s = o[1]
        for fn in ('h_ito', 'h_ifrom'):
            st = s.copy()
            X, v = event(e, st, 'from')
            Y, w = event(e, st, 'to')
            ctx.cover('two different events', st, v != w)
            for q in e.run_fn(st, ctx.fn(fn), [m, X, Y]):
                e.oblige(q[1], "an event is handed on as it is", z3.And(e.load(q[1], Y, I64) == v, e.load(q[1], X, I64) == v) if q[0] == 'ret' else False)
    e.oblige(s, "a mapper can be made", len(ss) > 0)


def unit_buffer(ctx):
    e, s = ctx.eng, ctx.state()
    none = lambda eng, st, I, a, fn: [(st, 'val', None)]
    e.contract(r'^std::locale::(locale|~locale)\(', none)

    def base(eng, st, I, a, fn):
        for i in range(1, 7):
            eng.store(st, a[0].add(8 * i), NULL, PT)
        return [(st, 'val', None)]

    e.contract(r'^std::basic_streambuf<char, .*>::basic_streambuf\(', base)
    e.contract(r'^std::basic_streambuf<char, .*>::~basic_streambuf\(', none)

    def setg(eng, st, I, a, fn):
        for i in range(3):
            eng.store(st, a[0].add(8 * (i + 1)), a[i + 1], PT)
        return [(st, 'val', None)]

    e.contract(r'^std::basic_streambuf<char, .*>::setg\(', setg)
    for i, m in enumerate(('eback', 'gptr', 'egptr')):
        e.contract(r'^std::basic_streambuf<char, .*>::%s\(' % m, lambda eng, st, I, a, fn, i=i: [(st, 'val', eng.load(st, a[0].add(8 * (i + 1)), PT))])
    n = fbv('SIZE', 64)
    s.assume(z3.ULT(n, bv(1 << 40)))
    d = bytes_region(s, n, name='data')
    P = Ptr(s.new_region('buffer', ctx.const('c_sizeof_ncsb')).id, 0)
    ctx.cover('an empty message', s, n == bv(0))
    k = 0
    for o in e.run_fn(s, ctx.fn('h_sbnew'), [P, d, n]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "a buffer can be made", False)
            continue
        k += 1
        get = lambda f: [q[2] for q in e.run_fn(st.copy(), ctx.fn(f), [P])][0]
        b, g, en = get('h_sbeback'), get('h_sbgptr'), get('h_sbegptr')
        e.oblige(st, "reading starts at the first byte of the message and ends after its last", z3.And(z3.BoolVal(b.r == d.r and g.r == d.r and en.r == d.r), oz(b.o) == bv(0), oz(g.o) == bv(0), oz(en.o) == n))
    e.oblige(s, "a buffer can be made", k > 0)


UNITS = [Unit('raw bytes of 1', unit_void('1', 1)), Unit('raw bytes of 7', unit_void('7', 7)), Unit('raw bytes of 24', unit_void('24', 24)), Unit('raw bytes of a record', unit_void('wide', 'c_sizeof_wide')),
         Unit('json', unit_json), Unit('binary', unit_binary), Unit('identity', unit_identity), Unit('reading in place', unit_buffer)]
DRIVERS = [dict(src='d15.cpp', secs=4)]
ASSUMPTIONS = ['vector<unsigned char> by contract (kvc/bytevec.py): its content, in storage of exactly its size', 'std::string by contract (kvc/stl.py)', 'allocation never fails',
               "cereal: a finished archive gives every field back under its name, and string streams hold what is written to them (exercised by the bounded driver)",
               'events of the raw mapper are trivially copyable; sizes 1, 7, 24 and 32 stand for every size (the size enters as sizeof only)']
BOUNDED = 'random events (texts with control characters, extreme numbers, nested lists) through every mapper and back; random cuts of every message'
EXPLANATION = 'raw mapper for every event content, every previous content of the message and every message length; json, binary and identity mappers and the in-place buffer over the contract of the archive'
