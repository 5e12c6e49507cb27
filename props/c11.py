"""C11: stream sockets and the simple protocol deliver exactly the bytes that were sent, in order"""
from props.sockmodel import *


def transfer(ctx, s, fd, closed=False):
    """external write/read (and send/recv): at most the requested bytes move, from/to the given address, in stream order"""
    e = ctx.eng
    n = fbv('size', 64)
    b = s.new_region('buffer', n, 'input')
    s.ghost.update(W=bv(0), R=bv(0), n=n, fatal=z3.BoolVal(False), eof=z3.BoolVal(False), scan=z3.BoolVal(False), unseen=z3.BoolVal(False), calls=bv(0, 8))
    s.assume(z3.ULE(n, bv(1 << 62)))

    def ready(eng, st, a, ctr):
        ok = z3.Not(st.g('fatal'))
        eng.oblige(st, "nothing is transferred after an error that cannot be retried", ok)
        eng.oblige(st, "the socket's own descriptor is used", a[0] == fd)
        st.setg('calls', bv(1, 8))
        eng.oblige(st, "the transfer goes on where it stopped", z3.BoolVal(a[1].r == b.id) if a[1].r != b.id else oz(a[1].o) == st.g(ctr))
        eng.oblige(st, "the transfer stays inside the caller's buffer", z3.ULE(a[2], n - st.g(ctr)))

    def outcome(eng, st, a, ctr, temp, broken, lo):
        bad = st.copy()
        v = set_errno(eng, bad, E.EBADF if closed else None)
        t = simp(z3.Not(among(v, temp + broken)))
        bad.setg('fatal', t)
        if broken:
            bad.setg('eof', simp(among(v, broken)))
        outs = [(bad, 'val', bv(-1))]
        if closed:
            return outs
        r = fbv('moved', 64)
        st.assume(z3.ULE(r, a[2]))
        if ctr == 'R':
            st.setg('eof', simp(z3.And(r == bv(0), a[2] != bv(0))))
            st.setg('unseen', simp(r != bv(0)))
        st.setg(ctr, simp(st.g(ctr) + r))
        return outs + [(st, 'val', r)]

    def write(eng, st, I, a, f):
        ready(eng, st, a, 'W')
        return outcome(eng, st, a, 'W', TEMP_W, (), 0)

    def read(eng, st, I, a, f):
        eng.oblige(st, "nothing is read after the end of the stream", z3.Not(st.g('eof')))
        eng.oblige(st, "nothing is read after the caller saw the end of its message", z3.Not(st.g('scan')))
        eng.oblige(st, "the caller is shown every piece before more is read", z3.Not(st.g('unseen')))
        ready(eng, st, a, 'R')
        return outcome(eng, st, a, 'R', TEMP_R, BROKEN_R, 0)

    def scan(eng, st, I, a, f):
        eng.oblige(st, "the caller is told how many bytes have arrived", a[0] == st.g('R'))
        st.setg('unseen', z3.BoolVal(False))
        c = fbv('found', 1)
        st.setg('scan', c)
        return c

    e.contract(r'^(write|send)$', write)
    e.contract(r'^(read|recv)$', read)
    e.contract(r'^cb_scan$', scan)
    e.cand_gens = [scalar_gen(), ghost_gen()]
    return Ptr(b.id, 0), n


ERRS = ('_ZTISt12domain_error', '_ZTISt13runtime_error')


def io(ctx, which, closed):
    e = ctx.eng
    s = base(ctx)
    fd = fbv('fd', 32)
    s.assume(fd >= 0)
    D, s = sock(ctx, s, fd)
    if closed:
        fd = b32(-1)
        e.store(s, D.add(ctx.acc('a_fd', D).o), fd, I32)
    B, n = transfer(ctx, s, fd, closed)
    ctx.cover('precondition', s)
    done = 0
    for o in e.run_fn(s, ctx.fn(which), [D, B, n]):
        st = o[1]
        if o[0] == 'throw':
            ty = o[2][1]
            if closed:
                e.oblige(st, "a closed socket is refused", ty in ERRS + ('_ZTISt11logic_error',))
                if which == 'h_get':
                    e.oblige(st, "nothing is read from a closed or moved socket", st.g('calls') == bv(0, 8))
                continue
            e.oblige(st, "an error is reported as domain_error or runtime_error", ty in ERRS)
            e.oblige(st, "a transfer is given up only for an error that cannot be retried", st.g('fatal'))
            continue
        done += 1
        if closed:
            e.oblige(st, "a transfer on a closed socket never succeeds", False if which == 'h_get' else n == bv(0))
        elif which == 'h_put':
            e.oblige(st, "success means that every byte was written", st.g('W') == n)
            e.oblige(st, "a failed write is never success", z3.Not(st.g('fatal')))
        else:
            e.oblige(st, "the result counts the bytes received", o[2] == st.g('R'))
            e.oblige(st, "reading stops only at a full buffer, the end of the stream or the end of the message", z3.Or(st.g('R') == n, st.g('eof'), st.g('scan')))
            e.oblige(st, "a failed read is never success", z3.Not(st.g('fatal')))
    if not closed:
        e.oblige(s, "a transfer can succeed", done > 0)


def proto(ctx, fn):
    """ProtocolSimple on a DataSocket whose transfers are replaced by the contracts proved above"""
    e = ctx.eng
    s = base(ctx)
    fd = fbv('fd', 32)
    s.assume(fd >= 0)
    D, s = sock(ctx, s, fd)
    r, sp = s.new_region('protocol', ctx.const('c_sizeof_proto'), 'undef'), s.new_region('sp', ctx.const('c_sizeof_sp'), 'undef')
    P = Ptr(r.id, 0)
    e.suppress += 1
    outs = e.run_fn(s, ctx.fn('h_proto'), [P, Ptr(sp.id, 0), D])
    e.suppress -= 1
    st = [o[1] for o in outs if o[0] == 'ret'][0]
    string_contracts(ctx)
    M = string_object(ctx, st)
    st.ghost.update(W=bv(0), R=bv(0), shut=z3.BoolVal(False), eof=z3.BoolVal(False), failed=z3.BoolVal(False))
    e.cand_gens = [scalar_gen(), ghost_gen()]
    st.model = None
    return e, st, P, D, M, fd


def unit_send(ctx):
    e, s, P, D, M, fd = proto(ctx, 'h_send')
    n = s.g('sz')

    def put(eng, st, I, a, f):
        eng.oblige(st, "the message goes out through the protocol's own socket", z3.BoolVal(a[0].r == D.r))
        eng.oblige(st, "nothing is sent after a failure", z3.Not(st.g('failed')))
        eng.oblige(st, "the message is sent from where it stopped", oz(a[1].o) == st.g('at') + st.g('W') if a[1].r == st.ghost['chars'] else False)
        eng.oblige(st, "only bytes of the message are sent", z3.ULE(a[2], n - st.g('W')))
        bad = st.copy()
        bad.setg('failed', z3.BoolVal(True))
        st.setg('W', simp(st.g('W') + a[2]))
        return [(st, 'val', None), (bad, 'throw', eng.throw_new(bad, '_ZTISt12domain_error'))]

    def shutdown(eng, st, I, a, f):
        eng.oblige(st, "only the sending side of the protocol's socket is shut", z3.And(a[0] == fd, a[1] == b32(1)))
        eng.oblige(st, "the sending side is shut after the whole message", z3.And(st.g('W') == n, z3.Not(st.g('failed'))))
        bad = st.copy()
        set_errno(eng, bad)
        bad.setg('failed', z3.BoolVal(True))
        st.setg('shut', z3.BoolVal(True))
        return [(st, 'val', b32(0)), (bad, 'val', b32(-1))]

    e.contract(r'^kpsr::socket_mdlw::DataSocket::putMessageData\(', put)
    e.contract(r'^shutdown$', shutdown)
    ctx.cover('precondition', s)
    done = 0
    for o in e.run_fn(s, ctx.fn('h_send'), [P, M]):
        st = o[1]
        if o[0] == 'throw':
            e.oblige(st, "sending throws only if the socket failed", st.g('failed'))
            e.oblige(st, "an error is reported as domain_error or runtime_error", o[2][1] in ERRS)
            continue
        done += 1
        e.oblige(st, "success means that the whole message was sent and its end marked", z3.And(st.g('W') == n, st.g('shut'), z3.Not(st.g('failed'))))
        e.oblige(st, "the message is left as it was", st.g('sz') == n)
    e.oblige(s, "sending can succeed", done > 0)


def unit_recv(ctx):
    e, s, P, D, M, fd = proto(ctx, 'h_recv')

    def get(eng, st, I, a, f):
        eng.oblige(st, "the message comes in through the protocol's own socket", z3.BoolVal(a[0].r == D.r))
        eng.oblige(st, "nothing is read after the end of the stream", z3.Not(st.g('eof')))
        if a[1].r != st.ghost['chars']:
            raise Unsupported('message received into other memory')
        eng.oblige(st, "a piece is appended to what has arrived", oz(a[1].o) == st.g('at') + st.g('R'))
        eng.oblige(st, "what has arrived is still there", st.g('V') == st.g('R'))
        eng.oblige(st, "a piece is received inside the message's storage", z3.And(z3.ULE(st.g('R'), st.g('sz')), z3.ULE(a[2], st.g('sz') - st.g('R'))))
        eng.oblige(st, "an empty read is not mistaken for the end of the stream", a[2] != bv(0))
        bad = st.copy()
        r = fbv('got', 64)
        st.assume(z3.ULE(r, a[2]))
        st.setg('eof', simp(r == bv(0)))
        st.setg('R', simp(st.g('R') + r))
        st.setg('V', simp(st.g('V') + r))
        return [(st, 'val', r), (bad, 'throw', eng.throw_new(bad, '_ZTISt13runtime_error'))]

    e.contract(r'kpsr::socket_mdlw::DataSocket::getMessageData<', get)
    ctx.cover('precondition', s)
    done = 0
    for o in e.run_fn(s, ctx.fn('h_recv'), [P, M]):
        st = o[1]
        if o[0] == 'throw':
            e.oblige(st, "an error is reported as it occurred", o[2][1] in ERRS)
            continue
        done += 1
        e.oblige(st, "receiving ends at the end of the stream", st.g('eof'))
        e.oblige(st, "the message is exactly as long as the stream", st.g('sz') == st.g('R'))
        e.oblige(st, "the message has the bytes of the stream, in order", st.g('V') == st.g('R'))
    e.oblige(s, "receiving can succeed", done > 0)


UNITS = [Unit('putMessageData', lambda c: io(c, 'h_put', False)), Unit('putMessageData, closed socket', lambda c: io(c, 'h_put', True)),
         Unit('getMessageData', lambda c: io(c, 'h_get', False)), Unit('getMessageData, closed socket', lambda c: io(c, 'h_get', True)),
         Unit('sendMessage', unit_send), Unit('recvMessage', unit_recv)]
SRCS = ['core/modules/socket_mdlw/src/%s.cpp' % x for x in ('base_socket', 'data_socket', 'connect_socket', 'server_socket', 'protocol', 'protocol_simple')]
DRIVERS = [dict(src='d11.cpp', secs=4, srcs=SRCS)]
ASSUMPTIONS = ['read/write/recv/send/shutdown move at most the requested bytes from/to the given address, in stream order, or fail and set errno', 'std::string obeys its documented contract; a message is shorter than 2^38 bytes; allocation never fails',
               'SIGPIPE is ignored by the program (a write to a broken connection then fails with EPIPE)', 'error texts are not modelled']
BOUNDED = 'random messages up to 2 MB over simulated streams with partial transfers, interruptions and errors at random points, and over real unix sockets'
EXPLANATION = 'putMessageData, getMessageData, putMessageClose, sendMessage and recvMessage with ghost counters of the bytes moved'
