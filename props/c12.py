"""C12: a socket object owns one descriptor: open while it lives, closed exactly once, never leaked on a failure"""
import socket as K
from props.sockmodel import *

CLOSE_ERRS = ('_ZTISt12domain_error', '_ZTISt13runtime_error')
SOCK_NONBLOCK, O_NONBLOCK, F_SETFL, POLLIN = 0o4000, 0o4000, 4, 1


def descriptors(ctx, s, *fds):
    """external close: ends one of the open descriptors `fds`; each must be closed at most once"""
    e = ctx.eng
    for i, fd in enumerate(fds):
        s.ghost[f'closed{i}'] = bv(0, 8)
        s.ghost[f'fd{i}'] = fd
        s.assume(fd >= 0)
    for i in range(len(fds)):
        for j in range(i):
            s.assume(fds[i] != fds[j])
    s.ghost.update(cerr=z3.BoolVal(False), ncl=bv(0, 8))

    def close(eng, st, I, a, f):
        n = len([k for k in st.ghost if re.match(r'fd\d+$', str(k))])
        mine = z3.Or(*[z3.And(a[0] == st.ghost[f'fd{i}'], st.g(f'open{i}', z3.BoolVal(True)), st.g(f'closed{i}') == bv(0, 8)) for i in range(n)])
        eng.oblige(st, "only an open descriptor of this object is closed, and only once", mine)
        for i in range(n):
            st.setg(f'closed{i}', simp(z3.If(a[0] == st.ghost[f'fd{i}'], st.g(f'closed{i}') + bv(1, 8), st.g(f'closed{i}'))))
        st.setg('ncl', st.g('ncl') + bv(1, 8))
        bad = st.copy()
        v = set_errno(eng, bad)
        bad.setg('cerr', simp(z3.Or(bad.g('cerr'), v != b32(E.EINTR))))
        return [(st, 'val', b32(0)), (bad, 'val', b32(-1))]

    e.contract(r'^close$', close)


one, zero = bv(1, 8), bv(0, 8)


def fd_of(ctx, st, D):
    return ctx.eng.load(st, ctx.acc('a_fd', D), I32)


def destroy(ctx, st, D, fn='h_dtor'):
    """destroy the object; yields the states after"""
    for o in ctx.eng.run_fn(st, ctx.fn(fn), [D]):
        if o[0] != 'ret':
            ctx.eng.oblige(o[1], "destroying a socket never throws", False)
        else:
            yield o[1]


def unit_ctor(ctx):
    e = ctx.eng
    s = base(ctx)
    fd = fbv('fd', 32)
    descriptors(ctx, s)
    r = s.new_region('sock', ctx.const('c_sizeof_data'), 'undef')
    D = Ptr(r.id, 0)
    for o in e.run_fn(s, ctx.fn('h_ctor'), [D, fd]):
        st = o[1]
        if o[0] == 'throw':
            e.oblige(st, "only an invalid descriptor is refused", fd == b32(-1))
            e.oblige(st, "an invalid descriptor is reported as runtime_error", o[2][1] == '_ZTISt13runtime_error')
        else:
            e.oblige(st, "an invalid descriptor is refused", fd != b32(-1))
            e.oblige(st, "the socket owns the descriptor it was given", fd_of(ctx, st, D) == fd)


def unit_close(ctx):
    e = ctx.eng
    s = base(ctx)
    fd = fbv('fd', 32)
    s.assume(fd >= 0)
    D, s = sock(ctx, s, fd)
    descriptors(ctx, s, fd)
    ctx.cover('precondition', s)
    for o in e.run_fn(s.copy(), ctx.fn('h_close'), [D]):
        st = o[1]
        e.oblige(st, "closing ends the descriptor exactly once", st.g('closed0') == one)
        e.oblige(st, "a closed socket owns nothing", fd_of(ctx, st, D) == b32(-1))
        if o[0] == 'throw':
            e.oblige(st, "closing throws only if the system reported an error", st.g('cerr'))
            e.oblige(st, "an error of close is domain_error or runtime_error", o[2][1] in CLOSE_ERRS)
        else:
            e.oblige(st, "an error of close is reported", z3.Not(st.g('cerr')))
        for o2 in e.run_fn(st.copy(), ctx.fn('h_close'), [D]):
            e.oblige(o2[1], "a closed socket cannot be closed again", z3.BoolVal(o2[0] == 'throw' and o2[2][1] == '_ZTISt11logic_error'))
            e.oblige(o2[1], "closing a closed socket touches no descriptor", o2[1].g('closed0') == one)
        for q in destroy(ctx, st, D):
            e.oblige(q, "destroying a closed socket touches no descriptor", q.g('ncl') == one)
    for q in destroy(ctx, s, D):
        e.oblige(q, "destroying an open socket closes its descriptor exactly once", q.g('closed0') == one)


def unit_move(how):
    def run(ctx):
        e = ctx.eng
        s = base(ctx)
        f0, f1 = fbv('fd', 32), fbv('fd', 32)
        s.assume(f0 >= 0, f1 >= 0, f0 != f1)
        A, s = sock(ctx, s, f0, 'a')
        if how == 'h_movector':
            B = Ptr(s.new_region('b', ctx.const('c_sizeof_data'), 'undef').id, 0)
            fds = (f0,)
        else:
            B, s = sock(ctx, s, f1, 'b')
            fds = (f0, f1)
        descriptors(ctx, s, *fds)
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn(how), [B, A]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "moving never throws", False)
                continue
            e.oblige(st, "the target owns the descriptor of the source", fd_of(ctx, st, B) == f0)
            e.oblige(st, "the moved descriptor stays open", st.g('closed0') == zero)
            if how == 'h_movector':
                e.oblige(st, "the source owns nothing", fd_of(ctx, st, A) == b32(-1))
            elif how == 'h_swap':
                e.oblige(st, "swapping exchanges the descriptors", z3.And(fd_of(ctx, st, A) == f1, st.g('closed1') == zero))
            for q in destroy(ctx, st, B):
                e.oblige(q, "the target closes the descriptor it took over", q.g('closed0') == one)
                for w in destroy(ctx, q, A):
                    e.oblige(w, "every descriptor is closed exactly once in the end", z3.And(*[w.g(f'closed{i}') == one for i in range(len(fds))]))

    return run


def unit_selfmove(ctx):
    e = ctx.eng
    s = base(ctx)
    fd = fbv('fd', 32)
    s.assume(fd >= 0)
    A, s = sock(ctx, s, fd, 'a')
    descriptors(ctx, s, fd)
    for o in e.run_fn(s, ctx.fn('h_moveassign'), [A, A]):
        e.oblige(o[1], "moving a socket onto itself keeps its descriptor", z3.And(z3.BoolVal(o[0] == 'ret'), fd_of(ctx, o[1], A) == fd, o[1].g('closed0') == zero))


def network(ctx, s, kind, port, path):
    """external socket, fcntl, bind, listen, connect; the address handed over is checked against what the caller asked for"""
    e = ctx.eng
    fd = fbv('newfd', 32)
    descriptors(ctx, s, fd)
    s.ghost.update(open0=z3.BoolVal(False), made=bv(0, 8), nb=z3.BoolVal(False), bound=z3.BoolVal(False), listening=z3.BoolVal(False), connected=z3.BoolVal(False), failed=z3.BoolVal(False),
                   ip=b32(0), copied=None)
    unix = path is not None
    dom = 1 if unix else 2

    def sock_(eng, st, I, a, f):
        eng.oblige(st, "one socket is created", st.g('made') == zero)
        st.setg('made', one)
        ty = a[1] & b32(~(SOCK_NONBLOCK | 0o2000000))
        eng.oblige(st, "a stream socket of the right family is created", z3.And(a[0] == b32(dom), ty == b32(1)))
        bad = st.copy()
        bad.setg('failed', z3.BoolVal(True))
        set_errno(eng, bad)
        st.setg('open0', z3.BoolVal(True))
        st.setg('nb', simp((a[1] & b32(SOCK_NONBLOCK)) != b32(0)))
        return [(st, 'val', fd), (bad, 'val', b32(-1))]

    def fcntl(eng, st, I, a, f):
        live(eng, st, a[0])
        if cval(a[1]) == F_SETFL:
            st.setg('nb', simp((a[2] & b32(O_NONBLOCK)) != b32(0)))
            return b32(0)
        return fbv('fcntl', 32)

    def live(eng, st, x):
        eng.oblige(st, "the new socket's own open descriptor is used", z3.And(x == fd, st.g('open0'), st.g('closed0') == zero))
        eng.oblige(st, "nothing is attempted after a failure", z3.Not(st.g('failed')))

    def address(eng, st, a, server):
        p, n = a[1], a[2]
        fam = eng.load(st, p, I16)
        eng.oblige(st, "the address family matches the socket", fam == bv(dom, 16))
        if unix:
            eng.oblige(st, "a unix address has the size of its structure", n == b32(ctx.const('c_sizeof_un')))
            c = st.ghost.get('copied')
            o = ctx.const('c_off_path')
            eng.oblige(st, "the address names the path asked for", c is not None and c[0] == p.r and c[1] == p.o + o)
            eng.oblige(st, "the path in the address is terminated", eng.load(st, p.add(o + 107), I8) == bv(0, 8))
            eng.oblige(st, "a path that does not fit is refused, not cut", z3.ULE(st.ghost['sz'], bv(107)))
        else:
            eng.oblige(st, "an internet address has the size of its structure", n == b32(ctx.const('c_sizeof_in')))
            want = simp(z3.Concat(z3.Extract(7, 0, port), z3.Extract(15, 8, port)))
            eng.oblige(st, "the address has the port asked for", eng.load(st, p.add(2), I16) == want)
            eng.oblige(st, "the address has the host asked for", eng.load(st, p.add(4), I32) == (b32(0) if server else st.ghost['ip']))

    def result(eng, st, key):
        bad = st.copy()
        bad.setg('failed', z3.BoolVal(True))
        set_errno(eng, bad)
        st.setg(key, z3.BoolVal(True))
        return [(st, 'val', b32(0)), (bad, 'val', b32(-1))]

    def connect(eng, st, I, a, f):
        live(eng, st, a[0])
        address(eng, st, a, False)
        return result(eng, st, 'connected')

    def bind(eng, st, I, a, f):
        live(eng, st, a[0])
        address(eng, st, a, True)
        return result(eng, st, 'bound')

    def listen(eng, st, I, a, f):
        live(eng, st, a[0])
        eng.oblige(st, "a server listens on the address it is bound to", st.g('bound'))
        eng.oblige(st, "a server lets clients queue", a[1] > b32(0))
        return result(eng, st, 'listening')

    def htons(eng, st, I, a, f):
        return simp(z3.Concat(z3.Extract(7, 0, a[0]), z3.Extract(15, 8, a[0])))

    def inet_addr(eng, st, I, a, f):
        eng.oblige(st, "the host asked for is looked up", z3.And(oz(a[0].o) == st.g('at')) if a[0].r == st.ghost['chars'] else False)
        v = fbv('ip', 32)
        st.ghost['ip'] = v
        return v

    def strncpy(eng, st, I, a, f):
        d, src, n = a
        eng.oblige(st, "the path asked for is copied", oz(src.o) == st.g('at') if src.r == st.ghost['chars'] else False)
        k = cval(n)
        if k is None:
            raise Unsupported('strncpy of symbolic length')
        eng.oblige(st, "the path is copied within the address", z3.BoolVal(d.o + k <= st.mem[d.r].size))
        eng.oblige(st, "as much of the path is copied as fits", k >= 107)
        for i in range(k):
            eng.store(st, d.add(i), fbv('ch', 8), I8)
        st.ghost['copied'] = (d.r, d.o)
        return d

    for n, h in (('socket', sock_), ('fcntl', fcntl), ('connect', connect), ('bind', bind), ('listen', listen), ('htons', htons), ('inet_addr', inet_addr), ('strncpy', strncpy)):
        e.contract(f'^{n}$', h)
    return fd


def unit_open(fn, size, dt, server, unix):
    def run(ctx):
        e = ctx.eng
        s = base(ctx)
        string_contracts(ctx)
        S = string_object(ctx, s)
        port = None if unix else fbv('port', 32)
        if port is not None:
            s.assume(port >= 0, port <= b32(65535))
        fd = network(ctx, s, fn, port, S if unix else None)
        D = Ptr(s.new_region('obj', ctx.const(size), 'undef').id, 0)
        args = [D] + ([S] if unix or not server else []) + ([] if unix else [port])
        ctx.cover('precondition', s)
        done = 0
        for o in e.run_fn(s, ctx.fn(fn), args):
            st = o[1]
            if o[0] == 'throw':
                e.oblige(st, "a descriptor obtained before a failure is closed exactly once", z3.If(st.g('open0'), st.g('closed0') == one, st.g('closed0') == zero))
                e.oblige(st, "construction throws only after a failure", z3.Or(st.g('failed'), z3.UGT(st.ghost['sz'], bv(107)) if unix else z3.BoolVal(False)))
                e.oblige(st, "a failure is reported as runtime_error or domain_error", o[2][1] in CLOSE_ERRS)
                continue
            done += 1
            e.oblige(st, "a constructed socket owns the new descriptor, still open", z3.And(fd_of(ctx, st, D) == fd, st.g('open0'), st.g('closed0') == zero))
            e.oblige(st, "a constructed socket is ready for use", z3.And(z3.Not(st.g('failed')), z3.And(st.g('bound'), st.g('listening'), st.g('nb')) if server else st.g('connected')))
            if not server:
                e.oblige(st, "a connected socket blocks until data is there", z3.Not(st.g('nb')))
            for q in destroy(ctx, st, D, dt):
                e.oblige(q, "destroying the socket closes its descriptor exactly once", q.g('closed0') == one)
        e.oblige(s, "a socket can be opened", done > 0)

    return run


def unit_accept(closed):
    def run(ctx):
        e = ctx.eng
        s = base(ctx)
        string_contracts(ctx)
        string_object(ctx, s)
        port = fbv('port', 32)
        fd = network(ctx, s, 'h_server_port', port, None)
        D = Ptr(s.new_region('server', ctx.const('c_sizeof_server'), 'undef').id, 0)
        e.suppress += 1
        outs = e.run_fn(s, ctx.fn('h_server_port'), [D, port])
        e.suppress -= 1
        (k, s, v), = [o for o in outs if o[0] == 'ret']
        s.model = None
        srv = fd
        if closed:
            e.store(s, D.add(ctx.acc('a_fd', D).o), b32(-1), I32)
        nf = fbv('newfd', 32)
        s.assume(nf >= 0, nf != srv)
        s.ghost.update(fd1=nf, closed1=bv(0, 8), open1=z3.BoolVal(False), polled=z3.BoolVal(False), timedout=z3.BoolVal(False), calls=bv(0, 8), ncl=bv(0, 8))
        t = fbv('timeout', 32)

        def poll(eng, st, I, a, f):
            p, n, ms = a
            eng.oblige(st, "the server's own descriptor is waited for", z3.And(n == bv(1), eng.load(st, p, I32) == srv))
            eng.oblige(st, "a waiting client ends the wait", (eng.load(st, p.add(4), I16) & bv(POLLIN, 16)) != bv(0, 16))
            lim = z3.SignExt(32, t) * bv(1000)
            eng.oblige(st, "the wait is no longer than the caller's timeout", z3.And(ms >= 0, z3.SignExt(32, ms) <= z3.If(lim > 0, lim, bv(0))))
            eng.oblige(st, "the wait is as long as the caller's timeout", z3.Implies(z3.And(t >= 0, t <= b32(2000000)), z3.SignExt(32, ms) == lim))
            st.setg('calls', one)
            r = fbv('poll', 32)
            st.assume(r >= b32(-1), r <= b32(1))
            q = st.copy()
            st.assume(r == b32(1))
            eng.store(st, p.add(6), fbv('revents', 16), I16)
            st.setg('polled', z3.BoolVal(True))
            q.assume(r != b32(1))
            set_errno(eng, q)
            q.setg('timedout', z3.BoolVal(True))
            return [(st, 'val', r), (q, 'val', r)]

        def accept(eng, st, I, a, f):
            eng.oblige(st, "clients of this server are accepted", a[0] == srv)
            eng.oblige(st, "a client is accepted once", z3.Not(st.g('open1')))
            eng.oblige(st, "nothing is accepted after a time-out", z3.Not(st.g('timedout')))
            eng.oblige(st, "the peer address fits", z3.BoolVal(a[1].r is None or (cval(eng.load(st, a[2], I32)) or 1 << 30) <= st.mem[a[1].r].size - a[1].o))
            st.setg('calls', one)
            bad = st.copy()
            set_errno(eng, bad)
            bad.setg('failed', z3.BoolVal(True))
            st.setg('open1', z3.BoolVal(True))
            return [(st, 'val', nf), (bad, 'val', b32(-1))]

        e.contract(r'^poll$', poll)
        e.contract(r'^accept4?$', accept)
        ctx.cover('precondition', s)
        R = Ptr(s.new_region('result', ctx.const('c_sizeof_sp'), 'undef').id, 0)
        done = 0
        for o in e.run_fn(s, ctx.fn('h_accept'), [D, R, t]):
            st = o[1]
            e.oblige(st, "accepting leaves the server open", st.g('closed0') == zero)
            if o[0] == 'throw':
                if closed:
                    e.oblige(st, "accepting on a closed or moved server is refused", z3.And(z3.BoolVal(o[2][1] == '_ZTISt11logic_error'), st.g('calls') == zero))
                    continue
                e.oblige(st, "accept throws only on a time-out or an error", z3.Or(st.g('failed'), st.g('timedout')))
                e.oblige(st, "a failed accept leaks nothing", z3.Or(z3.Not(st.g('open1')), st.g('closed1') == one))
                e.oblige(st, "a failure is reported as runtime_error", o[2][1] == '_ZTISt13runtime_error')
                continue
            done += 1
            e.oblige(st, "accept returns only with a client", z3.And(st.g('open1'), st.g('closed1') == zero))
            for k, q, v in e.run_fn(st, ctx.fn('h_spget'), [R]):
                e.oblige(q, "the returned socket owns the client's descriptor", fd_of(ctx, q, v) == nf if isinstance(v, Ptr) and v.r else False)
                for o2 in e.run_fn(q, ctx.fn('h_sprel'), [R]):
                    e.oblige(o2[1], "dropping the client's socket closes its descriptor exactly once", z3.And(z3.BoolVal(o2[0] == 'ret'), o2[1].g('closed1') == one))
        e.oblige(s, "accept can succeed", done > 0 or closed)

    return run


UNITS = [Unit('construction', unit_ctor), Unit('close and destruction', unit_close), Unit('move construction', unit_move('h_movector')), Unit('move assignment', unit_move('h_moveassign')),
         Unit('swap', unit_move('h_swap')), Unit('move onto itself', unit_selfmove),
         Unit('ServerSocket(port)', unit_open('h_server_port', 'c_sizeof_server', 'h_server_dtor', True, False)), Unit('ServerSocket(path)', unit_open('h_server_path', 'c_sizeof_server', 'h_server_dtor', True, True)),
         Unit('ConnectSocket(host, port)', unit_open('h_connect_port', 'c_sizeof_connect', 'h_connect_dtor', False, False)),
         Unit('ConnectSocket(path)', unit_open('h_connect_path', 'c_sizeof_connect', 'h_connect_dtor', False, True)),
         Unit('accept', unit_accept(False)), Unit('accept, closed server', unit_accept(True))]
SRCS = ['core/modules/socket_mdlw/src/%s.cpp' % x for x in ('base_socket', 'data_socket', 'connect_socket', 'server_socket', 'protocol', 'protocol_simple')]
DRIVERS = [dict(src='d12.cpp', secs=4, srcs=SRCS)]
ASSUMPTIONS = ['close ends the descriptor whatever it returns (Linux)', 'socket/bind/listen/connect/accept/poll/fcntl succeed or fail with errno; a new descriptor is none of the open ones', 'allocation never fails; error texts are not modelled',
               'IPv4 addresses in dotted notation, ports 0..65535']
BOUNDED = 'random histories of up to a dozen operations on 2..6 sockets with injected failures of close; servers and clients over unix and loopback sockets with injected failures of every call; descriptors above 1024; path lengths around the limit'
EXPLANATION = 'BaseSocket construction, close, destruction, move, swap; ServerSocket and ConnectSocket constructors; accept - with a ghost open/closed state per descriptor'
