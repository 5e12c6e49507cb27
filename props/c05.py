"""C05: a consumer never sees past what it waits for; blocked consumers are woken by publish and alert"""
import re

import z3
from kvc.check import *
from props.seqmodel import *
from kvc.cands import *
from kvc.stl import PT, I8, parse, base_name, simp

HARNESS = 'c05_barrier.cpp'
STRATS = ['blocking', 'busy', 'lite', 'sleeping', 'sleeping0', 'timeout', 'yielding', 'phased']
BLOCKING = {'blocking', 'lite', 'timeout', 'phased'}
T, F = z3.BoolVal(True), z3.BoolVal(False)


class DepHook(GatingHook):
    """tracked sequences; also counts polls since the alert flag was last looked at"""

    def load(self, eng, s, p, ty, order):
        if 'polls' in s.ghost and s.ghost.get('pollmax'):
            eng.oblige(s, "the alert flag is looked at between two polls", z3.ULT(s.g('polls'), bv(s.ghost['pollmax'][0])), 'progress')
            s.setg('polls', simp(s.g('polls') + bv(1)))
        return super().load(eng, s, p, ty, order)


class CurHook(CursorHook):
    def load(self, eng, s, p, ty, order):
        v = super().load(eng, s, p, ty, order)
        s.setg('chk_cursor', T)
        return v

    def store(self, eng, s, *a):
        eng.oblige(s, "a consumer never moves the publisher's cursor", False)
        raise Infeasible()

    cmpxchg = rmw = store


class AlertHook:
    def load(self, eng, s, p, ty, order):
        eng.oblige(s, "alert flag is read with acquire ordering", order in ('acquire', 'seq_cst', 'acq_rel'), 'order')
        v = fbv('alerted', ty.width)
        s.assume(z3.ULE(v, 1))
        s.setg('chk_alert', T)
        s.setg('alert', simp(v == 1))
        s.setg('polls', bv(0))
        return v

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "alert flag is written with release ordering", order in ('release', 'seq_cst', 'acq_rel'), 'order')
        s.setg('alert', simp(z3.Extract(0, 0, v) == 1))
        s.setg('aset', T)
        return None

    def cmpxchg(self, *a):
        raise Unsupported('alert cas')

    def rmw(self, eng, s, p, op, v, ty, order):
        if op != 'xchg':
            raise Unsupported('alert rmw ' + op)
        old = fbv('alerted', ty.width)
        s.assume(z3.ULE(old, 1))
        s.setg('alert', simp(z3.Extract(0, 0, v) == 1))
        s.setg('aset', T)
        return old


class SigHook:
    """lite blocking: the waiter announces itself, then must look again (store-load ordering needed)"""

    def store(self, eng, s, p, v, ty, order):
        eng.oblige(s, "announcing a waiter is ordered before the re-check (needs a read-modify-write or seq_cst)", order == 'seq_cst', 'order')
        self.ann(s, v)
        return None

    def ann(self, s, v):
        s.setg('sn', simp(z3.Extract(0, 0, v) == 1))
        s.setg('chk_cursor', F)
        s.setg('chk_alert', F)

    def load(self, eng, s, p, ty, order):
        v = fbv('sn', ty.width)
        s.assume(z3.ULE(v, 1))
        return v

    def rmw(self, eng, s, p, op, v, ty, order):
        if op != 'xchg':
            raise Unsupported('signal flag rmw ' + op)
        old = fbv('sn', ty.width)
        s.assume(z3.ULE(old, 1))
        if s.ghost.get('side') == 'wait':
            eng.oblige(s, "announcing a waiter acquires what earlier signallers published", order in ('acquire', 'acq_rel', 'seq_cst'), 'order')
            self.ann(s, v)
        else:
            eng.oblige(s, "the signaller releases its publication before looking for waiters", order in ('release', 'acq_rel', 'seq_cst'), 'order')
            s.setg('waiter', simp(z3.Or(s.g('waiter'), z3.Extract(0, 0, old) == 1)))
        return old

    def cmpxchg(self, *a):
        raise Unsupported('signal flag cas')


def sync_contracts(e, lite=False):
    def lock(eng, s, I, args, fn):
        s.setg('held', simp(s.g('held') + bv(1)))
        s.setg('lockseen', T)
        s.setg('chk_cursor', F)
        s.setg('chk_alert', F)
        return bv(0, 32) if I.ty.kind == 'int' else None

    def unlock(eng, s, I, args, fn):
        eng.oblige(s, "only a held lock is released", s.g('held') != bv(0))
        s.setg('held', simp(s.g('held') - bv(1)))
        return None

    def cvwait(kind):
        def f(eng, s, I, args, fn):
            eng.oblige(s, "a consumer goes to sleep only holding the lock", s.g('held') == bv(1))
            eng.oblige(s, "a consumer goes to sleep only after re-checking the cursor under the lock (no lost publish)", s.g('chk_cursor'))
            eng.oblige(s, "a consumer goes to sleep only after re-checking the alert under the lock (no lost alert)", s.g('chk_alert'))
            if lite:
                eng.oblige(s, "a consumer announces itself before going to sleep", s.g('sn'))
            s.setg('chk_cursor', F)
            s.setg('chk_alert', F)
            s.setg('sn', F)
            s.setg('slept', T)
            if kind == 'for':
                v = fbv('cv_status', 32)
                s.assume(z3.ULE(v, 1))
                s.setg('timedout', simp(v == 1))
                return v
            return None

        return f

    def notify(eng, s, I, args, fn):
        # notifying after the unlock is as good: what matters is that the lock was taken after the condition changed
        s.setg('notified', simp(z3.Or(s.g('notified'), s.g('lockseen'))))
        return None

    def notify1(eng, s, I, args, fn):
        return None     # wakes one waiter only: does not count as waking all

    e.contract(r'std::(recursive_)?mutex::lock\(', lock)
    e.contract(r'std::(recursive_)?mutex::unlock\(', unlock)
    e.contract(r'std::(_V2::)?condition_variable(_any)?::wait(<[^()]*>)?\(std::unique_lock<[^()]*>&\)$', cvwait('plain'))
    e.contract(r'std::(_V2::)?condition_variable(_any)?::wait_(for|until)<[^()]*>\(std::unique_lock<[^()]*>&, std::chrono::[^()]*\)$', cvwait('for'))
    e.contract(r'std::(_V2::)?condition_variable(_any)?::notify_all\(', notify)
    e.contract(r'std::(_V2::)?condition_variable(_any)?::notify_one\(', notify1)


def base_state(ctx, W, K=None):
    e = ctx.eng
    s = ctx.state()
    seqs, data, K = gating_setup(ctx, s, K)
    seqs.hooks = {'*': DepHook(ctx.const('c_sizeof_sequence'))}
    s.ghost.update(held=bv(0), lockseen=F, chk_cursor=F, chk_alert=F, sn=F, slept=F, timedout=F, alert=F, aset=F, notified=F, waiter=F,
                   polls=bv(0), C0=s64('C0'), Clast=bv(-1))
    s.assume(s.g('C0') >= bv(-1), s.g('C0') <= bv(LIM))
    ws = s.new_region('ws', ctx.const('c_sizeof_ws_' + W), 'input')
    if W == 'lite':
        ws.hooks = {ctx.acc('a_lite_flag', Ptr(ws.id, 0)).o: SigHook()}
    cur = s.new_region('cursor', ctx.const('c_sizeof_sequence'), 'input')
    cur.hooks = {ctx.acc('a_seq_value', Ptr(cur.id, 0)).o: CurHook('cursor', True)}
    sp = s.new_region('sequencer', None, 'input')
    ev = s.new_region('emptyvec', 24)
    for o in (0, 8, 16):
        ev.cells[o] = (8, NULL)
    b = s.new_region('barrier', ctx.const('c_sizeof_bar_' + W), 'undef')
    e.suppress += 1
    e2 = e.contracts
    outs = e.run_fn(s, ctx.fn('h_bar_ctor_' + W), [Ptr(b.id, 0), Ptr(sp.id, 0), Ptr(ws.id, 0), Ptr(cur.id, 0), Ptr(ev.id, 0)])
    e.suppress -= 1
    outs = [o for o in outs if o[0] == 'ret']
    if len(outs) != 1:
        raise Unsupported("barrier constructor has several outcomes")
    s = outs[0][1]
    B = Ptr(b.id, 0)
    dep = ctx.acc('a_bar_dep_' + W, B)
    gv = ctx.acc('a_group_vec', Ptr('X', 0)).o
    ctor_vec = s.mem[B.r].cells.get(dep.o + gv)
    al = ctx.acc('a_bar_alerted_' + W, B).o
    initial_alert = s.mem[B.r].cells.get(al)
    s.wreg(B.r).hooks = {al: AlertHook()}
    vec_cells(s, B.r, dep.o + gv, data, K)
    e.cand_gens = [scalar_gen(anchors=[('seq', lambda st: st.ghost.get('seq')), ('B', lambda st: st.ghost['B'])]), min_gen(data.id), flags_gen]
    return s, B, Ptr(ws.id, 0), Ptr(cur.id, 0), dep, K, (ctor_vec, initial_alert)


def flags_gen(eng, entry, hs, M, header):
    out = []
    bools = [k[1] for k in M if k[0] == 'g' and z3.is_bool(hs.ghost.get(k[1]))]
    for k in bools:
        out.append(Cand(f"{k}", lambda st, k=k: st.ghost[k]))
        out.append(Cand(f"not {k}", lambda st, k=k: z3.Not(st.ghost[k])))
    for k in ('held', 'polls'):
        for c in (0, 1):
            out.append(Cand(f"{k}=={c}", lambda st, k=k, c=c: st.ghost[k] == bv(c)))
    out.append(Cand("polls<=1", lambda st: z3.ULE(st.ghost['polls'], bv(1))))
    return out


def group_min(eng, s, I, args, fn):
    """contract of the tracked group's minimum (proved in unit `group`)"""
    if 'polls' in s.ghost and s.ghost.get('pollmax'):
        eng.oblige(s, "the alert flag is looked at between two polls", z3.ULT(s.g('polls'), bv(s.ghost['pollmax'][0])), 'progress')
        s.setg('polls', simp(s.g('polls') + bv(1)))
    m, l2 = s64('gmin'), s64('Lj')
    s.assume(l2 >= s.g('Lj'), l2 <= bv(LIM), m >= bv(-1), z3.Implies(s.g('has'), m <= l2), z3.Or(m == bv(I64MAX), m <= bv(LIM)), m >= s.g('B'))
    s.setg('Lj', l2)
    return m


GROUPRX = r'disruptor4cpp::fixed_sequence_group<disruptor4cpp::sequence>::get\(\) const'


def unit_wait(W):
    def run(ctx):
        e = ctx.eng
        sync_contracts(e, W == 'lite')
        s, B, ws, cur, dep, K, _ = base_state(ctx, W)
        e.contract(GROUPRX, group_min)
        q = s64('seq')
        s.assume(q >= bv(0), q <= bv(LIM), K != bv(0))
        s.ghost['seq'] = q
        s.ghost['side'] = 'wait'
        if W != 'phased':
            s.ghost['pollmax'] = (2,)
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn('h_wait_' + W), [ws, q, cur, dep, B]):
            st = o[1]
            e.oblige(st, "no lock is left held", st.g('held') == bv(0))
            if o[0] == 'ret':
                e.oblige(st, "wait_for returns only once the requested sequence is reached", o[2] >= q)
                e.oblige(st, "wait_for never reports past any tracked sequence", z3.Implies(st.g('has'), o[2] <= st.g('Lj')))
            else:
                ti = o[2][1]
                if ti.endswith('alert_exceptionE'):
                    e.oblige(st, "alert_exception only when the barrier is alerted", st.g('alert'))
                elif ti.endswith('timeout_exceptionE') and W == 'timeout':
                    e.oblige(st, "timeout_exception only after the timeout elapsed", st.g('timedout'))
                else:
                    e.oblige(st, f"unexpected exception {ti}", False)

    return run


def unit_signal(W):
    def run(ctx):
        e = ctx.eng
        sync_contracts(e, W == 'lite')
        s, B, ws, cur, dep, K, _ = base_state(ctx, W)
        s.ghost['side'] = 'signal'
        for o in e.run_fn(s, ctx.fn('h_signal_' + W), [ws]):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            e.oblige(st, "no lock is left held", st.g('held') == bv(0))
            if W == 'lite':
                e.oblige(st, "every announced waiter is notified under the lock", z3.Implies(st.g('waiter'), st.g('notified')))
            elif W in BLOCKING:
                e.oblige(st, "all waiters are notified under the lock", st.g('notified'))
        # alert
        s, B, ws, cur, dep, K, _ = base_state(ctx, W)
        s.ghost['side'] = 'signal'
        s.ghost['signalled'] = F

        def sig(eng, st, I, args, fn):
            eng.oblige(st, "alert() wakes waiters only after the alert is visible", z3.And(st.g('aset'), st.g('alert')))
            st.setg('signalled', T)
            return None

        e.contract(r'wait_strategy(<.*>)?::signal_all_when_blocking\(', sig)
        for o in e.run_fn(s, ctx.fn('h_bar_alert_' + W), [B]):
            st = o[1]
            e.oblige(st, "alert() raises the alert and wakes the waiters", z3.And(st.g('alert'), st.g('aset'), st.g('signalled')) if o[0] == 'ret' else False)
        s, B, ws, cur, dep, K, _ = base_state(ctx, W)
        for o in e.run_fn(s, ctx.fn('h_bar_clear_' + W), [B]):
            e.oblige(o[1], "clear_alert() lowers the alert", z3.And(z3.Not(o[1].g('alert')), o[1].g('aset')) if o[0] == 'ret' else False)
        s, B, ws, cur, dep, K, _ = base_state(ctx, W)
        for o in e.run_fn(s, ctx.fn('h_bar_is_alerted_' + W), [B]):
            r = o[2]
            r = r if z3.is_bool(r) else z3.Extract(0, 0, r) == 1
            e.oblige(o[1], "is_alerted() reports the alert", r == o[1].g('alert') if o[0] == 'ret' else False)

    return run


HPRX = r'_producer_sequencer<.*>::get_highest_published_sequence\('


def unit_barrier(W):
    def run(ctx):
        e = ctx.eng
        s, B, ws, cur, dep, K, (cvec, ial) = base_state(ctx, W)
        q = s64('seq')
        s.assume(q >= bv(0), q <= bv(LIM))
        s.ghost.update(seq=q, hp=s64('hp'), av=s64('av0'), waited=F, hpcalled=F)

        def wait(eng, st, I, args, fn):
            eng.oblige(st, "the barrier waits for the requested sequence", args[1] == q)
            for n, a, want in (('cursor', args[2], cur), ('tracked group', args[3], dep), ('barrier', args[4], B)):
                eng.oblige(st, f"the barrier waits on its own {n}", isinstance(a, Ptr) and a.r == want.r and a.o == want.o)
            st.setg('waited', T)
            bad, tmo = st.copy(), st.copy()
            av = s64('av')
            st.assume(av >= bv(-1), av <= bv(LIM))
            st.setg('av', av)
            return [(st, 'val', av), (bad, 'throw', eng.throw_new(bad, '_ZTIN13disruptor4cpp15alert_exceptionE', 8, tag='ws')),
                    (tmo, 'throw', eng.throw_new(tmo, '_ZTIN13disruptor4cpp17timeout_exceptionE', 8))]

        def hp(eng, st, I, args, fn):
            eng.oblige(st, "publication is checked from the requested sequence up to what the strategy reported", z3.And(args[1] == q, args[2] == st.g('av')))
            r = s64('hp')
            st.assume(r <= args[2], r >= q - bv(1))
            st.setg('hp', r)
            st.setg('hpcalled', T)
            return r

        e.contract(r'wait_strategy(<.*>)?::wait_for<', wait)
        e.contract(HPRX, hp)
        ctx.cover('precondition', s)
        for o in e.run_fn(s, ctx.fn('h_bar_wait_' + W), [B, q]):
            st = o[1]
            if o[0] == 'ret':
                r = o[2]
                e.oblige(st, "never reports an unpublished sequence as available", z3.Or(r < q, z3.And(st.g('hpcalled'), r <= st.g('hp'))))
                e.oblige(st, "reports everything that is published", z3.If(st.g('av') < q, r == st.g('av'), r == st.g('hp')))
                e.oblige(st, "an alerted barrier does not report progress", z3.And(st.g('waited'), st.g('chk_alert'), z3.Not(st.g('alert'))))
            else:
                ti = o[2][1]
                if ti.endswith('alert_exceptionE'):
                    e.oblige(st, "alert_exception only when alerted or raised by the strategy", z3.Or(st.g('alert'), st.g('waited')))
                elif ti.endswith('timeout_exceptionE'):
                    e.oblige(st, "timeout_exception only from the strategy", st.g('waited'))
                else:
                    e.oblige(st, f"unexpected exception {ti}", False)
        # constructor: with no dependents the barrier tracks the cursor itself and is not alerted
        s, B, ws, cur, dep, K, (cvec, ial) = base_state(ctx, W)
        e.oblige(s, "a new barrier is not alerted", ial is not None and simp(z3.Extract(0, 0, ial[1]) == 0))
        ok = False
        if cvec and isinstance(cvec[1], Ptr) and cvec[1].r in s.mem:
            x = s.mem[cvec[1].r].cells.get(cvec[1].o)
            ok = x is not None and isinstance(x[1], Ptr) and x[1].r == cur.r and x[1].o == 0
        e.oblige(s, "a barrier without dependents tracks the publisher's cursor", ok)

    return run


def unit_group(ctx):
    e = ctx.eng
    s = ctx.state()
    seqs, data, K = gating_setup(ctx, s)
    s.assume(K != bv(0))
    g = s.new_region('group', ctx.const('c_sizeof_group'))
    vec_cells(s, g.id, ctx.acc('a_group_vec', Ptr(g.id, 0)).o, data, K)
    ctx.cover('precondition', s)
    B0 = s.g('B')
    for o in e.run_fn(s, ctx.fn('h_group_get'), [Ptr(g.id, 0)]):
        st = o[1]
        if o[0] != 'ret':
            e.oblige(st, "no exception", False)
            continue
        e.oblige(st, "the group value never exceeds any tracked sequence", z3.Implies(st.g('has'), o[2] <= st.g('Lj')))
        e.oblige(st, "the group value is not below the minimum of the tracked sequences", z3.Or(o[2] >= B0, o[2] == bv(I64MAX)))
    s = ctx.state()
    seqs, data, K = gating_setup(ctx, s)
    g = s.new_region('group', ctx.const('c_sizeof_group'))
    c = s.new_region('one', 128)
    outs = e.run_fn(s, ctx.fn('h_group_create1'), [Ptr(g.id, 0), Ptr(c.id, 0)])
    for o in outs:
        if o[0] != 'ret':
            continue
        st = o[1]
        off = ctx.acc('a_group_vec', Ptr(g.id, 0)).o
        cs = st.mem[g.id].cells
        b, en = cs[off][1], cs[off + 8][1]
        e.oblige(st, "a group made from one sequence tracks exactly that one",
                 isinstance(b, Ptr) and isinstance(en, Ptr) and b.r == en.r and osub(en.o, b.o) == 8 and
                 isinstance(st.mem[b.r].cells.get(b.o, (0, 0))[1], Ptr) and st.mem[b.r].cells[b.o][1].r == c.id)


def list_gen(seqdata):
    def gen(eng, entry, hs, M, header):
        out = []
        for n, g, k in loop_vars(eng, entry, hs, M):
            if n.startswith('ghost'):
                continue
            if k == 'ptr' and isinstance(g(hs), Ptr) and g(hs).r == seqdata or k in (32, 64):
                def f(st, g=g):
                    i = progress(st, g, seqdata)
                    return None if i is None else i == st.ghost['n']

                out.append(Cand(f"{n}: so many sequences are tracked", f))
        out.append(Cand("not more sequences than given", lambda st: z3.ULE(st.ghost['n'], st.ghost['K'])))
        return out

    return gen


def unit_tracks(nm):
    """a group made from a list tracks exactly that list"""

    def run(ctx):
        e = ctx.eng
        s = ctx.state()
        seqs, data, K = gating_setup(ctx, s)
        s.assume(z3.ULT(K, bv(1 << 30)))
        W = nm[11:] if nm.startswith('h_bar_ctor_') else None
        made = nm[7:] if nm.startswith('h_new') else None
        g = s.new_region('barrier' if W else 'group', ctx.const('c_sizeof_bar_' + W if W else 'c_sizeof_group'), 'undef')
        src = s.new_region('list', 24)
        vec_cells(s, src.id, 0, data, K)
        if W or nm.startswith('h_newn'):
            s.assume(K != bv(0))
        s.ghost.update(n=bv(0))
        stride = ctx.const('c_sizeof_sequence')
        perm = data.segs[0].fields[0][2]
        lst = s.new_region('tracked list', None, 'undef')

        def mark(st, v):
            """an abstract list: its elements are the first n of the given ones"""
            if z3.is_expr(st.g('n')) and cval(st.g('n')) != 0:
                raise Unsupported('several lists of tracked sequences')
            for o in (0, 8, 16):
                e.store(st, v.add(o), Ptr(lst.id, 0), PT)
            return [(st, 'val', None)]

        def marked(st, v):
            x = e.load(st, v, PT)
            if not isinstance(x, Ptr) or x.r != lst.id:
                raise Unsupported('a list of tracked sequences that was not made here')

        def whole(eng, st, v, a, b):
            i, j = (progress(st, lambda _: x, data.id) for x in (a, b))
            if i is None or j is None:
                raise Unsupported('a list made from something else')
            marked(st, v)
            eng.oblige(st, "the whole list is tracked", z3.And(st.g('n') == bv(0), i == bv(0), j == K))
            st.setg('n', K)

        def meth(eng, st, I, args, m, fn):
            if m == 'insert' and len(args) == 4:
                whole(eng, st, args[0], args[2], args[3])
                return Ptr(lst.id, 0)
            if m == 'assign' and len(args) == 3:
                whole(eng, st, args[0], args[1], args[2])
                return [(st, 'val', None)]
            if m in ('reserve', 'shrink_to_fit'):
                return [(st, 'val', None)]
            if m in ('push_back', 'emplace_back'):
                marked(st, args[0])
                x = eng.load(st, args[1], PT)
                if not isinstance(x, Ptr):
                    raise Unsupported('a sequence that is not a pointer')
                n = st.g('n')
                if nm.startswith('h_new0'):
                    eng.oblige(st, "a barrier without dependents tracks one sequence", st.ghost.get('one') is None)
                    st.ghost['one'] = x
                    return [(st, 'val', Ptr(lst.id, 0) if I.ty.kind == 'ptr' else None)]
                eng.oblige(st, "the sequences of the list are tracked, in order", z3.And(z3.ULT(n, K), z3.BoolVal(x.r == seqs.id), oz(x.o) == z3.Select(perm, n) * bv(stride)))
                st.setg('n', simp(n + bv(1)))
                return [(st, 'val', Ptr(lst.id, 0) if I.ty.kind == 'ptr' else None)]
            raise Unsupported('list of a group: ' + m)

        class M:
            def select(self, fn):
                comps, ps, _ = parse(fn.dem)
                if len(comps) < 2 or base_name(comps[-2]) != 'vector' or 'sequence const*' not in comps[-2]:
                    return None
                m = base_name(comps[-1])
                if m == 'vector' and not ps.strip('() '):
                    return lambda eng, st, I, a, f: mark(st, a[0])
                if m == 'vector' and 'iterator' in ps:
                    def init(eng, st, I, a, f):
                        mark(st, a[0])
                        whole(eng, st, a[0], a[1], a[2])
                        return [(st, 'val', None)]

                    return init
                if m == '~vector':
                    return lambda eng, st, I, a, f: [(st, 'val', None)]
                if m in ('insert', 'assign', 'push_back', 'emplace_back', 'reserve', 'shrink_to_fit', 'resize', 'pop_back', 'erase', 'emplace', 'size', 'empty', 'clear', 'operator[]', 'back', 'front'):
                    return lambda eng, st, I, a, f: meth(eng, st, I, a, m, f)
                return None

        def copied(eng, st, I, a, fn):
            for o in (0, 8, 16):
                eng.store(st, a[0].add(o), eng.load(st, a[1].add(o), PT), PT)
            return [(st, 'val', None)]

        e.contract(r'std::vector<disruptor4cpp::sequence const\*', M())
        e.contract(r'std::vector<disruptor4cpp::sequence\*, [^()]*>::vector\(std::vector<[^()]*> const&\)', copied)
        e.contract(r'std::vector<disruptor4cpp::sequence\*, [^()]*>::~vector\(', lambda eng, st, I, a, fn: [(st, 'val', None)])
        e.cand_gens = [scalar_gen(), list_gen(data.id)]
        ctx.cover('precondition', s)
        n = 0
        args = [Ptr(g.id, 0)] + [Ptr(s.new_region(x, None, 'input').id, 0) for x in ('sequencer', 'strategy', 'cursor') if W] + [Ptr(src.id, 0)]
        if made:
            S = Ptr(s.new_region('sequencer', ctx.const('c_sizeof_sqr_' + made), 'input').id, 0)
            args = [S] + [Ptr(src.id, 0)] * nm.startswith('h_newn')
        for o in e.run_fn(s, ctx.fn(nm), args):
            st = o[1]
            if o[0] != 'ret':
                e.oblige(st, "no exception", False)
                continue
            n += 1
            if made:
                B = o[2]
                e.oblige(st, "a sequencer makes a barrier", isinstance(B, Ptr) and B.r is not None)
                for what, want in (('sqr', S), ('cursor', ctx.acc('a_sqr_cursor_' + made, S)), ('ws', ctx.acc('a_sqr_ws_' + made, S))):
                    for q in e.run_fn(st.copy(), ctx.fn(f'h_nb_{what}_{made}'), [B]):
                        e.oblige(st, "a barrier belongs to the sequencer that made it, with its cursor and its wait strategy", q[0] == 'ret' and isinstance(q[2], Ptr) and q[2].r == want.r and oz(q[2].o).eq(oz(want.o)))
                al = e.load(st, ctx.acc('a_nb_alerted_' + made, B), I8)
                e.oblige(st, "a new barrier is not alerted", z3.Extract(0, 0, al) == 0)
                b = e.load(st, ctx.acc('a_group_vec', ctx.acc('a_nb_dep_' + made, B)), PT)
                if nm.startswith('h_newn'):
                    e.oblige(st, "a barrier tracks all sequences it is given", z3.And(z3.BoolVal(isinstance(b, Ptr) and b.r == lst.id), st.g('n') == K))
                else:
                    x = st.ghost.get('one')
                    w = ctx.acc('a_sqr_cursor_' + made, S)
                    e.oblige(st, "a barrier without dependents tracks the publisher's cursor", isinstance(b, Ptr) and b.r == lst.id and isinstance(x, Ptr) and x.r == w.r and oz(x.o).eq(oz(w.o)))
                continue
            off = ctx.acc('a_group_vec', ctx.acc('a_bar_dep_' + W, Ptr(g.id, 0)) if W else Ptr(g.id, 0)).o
            b = st.mem[g.id].cells.get(off, (0, None))[1]
            e.oblige(st, "a barrier tracks all sequences it is given" if W else "a group made from a list tracks all of its sequences", z3.And(z3.BoolVal(isinstance(b, Ptr) and b.r == lst.id), st.g('n') == K))
        e.oblige(s, "a group can be made from a list", n >= 1)

    return run


UNITS = [Unit('group', unit_group), Unit('group_list', unit_tracks('h_group_create_n')), Unit('group_const_list', unit_tracks('h_group_create_c'))] + \
        [Unit('barrier_list_' + w, unit_tracks('h_bar_ctor_' + w)) for w in ('blocking', 'busy', 'phased')] + [Unit('wait_' + w, unit_wait(w)) for w in STRATS] + [Unit('signal_' + w, unit_signal(w)) for w in STRATS] + \
        [Unit('barrier_' + w, unit_barrier(w)) for w in ('blocking', 'busy', 'phased')] + \
        [Unit('new_' + n + x, unit_tracks('h_new' + n + x)) for n in ('0_', 'n_') for x in ('sp', 'mp')]

L = ['-lspdlog', '-lfmt', '-lpthread']
DRIVERS = [dict(src='d05.cpp', libs=L, secs=5), dict(src='d05.cpp', libs=L, san=TSAN, secs=4)]
ASSUMPTIONS = ['sequences stay below 2^62', 'the dependents and the cursor only ever advance (rely condition)', 'publishers signal the strategy after advancing the cursor (guarantee proved by C04)',
               'mutex and condition_variable follow their standard contracts; a wait may return at any time (spurious wake-ups included)',
               'termination is not proved: a waiter is shown never to sleep when its condition already holds or an alert is pending (no lost wake-up), not to make progress under every scheduler',
               'the wake-up argument of the lite strategy uses the single total modification order of its announcement flag (both sides use read-modify-write on it)']
BOUNDED = 'real threads on all strategies: 1 producer, up to 3 dependents, random pauses, alerts before/while waiting, timeouts, one-event-at-a-time wake-up stress'
EXPLANATION = 'wait and signal functions of all eight wait strategy instantiations, the barrier and the sequence group, for every number of dependents, every counter value below 2^62 and every interleaving at atomic accesses'
