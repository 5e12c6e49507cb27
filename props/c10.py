"""C10: state machines from their configuration"""
from .fsmmodel import *

HARNESS = 'c10_factory.cpp'


class Factory(Fsm):
    """any configuration: lists of states and transitions, and what they are folded into"""

    def __init__(self, ctx):
        Fsm.__init__(self, ctx)
        s, e, S = self.s, self.e, self.S
        o = self.off
        self.CD, self.CE, self.CI, self.CL = arr('CDEST'), arr('CEVENT'), arr('CID'), arr('CTRANS')
        self.elCT = S.elem_type('CT', r'kpsr::fsm::ConfigTransition', ctx.const('c_sizeof_ctrans'), {o('a_ctdest'): ['int', 8, self.CD], o('a_ctev'): ['int', 8, self.CE]})
        self.elCS = S.elem_type('CS', r'kpsr::fsm::ConfigState(?!Machine)', ctx.const('c_sizeof_cstate'), {o('a_csid'): ['int', 8, self.CI], o('a_cstr'): [S.list_kind(self.elCT), 8, self.CL]})
        f = lambda n: z3.Function(n, BV64, BV64, BV64)
        self.foldT, self.foldS, self.foldI = f('foldT'), f('foldS'), f('foldI')
        lim = lambda *x: [z3.ULT(y, bv(1 << 30)) for y in x]

        self.seen = {}

        def hT(st, l, j):
            self.seen[('T', str(l))] = l
            x = l * bv(B) + j
            st.assume(self.foldT(l, bv(0)) == EMPTY, self.foldT(l, j + bv(1)) == self.elT.append(self.foldT(l, j), [z3.Select(self.CD, x), z3.Select(self.CE, x)]))

        def hS(st, l, j):
            self.seen[('S', str(l))] = l
            x = l * bv(B) + j
            t = z3.Select(self.CL, x)
            st.assume(*lim(t))
            n = S.vlen(st, self.elCT, t)
            st.assume(self.foldT(t, bv(0)) == EMPTY, self.foldS(l, bv(0)) == EMPTY, self.foldI(l, bv(0)) == EMPTY)
            st.assume(self.foldS(l, j + bv(1)) == self.elS.append(self.foldS(l, j), [z3.Select(self.CI, x), self.foldT(t, n)]))
            st.assume(self.foldI(l, j + bv(1)) == z3.If(self.foldI(l, j) == EMPTY, z3.Select(self.CI, x), self.foldI(l, j)))

        self.elCT.hook, self.elCS.hook = hT, hS

        def cands(entry, hs, its, vs):
            out = []
            steps = [(n, lj, el) for n, lj, el in its if el in (self.elCT, self.elCS)]
            for n, lj, el in its:
                if el is None:
                    for (w, _), l in list(self.seen.items()):
                        steps.append((n, lambda st, l=l, lj=lj: (l, lj(st)[1]), self.elCT if w == 'T' else self.elCS))
                        out.append(Cand(f'{n} within a list', lambda st, l=l, lj=lj, el=steps[-1][2]: z3.ULE(lj(st)[1], el.len(l))))
            for n, lj, el in steps:
                for vn, g, w in vs:
                    v = g(hs)
                    if w == 'ptr' and isinstance(v, Ptr) and S.by_rid(v.r) in (self.elT, self.elS):
                        tl = S.by_rid(v.r)
                        fold = self.foldT if tl is self.elT else self.foldS
                        out.append(Cand(f'{vn} holds what {n} has passed', lambda st, g=g, tl=tl, fold=fold, lj=lj: S.quot(g(st).o, B * tl.stride) == fold(*lj(st))))
                    elif w == 64 and not vn.startswith('ghost'):
                        out.append(Cand(f'{vn} is the initial state of what {n} has passed', lambda st, g=g, lj=lj: g(st) == self.foldI(*lj(st))))
                        out.append(Cand(f'{vn} is a string', lambda st, g=g: z3.ULT(g(st), bv(LIM))))
            return out

        self.extra.append(cands)

    def config(self, name, st=None):
        st = st or self.s
        S = self.S
        r = st.new_region(name, self.ctx.const('c_sizeof_csm'))
        P = Ptr(r.id, 0)
        i, l = S.fresh_id(st), fbv('CSTATES', 64)
        st.assume(z3.ULT(l, bv(1 << 30)))
        self.fill(st, P, i, l)
        return P, i, l

    def fill(self, st, P, i, l):
        self.S.sset(st, P.add(self.off('a_cmid')), i)
        self.S.vset(st, P.add(self.off('a_cmst')), self.elCS, l)
        n = self.S.vlen(st, self.elCS, l)
        st.assume(self.foldS(l, bv(0)) == EMPTY, self.foldI(l, bv(0)) == EMPTY)
        return n


def spy_machine(M):
    made = []

    def ctor(eng, st, I, a, fn):
        made.append(1)
        st.ghost['made'] = (a[0], M.S.sget(st, a[1]), M.S.vget(st, a[2], M.elS), M.S.sget(st, a[3]))
        st.ghost['nmade'] = st.ghost.get('nmade', 0) + 1
        M.e.store(st, a[0], Ptr('@' + NSP + '16StateMachineImplE', 16), PT)
        return [(st, 'val', None)]

    M.e.contract(r'kpsr::fsm::StateMachineImpl::StateMachineImpl\(', ctor)


def same(p, q):
    return z3.BoolVal(isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r) if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r) else oz(p.o) == oz(q.o)


def check_made(M, st, R, i, l):
    e = M.e
    n = M.S.vlen(st, M.elCS, l)
    m = st.ghost.get('made')
    e.oblige(st, "one machine is made", z3.BoolVal(m is not None and st.ghost.get('nmade') == 1))
    if m is None:
        return
    e.oblige(st, "the machine made is the one returned", same(e.load(st, R, PT), m[0]))
    e.oblige(st, "the machine has the configured id", m[1] == i)
    e.oblige(st, "the machine has exactly the configured states and transitions, in order", m[2] == M.foldS(l, n))
    e.oblige(st, "the machine starts in the first configured state", m[3] == M.foldI(l, n))


def unit_make(ctx):
    M = Factory(ctx)
    e, s, S = M.e, M.s, M.S
    spy_machine(M)
    P, i, l = M.config('config')
    R = Ptr(s.new_region('result', 16, 'undef').id, 0)
    ctx.cover('states are configured', s)
    for st, r in rets(M, 'h_make', [P, R]):
        check_made(M, st, R, i, l)


def unit_serialize(ctx):
    M = Factory(ctx)
    e = M.e
    names = []

    def field(eng, st, I, a, fn):
        b = const_bytes(e, st, a[0])
        st.ghost['fields'] = st.ghost.get('fields', ()) + ((bytes(b).decode() if b is not None else None, a[1]),)
        return [(st, 'val', None)]

    e.contract(r'^kv_field$', field)
    for fn, size, want in (('h_sertr', 'c_sizeof_ctrans', (('destination', 'a_ctdest'), ('event', 'a_ctev'))), ('h_serst', 'c_sizeof_cstate', (('id', 'a_csid'), ('transitions', 'a_cstr'))),
                           ('h_sersm', 'c_sizeof_csm', (('id', 'a_cmid'), ('states', 'a_cmst')))):
        s = M.s.copy()
        A = Ptr(s.new_region('archive', 8).id, 0)
        O = Ptr(s.new_region('object', ctx.const(size)).id, 0)
        for k, st, r in e.run_fn(s, ctx.fn(fn), [A, O]):
            got = dict(st.ghost.get('fields', ()))
            e.oblige(st, "a configuration has exactly its fields", z3.BoolVal(k == 'ret' and sorted(map(str, got)) == sorted(n for n, _ in want)))
            for n, acc in want:
                e.oblige(st, f"the field '{n}' of a file is read into its place", same(got.get(n), O.add(M.off(acc))))


def unit_load(ctx):
    M = Factory(ctx)
    e, s, S = M.e, M.s, M.S
    F, path = M.str('path')
    cell = {}

    def ifs(eng, st, I, a, fn):
        st.ghost['stream'] = (a[0], S.sarg(st, a[1], 'std::basic_string' if 'basic_string' in fn.dem.split('(')[1] else 'char const*'))
        return [(st, 'val', None)]

    def jar(eng, st, I, a, fn):
        st.ghost['archive'] = (a[0], a[1])
        return [(st, 'val', None)]

    def read(eng, st, I, a, fn):
        t, ar = st.ghost.get('stream'), st.ghost.get('archive')
        ok = t is not None and ar is not None and isinstance(ar[1], Ptr) and ar[1].r == t[0].r and a[0].r == ar[0].r
        e.oblige(st, "the configuration is read from the given file", z3.And(z3.BoolVal(ok), t[1] == path) if ok else F_)
        e.oblige(st, "the configuration is read once", z3.BoolVal('read' not in st.ghost))
        i, l = S.fresh_id(st), fbv('FILE', 64)
        st.assume(z3.ULT(l, bv(1 << 30)))
        M.fill(st, a[1], i, l)
        st.ghost['read'] = (i, l)
        bad = st.copy()  # a file that cannot be read
        return [(st, 'val', a[0]), (bad, 'throw', e.throw_new(bad, '_ZTISt13runtime_error'))]

    none = lambda eng, st, I, a, fn: [(st, 'val', None)]
    e.contract(r'^std::basic_ifstream<.*>::basic_ifstream\(', ifs)
    e.contract(r'^std::basic_ifstream<.*>::~basic_ifstream\(', none)
    e.contract(r'^cereal::JSONInputArchive::JSONInputArchive\(', jar)
    e.contract(r'^cereal::JSONInputArchive::~JSONInputArchive\(', none)
    e.contract(r'cereal::InputArchive<cereal::JSONInputArchive, .*>::operator\(\)', read)
    R = Ptr(s.new_region('result', ctx.const('c_sizeof_csm'), 'undef').id, 0)
    Lo = Ptr(s.new_region('loader', 8).id, 0)
    e.store(s, Lo, Ptr('@_ZTVN4kpsr3fsm16JsonConfigLoaderE', 16), PT)
    n = 0
    for k, st, r in e.run_fn(s.copy(), ctx.fn('h_load'), [Lo, R, F]):
        if k == 'ret':
            n += 1
            i, l = st.ghost['read']
            e.oblige(st, "the configuration returned is the one read", z3.And(S.sget(st, R.add(M.off('a_cmid'))) == i, S.vget(st, R.add(M.off('a_cmst')), M.elCS) == l))
    e.oblige(s, "a readable file is loaded", n > 0)
    # the machine and the listener of a file
    spy_machine(M)
    n = 0
    R = Ptr(s.new_region('machine', 16, 'undef').id, 0)
    for k, st, r in e.run_fn(s.copy(), ctx.fn('h_jmake'), [F, R]):
        if k == 'ret':
            n += 1
            check_made(M, st, R, *st.ghost['read'])
    e.oblige(s, "a readable file makes a machine", n > 0)

    def lctor(eng, st, I, a, fn):
        st.ghost['lst'] = (a[0], S.sget(st, a[1]))
        return [(st, 'val', None)]

    e.contract(r'kpsr::fsm::StateMachineListener::StateMachineListener\(', lctor)
    n = 0
    for k, st, r in e.run_fn(s.copy(), ctx.fn('h_jlst'), [F, R]):
        if k == 'ret':
            n += 1
            m = st.ghost.get('lst')
            e.oblige(st, "the listener of a file is for the machine of the file", z3.And(same(e.load(st, R, PT), m[0]), m[1] == st.ghost['read'][0]) if m else F_)
    e.oblige(s, "a readable file makes a listener", n > 0)


UNITS = [Unit('createStateMachine', unit_make), Unit('the fields of a configuration file', unit_serialize), Unit('loadConfig and FromJson', unit_load)]
SRCS = ['state_machine/modules/state_machine/src/%s.cpp' % x for x in ('state_machine_impl', 'state_impl', 'transition_impl', 'state_machine_listener', 'sm_factory_impl')] + ['state_machine/modules/json_conf/src/%s.cpp' % x for x in ('json_config_loader', 'kpsr_state_machine')]
DRIVERS = [dict(src='d10.cpp', secs=4, srcs=SRCS, flags=['-fno-access-control'])]
ASSUMPTIONS = ['std::string, vector, function and shared_ptr by contract over abstract values (kvc/stl.py)', 'allocation never fails', "the machine's constructor by its contract (proved under C08)",
               "cereal's JSON archive reads a field into the place given for its name, or throws (exercised by the bounded driver)"]
BOUNDED = 'random configurations of up to 5 states and 4 transitions each, odd names included, made directly and written to and read from files'
EXPLANATION = 'SMFactoryImpl::createStateMachine for every configuration; field names of configuration files; JsonConfigLoader and FromJson over the contract of the archive'
