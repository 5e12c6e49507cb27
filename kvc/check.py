"""Check driver: compiles the harness TU (which #includes the real /repo sources) to LLVM IR on every
run, runs the property's proof units, discharges the obligations, and turns failures into verdicts."""
import os, sys, time, json, subprocess, tempfile, shutil, hashlib, re, traceback, signal
import concurrent.futures as cf
import multiprocessing as mp
import z3
from . import llvm, lib, cands
from .engine import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KVC_REPO', '/repo')
INCS = [f"{REPO}/high_performance/modules/high_performance/include", f"{REPO}/core/modules/core/include",
        f"{REPO}/core/modules/mem_mdlw/include", f"{REPO}/core/modules/socket_mdlw/include",
        f"{REPO}/serialization/modules/serialization/include",
        f"{REPO}/serialization/modules/json_cereal/include", f"{REPO}/serialization/modules/binary_cereal/include",
        f"{REPO}/state_machine/modules/state_machine/include", f"{REPO}/state_machine/modules/state_machine_json_conf/include",
        "/usr/include/concurrentqueue/moodycamel", f"{VERIF}/harness"]
for d, _, fs in list(os.walk(REPO)):
    if os.path.basename(d) == 'include' and '_build' not in d and 'thirdpart' not in d and d not in INCS:
        INCS.append(d)


def incflags():
    return [x for d in INCS if os.path.isdir(d) for x in ('-I', d)]


class CompileError(Exception):
    pass


def compile_bc(src, out, extra=(), std='c++17'):
    cmd = ['clang++-18', f'-std={std}', '-O0', '-g', '-emit-llvm', '-c', '-fno-access-control', '-w', '-faligned-new',
           '-fno-strict-overflow', '-DHAS_EPOLL', '-DNDEBUG', '-DKVC', '-include', f'{VERIF}/harness/shim.h', '-I', f'{VERIF}/harness/stubs', *incflags(), "-idirafter", REPO, *extra, src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    return cmd


# ------------------------------------------------------------------ discharging
def to_smt(o):
    s = z3.Solver()
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def _ext(args):
    smt, backend, timeout = args
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        if backend == 'cvc5':
            f.write("(set-logic ALL)\n")
        f.write(smt)
        n = f.name
    try:
        if backend == 'cvc5':
            cmd = ['cvc5', f'--tlimit={timeout * 1000}', '--full-saturate-quant', n]
        else:
            cmd = [backend, f'-T:{timeout}', n]
        t = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 10)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return backend, out, time.time() - t
    except subprocess.TimeoutExpired:
        return backend, 'unknown', timeout
    finally:
        os.unlink(n)


def discharge(obls, timeout=10, ext_timeout=60, cross=False, pool=None):
    seen = {}
    hard = []
    for o in obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.result, o.backend, o.time = 'proved', 'simplifier', 0.0
            continue
        key = (tuple(f.get_id() if z3.is_expr(f) else f for f in o.pc), g.get_id())
        if key in seen:
            p = seen[key]
            o.result, o.backend, o.time, o.model = p.result, p.backend, 0.0, p.model
            continue
        seen[key] = o
        t = time.time()
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*o.pc)
        s.add(z3.Not(g))
        r = s.check()
        o.time = time.time() - t
        if r == z3.unsat:
            o.result, o.backend = 'proved', 'z3 ' + z3.get_version_string()
        elif r == z3.sat:
            o.result, o.backend, o.model = 'failed', 'z3 ' + z3.get_version_string(), s.model()
        else:
            o.result = 'unknown'
            hard.append(o)
    if hard:
        jobs = []
        with cf.ThreadPoolExecutor(6) as ex:
            for o in hard:
                smt = to_smt(o)
                fs = [ex.submit(_ext, (smt, b, ext_timeout)) for b in ('z3-new', 'cvc5', 'z3')]
                jobs.append((o, fs))
            for o, fs in jobs:
                for f in cf.as_completed(fs):
                    b, r, t = f.result()
                    o.time += t
                    if r == 'unsat':
                        o.result, o.backend = 'proved', b
                        break
                    if r == 'sat' and b != 'cvc5':
                        o.result, o.backend = 'failed', b
    if cross:
        # second back end on a sample of the obligations it can read
        tot = ok = 0
        todo = [o for o in seen.values() if o.result == 'proved']
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(_ext, (to_smt(o), 'cvc5', 20)) for o in todo]
            for f in fs:
                b, r, t = f.result()
                tot += 1
                ok += r == 'unsat'
                if r == 'sat':
                    pass
        return dict(cross_checked=tot, cross_agree=ok)
    return {}


class Unit:
    """one function (or lemma) under contract"""

    def __init__(self, name, run, src=None, desc='', flags=()):
        self.name = name
        self.run = run
        self.src = src
        self.desc = desc
        self.flags = flags


class Ctx:
    def __init__(self, mod, unit, tier):
        self.mod = mod
        self.eng = Engine(mod, unit)
        lib.install(self.eng)
        self.covers = []
        self.tier = tier
        self.info = {}

    def state(self):
        return State(self.eng)

    def fn(self, name):
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported(f"harness function {name} not found")
        return f

    def call(self, s, name, args):
        """run harness accessor concretely; single outcome expected"""
        outs = self.eng.run_fn(s, self.fn(name), args)
        r = [o for o in outs if o[0] == 'ret']
        if len(outs) != 1 or not r:
            raise Unsupported(f"accessor {name}: {len(outs)} outcomes")
        return r[0][1], r[0][2]

    def acc(self, name, p):
        """field address via accessor, evaluated on a throw-away state"""
        s = State(self.eng)
        s.mem = {p.r: Region(p.r, 'acc', None, 'input')}
        sup = self.eng.suppress
        self.eng.suppress += 1
        try:
            outs = self.eng.run_fn(s, self.fn(name), [p])
        finally:
            self.eng.suppress = sup
        return outs[0][2]

    def const(self, name):
        """integer constant exported by the harness as function returning it"""
        s = State(self.eng)
        outs = self.eng.run_fn(s, self.fn(name), [])
        return cval(outs[0][2])

    def cover(self, name, s, *extra):
        self.covers.append((name, list(s.pc) + list(extra)))


def run_unit(args):
    """executed in a worker process"""
    modpath, pmod, uname, tier, timeout = args
    import importlib
    t0 = time.time()
    out = dict(unit=uname, status='ok', obls=[], covers=[], error=None)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(20000)
        P = importlib.import_module(pmod)
        u = [x for x in P.UNITS if x.name == uname][0]
        mod = llvm.Module(modpath)
        ctx = Ctx(mod, uname, tier)
        ctx.eng.deadline = time.time() + timeout
        u.run(ctx)
        eng = ctx.eng
        x = discharge(eng.obls, timeout=8 if tier == 'quick' else 30, ext_timeout=40 if tier == 'quick' else 240,
                      cross=(tier == 'thorough'))
        out['cross'] = x
        for n, pc in ctx.covers:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*pc)
            r = s.check()
            out['covers'].append((n, str(r)))
        if not eng.obls:
            out['status'] = 'vacuous'
        ob = {}
        for o in eng.obls:
            m = None
            if o.result != 'proved':
                m = model_text(o)
            out['obls'].append(dict(name=o.name, kind=o.kind, where=o.where, result=o.result, backend=o.backend,
                                    time=round(o.time, 3), model=m, ints=model_ints(o) if o.model is not None and o.result != 'proved' else []))
        out['functions'] = sorted({(eng.mod.funcs[n].dem, "%s:%d" % eng.mod.funcs[n].where()) for n in eng.visited
                                   if n in eng.mod.funcs})
        out['trusted'] = dict(eng.trusted_used)
        out['assume'] = list(ctx.info.get('assume', []))
        out['stats'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in eng.stats.items()}
        out['loops'] = {k: {a: b for a, b in v.items() if a != 'names' or __import__('os').environ.get('DBGN')} for k, v in eng.loop_log.items()}
        if any(r == 'unsat' for _, r in out['covers']):
            out['status'] = 'vacuous'
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['error'] = str(e)[:600]
        if os.environ.get('KVC_DEBUG'):
            traceback.print_exc()
    except MemoryError:
        out['status'] = 'unsupported'
        out['error'] = 'memory limit'
    except Exception as e:
        out['status'] = 'unsupported'
        out['error'] = 'engine: ' + repr(e)[:300] + traceback.format_exc()[-1200:]
        if os.environ.get('KVC_DEBUG'):
            traceback.print_exc()
    out['wall'] = round(time.time() - t0, 2)
    return out


def model_text(o):
    if o.model is None:
        return o.result
    try:
        return "; ".join(f"{d.name()}={o.model[d]}" for d in sorted(o.model.decls(), key=lambda d: d.name()))[:3000]
    except Exception:
        return 'model'


def model_ints(o):
    r = set()
    try:
        for d in o.model.decls():
            v = o.model[d]
            if z3.is_bv_value(v):
                x = v.as_long()
                w = v.size()
                r.add(x - (1 << w) if x >> (w - 1) else x)
    except Exception:
        pass
    return sorted(r)[:60]


# ------------------------------------------------------------------ running a property
def _child(q, a):
    q.put(run_unit(a))


def run_all(jobs, hard):
    """run unit jobs in separate processes, at most 8 at once, each with a hard wall limit"""
    ctx = mp.get_context('fork')
    res = []
    pend = list(jobs)
    act = []
    while pend or act:
        while pend and len(act) < 8:
            a = pend.pop(0)
            q = ctx.SimpleQueue()
            r, w = os.pipe()
            p = ctx.Process(target=_child_file, args=(w, a))
            p.start()
            os.close(w)
            act.append((p, r, a, time.time(), []))
        import select
        fds = [x[1] for x in act]
        rd, _, _ = select.select(fds, [], [], 0.2)
        for x in list(act):
            p, r, a, t0, buf = x
            done = False
            if r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                else:
                    done = True
            if not done and time.time() - t0 > hard:
                subprocess.run(['pkill', '-KILL', '-P', str(p.pid)])
                p.kill()
                done = True
                buf.clear()
            if done:
                p.join()
                os.close(r)
                act.remove(x)
                try:
                    res.append(json.loads(b''.join(buf)))
                except Exception:
                    res.append(dict(unit=a[2], status='unsupported', error='worker died or timed out', obls=[], covers=[], wall=round(time.time() - t0, 1)))
                res[-1]['config'] = a[5] if len(a) > 5 else ''
    return res


def _child_file(w, a):
    out = run_unit(a[:5])
    b = json.dumps(out, default=str).encode()
    with os.fdopen(w, 'wb') as f:
        f.write(b)
    os._exit(0)


DRV_FLAGS = ['-std=c++17', '-O1', '-g', '-w', '-faligned-new', '-fno-strict-overflow', '-DHAS_EPOLL', '-pthread']


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,alignment', '-fno-sanitize-recover=undefined']
TSAN = ['-fsanitize=thread']


def drivers(P):
    """bounded drivers of a property: list of dict(src, flags, srcs, libs, san, secs)"""
    ds = [dict(d) for d in getattr(P, 'DRIVERS', [])]
    if not ds and getattr(P, 'DRIVER', None):
        ds = [dict(src=P.DRIVER, flags=getattr(P, 'DRIVER_FLAGS', []), srcs=getattr(P, 'DRIVER_SRCS', []),
                   libs=getattr(P, 'DRIVER_LIBS', ['-lpthread']), secs=getattr(P, 'DRIVER_SECS', 4), san=getattr(P, 'DRIVER_SAN', SAN))]
    for d in ds:
        for k, v in dict(flags=[], srcs=[], libs=['-lpthread'], secs=4, san=SAN).items():
            d.setdefault(k, v)
    return ds


def compile_driver(d, tmp, i):
    exe = os.path.join(tmp, f'driver{i}')
    cmd = ['g++', *DRV_FLAGS, *d['san'], *incflags(), '-I', f'{VERIF}/drivers', *d['flags'], f"{VERIF}/drivers/{d['src']}",
           *[f"{REPO}/{x}" for x in d['srcs']], '-o', exe, *d['libs']]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, ' '.join(cmd), r.stderr[-2000:]
    return exe, ' '.join(cmd), ''


def run_driver(exe, seconds, hints, seed, tmp, extra=()):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0',
               KVC_SECONDS=str(seconds), KVC_SEED=str(seed), KVC_HINTS=','.join(map(str, hints)), KVC_TMP=tmp, TSAN_OPTIONS='exitcode=99')
    lim = seconds * 3 + 90
    try:
        r = subprocess.run([exe, *extra], capture_output=True, text=True, errors='replace', env=env, timeout=lim, cwd=tmp)
        return r.returncode, r.stdout[-6000:], r.stderr[-3000:]
    except subprocess.TimeoutExpired as e:
        so = e.stdout or b''
        so = so.decode(errors='replace') if isinstance(so, bytes) else so
        return 'timeout', so[-6000:], ''


def known_findings():
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main(pid):
    import importlib
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = importlib.import_module('props.' + pid.lower())
    tmp = tempfile.mkdtemp(prefix=f'kvc_{pid}_')
    code = 0
    try:
        code = _main(pid, P, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def _main(pid, P, tier, seed, tmp, t0):
    configs = P.CONFIGS if hasattr(P, 'CONFIGS') else [('default', ())]
    if tier == 'quick':
        configs = configs[:getattr(P, 'QUICK_CONFIGS', 2)]
    jobs = []
    notes = []
    budget = 240 if tier == 'quick' else 600
    bcs = []
    # the replay driver is compiled in parallel with the proofs
    drv = None
    ex = cf.ThreadPoolExecutor(10)
    dr = drivers(P)
    dfuts = [ex.submit(compile_driver, d, tmp, i) for i, d in enumerate(dr)]
    comp_err = None
    for cn, flags in configs:
        hs = P.HARNESSES if hasattr(P, 'HARNESSES') else {P.HARNESS: None}
        for h, unames in hs.items():
            bc = os.path.join(tmp, f"{h}.{cn}.bc")
            bcs.append((cn, h, unames, bc, ex.submit(_compile, f"{VERIF}/harness/{h}", bc, tuple(flags) + tuple(getattr(P, 'CFLAGS', ())))))
    results = []
    seenu = set()
    for cn, h, unames, bc, fut in bcs:
        err = fut.result()
        for u in P.UNITS:
            if (u.src or getattr(P, 'HARNESS', None)) != h and hasattr(P, 'HARNESSES'):
                continue
            if getattr(u, 'once', False) and cn != configs[0][0]:
                continue
            if getattr(u, 'thorough', False) and tier == 'quick':
                continue
            if err:
                results.append(dict(unit=u.name, config=cn, status='unsupported', error='harness does not compile: ' + err[:400], obls=[], covers=[], wall=0))
            else:
                jobs.append((bc, 'props.' + pid.lower(), u.name, tier, budget - 20, cn))
    results += run_all(jobs, budget + (60 if tier == 'quick' else 1200))
    results.sort(key=lambda r: (r['unit'], r.get('config', '')))
    # ---- collect
    kf = [k for k in known_findings() if k['property'] == pid]
    failed, unknown, unsup, kfhit = [], [], [], []
    for r in results:
        if r['status'] != 'ok':
            unsup.append((f"{r['unit']}[{r['config']}]", r['status'], r.get('error')))
        for o in r['obls']:
            if o['result'] == 'proved':
                continue
            hit = [k for k in kf if 'obligation' in k and k.get('unit', r['unit']) == r['unit'] and re.search(k['obligation'], o['name'])]
            if hit:
                kfhit.append(hit[0])
                continue
            (failed if o['result'] == 'failed' else unknown).append((r, o))
    hints = sorted({i for r, o in failed for i in o['ints']})[:200]
    # ---- bounded stand-in / counterexample replay on the real code
    def drive(i):
        d = dr[i]
        exe, cmd, err = dfuts[i].result()
        if exe is None:
            return dict(driver=d['src'], status='driver does not compile', detail=err[-500:], out='', err='', cmd=cmd)
        secs = (d['secs'] if not (failed or unknown or unsup) else 25) if tier == 'quick' else 120
        t = os.path.join(tmp, f'd{i}')
        os.makedirs(t, exist_ok=True)
        rc, so, se = run_driver(exe, secs, hints, seed, t)
        return dict(driver=d['src'] + (' (tsan)' if d['san'] == TSAN else ''), status=rc, out=so, err=se, cmd=cmd, secs=secs)

    drvs = list(ex.map(drive, range(len(dr))))
    dfail = False
    drvres = None
    desc = ''
    for x in drvs:
        if x['status'] == 'driver does not compile':
            notes.append(f"{x['driver']}: {x['status']}: {x['detail'][-200:]}")
            print(f"{pid}: {notes[-1]}")
            continue
        if x['status'] == 0:
            continue
        fl = [l for l in x['out'].split('\n') if l.startswith('FAIL')]
        san = 'WARNING: ThreadSanitizer' in x['err'] or 'ERROR: AddressSanitizer' in x['err'] or 'runtime error:' in x['err']
        de = fl[0] if fl else ([l for l in x['err'].split('\n') if 'Sanitizer' in l or 'runtime error:' in l] or ['driver ended with ' + str(x['status'])])[0]
        hit = [k for k in kf if 'driver' in k and re.search(k['driver'], de)]
        if hit:
            kfhit.append(hit[0])
            continue
        if not fl and not san and (x['status'] in ('timeout', 9, -9, -15, 66)):
            notes.append(f"bounded stand-in gave no verdict ({x['status']})")
            continue
        if not dfail:
            dfail, drvres, desc = True, x, de
    viol = 0
    lines = []
    nob = sum(len(r['obls']) for r in results)
    npr = sum(1 for r in results for o in r['obls'] if o['result'] == 'proved')
    print(f"{pid}: {len(results)} units, {nob} obligations, {npr} discharged, {len(failed)} failed, {len(unknown)} undecided, {len(unsup)} units outside the verifier's reach")
    for n, st, e in unsup:
        print(f"UNDECIDED unit={n} {st}: {str(e)[:300]}")
    for r, o in unknown[:10]:
        print(f"UNDECIDED obligation unit={r['unit']}[{r['config']}] \"{o['name']}\" at {o['where']}")
    for r, o in failed[:20]:
        print(f"FAILED obligation unit={r['unit']}[{r['config']}] \"{o['name']}\" at {o['where']}")
    for k in {json.dumps(k, sort_keys=True) for k in kfhit}:
        print(f"KNOWN-FINDING: property={pid} {json.loads(k)['what']}")
    if failed or dfail:
        viol = 1
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        body = dict(property=pid, failed_obligations=[dict(unit=r['unit'], config=r['config'], **o) for r, o in failed[:40]],
                    driver=drvres, seed=seed, tier=tier,
                    how_to_replay=f"cd /verif && ./check {pid}   (driver: see driver.cmd, then run with KVC_SEED={seed} KVC_HINTS={','.join(map(str, hints))})")
        path = f"{VERIF}/replays/{pid}.json"
        json.dump(body, open(path, 'w'), indent=1, default=str)
        if dfail:
            print("FAILING INPUT on the real code: " + desc[:600])
            if drvres['status'] == 99 or 'ERROR: AddressSanitizer' in drvres['err'] or 'runtime error' in drvres['err']:
                print("  " + '\n  '.join(drvres['err'].split('\n')[:6]))
            print(f"VIOLATION property={pid} replay={path}")
        else:
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    # ---- evidence
    backends = {}
    for r in results:
        for o in r['obls']:
            if o['result'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    fns = sorted({tuple(f) for r in results for f in r.get('functions', [])})
    repof = [f"{d} ({w})" for d, w in fns if REPO in w]
    trusted = {}
    for r in results:
        for k, v in r.get('trusted', {}).items():
            trusted[k] = trusted.get(k, 0) + v
    assum = list(getattr(P, 'ASSUMPTIONS', [])) + sorted({a for r in results for a in r.get('assume', [])})
    assum += [f"assumed contract (not verified): {k}" for k in sorted(trusted)]
    if unsup:
        assum += [f"NOT PROVED in this run: unit {n}: {e}" for n, st, e in unsup]
    covers = [(r['unit'], r['config'], c) for r in results for c in r['covers']]
    stats = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = round(stats.get(k, 0) + v, 2)
    full = nob > 0 and npr == nob and not unsup
    ev = dict(property=pid, tier=tier, seed=seed,
              level=getattr(P, 'LEVEL', 'proof') if nob else 'other',
              coverage=dict(obligations=nob, discharged=npr, checker_cmd=f"./check {pid} (kvc: clang-18 -O0 IR of /repo's current tree -> VCs -> z3/cvc5)",
                            trusted_base=['clang 18 front end (source -> IR)', 'kvc VC generator (/verif/kvc)', 'z3 ' + z3.get_version_string(), 'z3-new / cvc5 binaries as fallback back ends'] + list(getattr(P, 'TRUSTED', [])),
                            discharged_by=backends, solver_seconds=round(sum(o['time'] for r in results for o in r['obls']), 2),
                            units=[dict(unit=r['unit'], config=r['config'], status=r['status'], obligations=len(r['obls']), discharged=sum(o['result'] == 'proved' for o in r['obls']), wall_s=r['wall'], loops=r.get('loops', {}), cross=r.get('cross', {})) for r in results],
                            units_of_the_thorough_tier_only=[u.name for u in P.UNITS if getattr(u, 'thorough', False)] if tier == 'quick' else [],
                            functions_under_contract=repof, library_functions_executed_from_ir=len(fns) - len(repof),
                            vacuity_checks=dict(total=len(covers), satisfiable=sum(c[2][1] == 'sat' for c in covers), undecided=sum(c[2][1] == 'unknown' for c in covers)),
                            engine=stats, configurations=[c[0] for c in configs],
                            bounded_stand_in=[dict(driver=x['driver'], label='bounded, not counted as proved', status=str(x['status']), seconds=x.get('secs'), summary=[l for l in x.get('out', '').split('\n') if l.startswith('STAT')][-5:], covers=getattr(P, 'BOUNDED', '')) for x in drvs],
                            explanation=getattr(P, 'EXPLANATION', '') or 'all obligations discharged' if full else 'not all obligations discharged in this run; see units',
                            notes=notes, samples=[f"{r['unit']}: {o['name']}" for r in results for o in r['obls'][:2]][:12]),
              assumptions=assum, wall_s=round(time.time() - t0, 1), violations=viol)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", 'w'), indent=1, default=str)
    return 1 if viol else 0


def _compile(src, bc, flags):
    try:
        compile_bc(src, bc, flags)
        return None
    except CompileError as e:
        return str(e)
