#!/usr/bin/env python3
"""Build/confirm planted bugs.  usage: plant.py make SPEC.py | plant.py confirm ID... | plant.py check ID...
A SPEC file calls plant(id, prop, [(file, old, new)...], needs, breaks, demo_cpp, flags='', srcs=[], libs='...')."""
import os, sys, json, subprocess, shutil, textwrap
V = '/verif'
REPO = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


DEMO = '''#!/bin/bash
# exit 0 when the property holds on /repo's tree (cwd), nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
I=""
for i in $(find . -type d -name include -not -path './_build/*' -not -path './.git/*'); do I="$I -I$i"; done
g++ -std=c++17 -O1 -g -w -faligned-new -fno-strict-overflow -DHAS_EPOLL -pthread {flags} $I -I/usr/include/concurrentqueue/moodycamel -I"$d" "$d/demo.cpp" {srcs} -o "$t/demo" {libs} 2> "$t/log" || {{ tail -c 2000 "$t/log"; exit 3; }}
cd "$t" && {env} timeout 200 ./demo
'''


def plant(id, prop, edits, needs, breaks, demo, flags='', srcs=(), libs='-lspdlog -lfmt -lpthread', extra=None, env=''):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = f'{REPO}/{f}'
        t = open(p).read()
        assert t.count(old) >= 1, (id, f, old, t.count(old))
        if t.count(old) > 1:
            print('warning: several matches', id, f, t.count(old))
        open(p, 'w').write(t.replace(old, new, 1))
    open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    open(f'{d}/demo.cpp', 'w').write(textwrap.dedent(demo).lstrip())
    for n, t in (extra or {}).items():
        os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True)
        open(f'{d}/{n}', 'w').write(t)
    open(f'{d}/demo.sh', 'w').write(DEMO.format(flags=flags, srcs=' '.join(srcs), libs=libs, env=env))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    return id


def tests():
    r = sh('bash /opt/vp/test.sh /tmp/plant_o.json')
    if not os.path.exists('/tmp/plant_o.json'):
        return None
    o = json.load(open('/tmp/plant_o.json'))
    return set(o['passed'])


def confirm(id, check=True):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = f'{V}/seeded/{id}'
    m = json.load(open(f'{d}/meta.json'))
    out = {}
    r = sh(f'bash {d}/demo.sh', cwd=REPO, timeout=300)
    out['clean_demo'] = r.returncode
    if r.returncode:
        out['clean_out'] = (r.stdout + r.stderr)[-400:]
    a = sh(f'git -C /repo apply {d}/patch.diff')
    if a.returncode:
        out['apply'] = a.stderr[-300:]
    else:
        try:
            ps = tests()
            out['tests'] = 'missing ' + ','.join(sorted(base - ps)[:5]) if ps is not None and base - ps else ('ok' if ps else 'BUILD FAILS')
            r = sh(f'bash {d}/demo.sh', cwd=REPO, timeout=300)
            out['bug_demo'] = r.returncode
            out['bug_out'] = (r.stdout + r.stderr)[-200:].strip().replace('\n', ' | ')
            if check:
                r = sh(f"./check {m['property']}", cwd=V)
                out['check'] = r.returncode
                out['viol'] = [l for l in r.stdout.split('\n') if l.startswith(('FAILED', 'FAILING', 'VIOLATION', 'UNDECIDED'))][:2] + r.stdout.strip().split('\n')[-1:]
        finally:
            sh('git -C /repo checkout -- .')
    ok = out.get('clean_demo') == 0 and out.get('tests') == 'ok' and out.get('bug_demo')
    if check and 'viol' in out:
        cp = f'{V}/tools/caught.json'
        c = json.load(open(cp)) if os.path.exists(cp) else {}
        v = [x for x in out['viol'] if x.startswith('FAILED')]
        ob = v[0].split('"')[1] if v and '"' in v[0] else ''
        full = r.stdout
        dr = [l for l in full.split('\n') if l.startswith('FAILING INPUT')]
        c[id] = ((f'obligation "{ob}"' if ob else '') + (' and ' if ob and dr else '') + ('driver' if dr else '')) if out.get('check') == 1 else 'missed'
        json.dump(c, open(cp, 'w'), indent=1, sort_keys=True)
    print(('VALID  ' if ok else 'INVALID'), 'CAUGHT' if out.get('check') == 1 else 'missed', id, json.dumps(out)[:900])


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'make':
        g = dict(plant=plant)
        ids = []
        g['plant'] = lambda *a, **k: ids.append(plant(*a, **k))
        exec(open(sys.argv[2]).read(), g)
        print('\n'.join(ids))
        for i in ids:
            confirm(i)
        sh('bash /opt/vp/build.sh')
    elif cmd in ('confirm', 'check'):
        for i in (sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))):
            confirm(i)
        sh('bash /opt/vp/build.sh')
