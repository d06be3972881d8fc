#!/usr/bin/env python3
"""Bug laboratory: turn specs of planted bugs into /verif/seeded/<id>/ after
checking them in scratch copies of /repo, and run the checks against them.

  lab.py add SPEC.py            build, validate and keep every bug of a spec file
  lab.py run [-a] [-t] [ID..]   run the property's check (-a: all checks) on each
                                kept bug; results are kept in /tmp/lab/results.json
A spec file defines BUGS = [dict(id=, prop=, edits=[(file, old, new)..],
needs=, breaks=, demo=python source)].
"""
import json, os, re, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
LAB = '/tmp/lab'
SEED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


def copy(bid):
    d = f'{LAB}/{bid}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    sh(['git', 'checkout', '-q', '--', '.'], d)
    return d


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def run_tests(d):
    env = dict(PYTHONPATH=f'{d}/src', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', HOME='/root')
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                  '--continue-on-collection-errors', '-rfE'], d, env)
    return rc, out


def failing(out):
    return set(re.findall(r'^(?:FAILED|ERROR) (\S+)', out, re.M))


def demo(d, folder):
    env = dict(PYTHONPATH=f'{d}/src')
    return sh(['bash', f'{folder}/demo.sh'], d, env, 300)


DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def add(bug, base_fail):
    bid = bug['id']
    d = copy(bid)
    try:
        for f, old, new in bug['edits']:
            p = f'{d}/src/razorback/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{bid}: REJECT text found {s.count(old)} times in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff'], d)
        # removed lines must be of the base
        cur, bad, removed = None, [], 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = set(sh(['git', 'show', f'{BASE}:{l[6:]}'], d)[1].splitlines())
            elif l.startswith('-') and not l.startswith('---'):
                removed += 1
                if l[1:].strip() and l[1:] not in cur:
                    bad.append(l)
        if bad or not removed:
            return f'{bid}: REJECT changes non original lines {bad} (removed {removed})'
        folder = f'{LAB}/out/{bid}'
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(f'{folder}/patch.diff', 'w').write(diff)
        open(f'{folder}/demo.sh', 'w').write(DEMO_SH)
        open(f'{folder}/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(f'{folder}/meta.json', 'w'), indent=1)
        os.chmod(f'{folder}/demo.sh', 0o755)
        rc, out = run_tests(d)
        new_fail = failing(out) - base_fail
        if new_fail or 'passed' not in out:
            return f'{bid}: REJECT tests fail {new_fail} {out[-300:]}'
        rc0, o0 = demo('/repo', folder)
        if rc0:
            return f'{bid}: REJECT demo fails on the unchanged tree\n{o0[-1500:]}'
        rc1, o1 = demo(d, folder)
        if not rc1:
            return f'{bid}: REJECT demo passes with the patch\n{o1[-500:]}'
        shutil.rmtree(f'{SEED}/{bid}', ignore_errors=True)
        shutil.copytree(folder, f'{SEED}/{bid}')
        return f'{bid}: ok  demo with patch: {o1.strip().splitlines()[-1][:120] if o1.strip() else ""}'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def patched(bid):
    d = copy('run-' + bid)
    rc, out = sh(['git', 'apply', f'{SEED}/{bid}/patch.diff'], d)
    assert rc == 0, out
    return d


def run(bid, checks=None, tier='quick', jobs=8, seed='1'):
    meta = json.load(open(f'{SEED}/{bid}/meta.json'))
    d = patched(bid)
    res = {}
    try:
        for c in checks or [meta['property']]:
            env = dict(RZMON_REPO=d, VERIF_SEED=seed, VERIF_TIER=tier)
            try:
                rc, out = sh(['python3', 'run.py', c, '--tier', tier, '--jobs', str(jobs)], '/verif', env, 900)
            except subprocess.TimeoutExpired:
                rc, out = 99, 'timeout'
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            res[c] = (rc, v[:1], '' if v else out[-400:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return meta['property'], res


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'add':
        rc, out = run_tests('/repo')
        base_fail = failing(out)
        print('base failing:', len(base_fail), out.strip().splitlines()[-1])
        bugs = [b for a in args for b in runpy.run_path(a)['BUGS']]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(lambda b: add(b, base_fail), bugs):
                print(r, flush=True)
    elif cmd == 'run':
        alls = '-a' in args
        tier = 'thorough' if '-t' in args else 'quick'
        ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(SEED))
        rp = f'{LAB}/results.json'
        for b in ids:
            checks = ['C%02d' % i for i in range(1, 38)] if alls else None
            prop, res = run(b, checks, tier)
            allres = json.load(open(rp)) if os.path.exists(rp) else {}
            allres.setdefault(b, {}).update({c: r[0] for c, r in res.items()})
            json.dump(allres, open(rp, 'w'), indent=1)
            print(b, prop, 'CAUGHT' if res.get(prop, (0,))[0] == 1 else 'MISSED',
                  {c: r[0] for c, r in res.items() if r[0]},
                  (res[prop][1] or res[prop][2]) if prop in res else '', flush=True)


main()
