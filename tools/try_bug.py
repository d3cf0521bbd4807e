"""Development aid (no check uses it): try patches in scratch copies of /repo and /verif.

try_bug.py [--jobs N] [--tests] [--demo] [--checks C01,C02|all|own] DIR...
DIR holds patch.diff (and demo.sh, meta.json for --demo / own).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def sh(cmd, cwd, env=None, timeout=1200):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT'


def copies(root, patch):
    repo, ver = root + '/repo', root + '/verif'
    sh('git clone -q /repo {}'.format(repo), '/')
    os.makedirs(ver)
    sh('cp -r {0}/mc {0}/check {1}/'.format(V, ver), '/')
    for dp, _, fs in os.walk(ver):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                s = open(p).read()
                open(p, 'w').write(s.replace("'/repo", "'" + repo))
    if patch:
        rc, o = sh('git apply {}'.format(patch), repo)
        if rc:
            return 'DOES NOT APPLY ' + o
    return None


def tests(repo):
    tmp = tempfile.mkdtemp()
    env = dict(ENV, PATH='/opt/venv/bin:' + ENV['PATH'], VP_SEED='1',
               PYTHONPATH='/opt/vp/plugins', HYPOTHESIS_STORAGE_DIRECTORY=tmp + '/h')
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -p vp_seed '
       '--hypothesis-seed=1 --continue-on-collection-errors -o junit_family=xunit2 '
       '--junitxml={}/j.xml'.format(tmp), repo, env)
    sh('/usr/bin/python3 /opt/vp/results.py {0}/o.json junit:{0}/j.xml'.format(tmp), repo)
    o = json.load(open(tmp + '/o.json'))
    passed = set(o.get('passed', []))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    shutil.rmtree(tmp)
    return [t for t in stable if t not in passed]


def one(d, opt):
    root = tempfile.mkdtemp(prefix='km-bug-')
    out = [os.path.basename(d.rstrip('/'))]
    try:
        patch = os.path.join(os.path.abspath(d), 'patch.diff')
        bad = copies(root, patch if os.path.exists(patch) else None)
        if bad:
            return out[0] + ' ' + bad
        meta = {}
        if os.path.exists(d + '/meta.json'):
            meta = json.load(open(d + '/meta.json'))
        if opt['demo']:
            shutil.copytree(d, root + '/demo')
            rc1, o1 = sh('bash {}/demo/demo.sh'.format(root), root + '/repo')
            sh('git checkout -q -- .', root + '/repo')
            rc0, o0 = sh('bash {}/demo/demo.sh'.format(root), root + '/repo')
            sh('git apply {}'.format(patch), root + '/repo')
            out.append('demo ok' if rc0 == 0 and rc1 not in (0, 124) else
                       'DEMO BAD clean={} patched={} {} {}'.format(rc0, rc1, o0[-300:],
                                                                    o1[-300:]))
        if opt['tests']:
            f = tests(root + '/repo')
            out.append('tests ok' if not f else 'TESTS FAIL {}'.format(f[:3]))
        ch = opt['checks']
        if ch == 'own':
            ch = [meta['property']]
        for c in ch or ():
            rc, o = sh('./check {}'.format(c), root + '/verif',
                       dict(ENV, VERIF_JOBS=str(opt['cjobs'])))
            if rc == 1 and re.search('VIOLATION property=' + c, o):
                why = [l for l in o.splitlines() if l.startswith('---')][:1]
                out.append('{} caught {}'.format(c, why[0][:160] if why else ''))
            elif rc:
                out.append('{} ERROR rc={} {}'.format(c, rc, o[-400:]))
            else:
                out.append('{} quiet'.format(c))
        return ' | '.join(out)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = dict(tests=False, demo=False, checks=None, jobs=8, cjobs=1)
    while a and a[0].startswith('--'):
        k = a.pop(0)[2:]
        if k in ('tests', 'demo'):
            opt[k] = True
        elif k == 'checks':
            v = a.pop(0)
            opt[k] = v if v == 'own' else ['C%02d' % i for i in range(1, 31)] \
                if v == 'all' else v.split(',')
        else:
            opt[k] = int(a.pop(0))
    with ThreadPoolExecutor(opt['jobs']) as ex:
        for r in ex.map(lambda d: one(d, opt), a):
            print(r, flush=True)


main()
