"""Developer tool: validate planted bugs in scratch copies.  usage: seedcheck.py [-n] [id ...]   (-n: skip test-suite)"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, 'seeded')
args = sys.argv[1:]; notest = '-n' in args; args = [a for a in args if a != '-n']
ids = args or sorted(os.listdir(S))
ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell',
           PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp/plugin')
PY = '/opt/venv/bin/python'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def one(i):
    w = f'/tmp/seedw_{i}'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w]); m = json.load(open(f'{S}/{i}/meta.json')); out = [i, m['property']]
    try:
        d0 = sh(f'bash {S}/{i}/demo.sh', cwd=w, env=ENV)
        a = sh(f'git apply {S}/{i}/patch.diff', cwd=w)
        d1 = sh(f'bash {S}/{i}/demo.sh', cwd=w, env=ENV)
        out.append(f'apply={a.returncode} demo clean={d0.returncode} bug={d1.returncode}')
        if d0.returncode or not d1.returncode: out.append((d0.stdout + d1.stdout)[-600:])
        if not notest:
            C = '-q -p no:cacheprovider --timeout=300 -n 4 -o junit_family=xunit2'
            t1 = sh(f'{PY} -m pytest {C} --hypothesis-profile=ci', cwd=w, env=ENV)
            t2 = sh(f"{PY} -m pytest {C} -p gftool_doctest --doctest-modules --doctest-glob='docs/source/*.rst' -o 'doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1' -W ignore --ignore=gftool/tests --ignore=docs/source/conf.py --ignore=docs/source/dos_gallary.py gftool docs/source", cwd=w, env=ENV)
            out += ['tests: ' + t1.stdout.strip().splitlines()[-1], 'doc: ' + t2.stdout.strip().splitlines()[-1]]
            if t1.returncode or t2.returncode:
                out += [l for l in (t1.stdout + t2.stdout).splitlines() if l.startswith('FAILED')][:6]
        # evidence must not be overwritten by these runs
        ev = f'/tmp/seedv_{i}'; shutil.rmtree(ev, ignore_errors=True)
        shutil.copytree(V, ev, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence')); os.makedirs(ev + '/evidence')
        props = [m['property']] if not os.environ.get('ALLPROPS') else [f'C{k:02d}' for k in range(1, 28)]
        for p in props:
            r = sh(f'bash {ev}/check.sh {p} quick', env=dict(os.environ, GFMON_REPO=w, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOL')]
            if p == m['property'] or r.returncode: out.append(f'check {p} rc={r.returncode} nviol={len(v)} {"CAUGHT" if r.returncode == 1 and v else "MISSED"}')
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(f'/tmp/seedv_{i}', ignore_errors=True)
    return out
with ThreadPoolExecutor(3) as ex:
    for o in ex.map(one, ids): print('\n   '.join(map(str, o)), flush=True)
