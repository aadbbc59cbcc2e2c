"""
Developer tool: AST mutation of the code under test; which mutants do the checks miss, and do the repository's tests miss them too?

usage: mutate.py lines OUTDIR            record which property executes which line (quick tier)
       mutate.py list OUTDIR             write OUTDIR/mutants.json
       mutate.py run OUTDIR [N] [SEED] [REGEX]   run checks on N sampled mutants, log to OUTDIR/results.jsonl
       mutate.py tests OUTDIR            run the repository's tests on mutants the checks missed
"""
import ast, copy, glob, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PROPS = [f'C{k:02d}' for k in range(1, 28)]
ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell', GFMON_SCALE='1',
           PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_SEED='1')
PY = '/opt/venv/bin/python'


def files():
    return sorted(f for f in glob.glob(REPO + '/gftool/**/*.py', recursive=True)
                  if '/tests/' not in f and not f.endswith(('_version.py',)))


BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [], ast.FloorDiv: [ast.Mult],
       ast.Mod: [], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: []}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def variants(node):
    """Yield (description, replacement node)."""
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            n = copy.deepcopy(node); n.op = o(); yield type(node.op).__name__ + '>' + o.__name__, n
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node); n.ops[0] = o(); yield type(node.ops[0]).__name__ + '>' + o.__name__, n
    elif isinstance(node, ast.UnaryOp):
        if isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
            yield 'drop' + type(node.op).__name__, node.operand
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); yield 'boolop', n
    elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes)) and node.value is not None and node.value is not Ellipsis:
        v = node.value
        if isinstance(v, bool):
            yield 'bool', ast.Constant(not v)
        elif isinstance(v, int):
            yield 'int+1', ast.Constant(v + 1)
        elif isinstance(v, float):
            yield 'float*(1+1e-6)', ast.Constant(v*(1 + 1e-6) if v else 1e-6)
            yield 'float*2', ast.Constant(v*2 if v else 1.0)
        elif isinstance(v, complex):
            yield 'conj', ast.Constant(v.conjugate())
    elif isinstance(node, ast.Attribute) and node.attr in ('real', 'imag') and isinstance(node.ctx, ast.Load):
        n = copy.deepcopy(node); n.attr = {'real': 'imag', 'imag': 'real'}[node.attr]; yield 'realimag', n
        yield 'dropreal', node.value
    elif isinstance(node, ast.Call):
        f = node.func
        name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        if name in ('abs', 'conj', 'conjugate', 'transpose', 'sqrt', 'square', 'copy', 'asarray', 'asanyarray', 'squeeze', 'sort', 'exp', 'sign', 'real_if_close'):
            if node.args:
                yield 'drop ' + name, node.args[0]
            elif isinstance(f, ast.Attribute):
                yield 'drop .' + name, f.value
        swap = {'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'any': 'all', 'all': 'any', 'sum': 'mean', 'mean': 'sum',
                'zeros_like': 'ones_like', 'floor': 'ceil', 'ceil': 'floor', 'ones_like': 'zeros_like', 'logical_and': 'logical_or', 'logical_or': 'logical_and'}
        if name in swap:
            n = copy.deepcopy(node)
            if isinstance(n.func, ast.Name): n.func.id = swap[name]
            else: n.func.attr = swap[name]
            yield f'{name}>{swap[name]}', n
        for i, k in enumerate(node.keywords):
            if k.arg:
                n = copy.deepcopy(node); del n.keywords[i]; yield 'dropkw ' + k.arg, n
    elif isinstance(node, (ast.If, ast.IfExp)):
        n = copy.deepcopy(node); n = n.test; yield 'IFNOT', n
    elif isinstance(node, (ast.AugAssign, ast.Expr, ast.Assign, ast.Raise, ast.Assert)):
        yield 'delstmt', None


def seg(src_lines, node):
    off = [0]
    for l in src_lines: off.append(off[-1] + len(l.encode()))
    return off[node.lineno-1] + node.col_offset, off[node.end_lineno-1] + node.end_col_offset


def mutants():
    out = []
    for f in files():
        src = open(f, encoding='utf-8').read(); raw = src.encode(); lines = src.splitlines(keepends=True)
        tree = ast.parse(src)
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                    and isinstance(getattr(n.body[0], 'value', None), ast.Constant):
                skip.add(id(n.body[0]))
            if isinstance(n, ast.FunctionDef):
                for a in n.args.args + n.args.kwonlyargs:
                    if a.annotation: skip |= {id(x) for x in ast.walk(a.annotation)}
                if n.returns: skip |= {id(x) for x in ast.walk(n.returns)}
            if isinstance(n, ast.AnnAssign): skip |= {id(x) for x in ast.walk(n.annotation)}
            if isinstance(n, (ast.Raise,)): skip |= {id(x) for x in ast.walk(n) if x is not n}
            if isinstance(n, ast.Call) and (getattr(n.func, 'attr', '') in ('warn', 'debug', 'info', 'warning')):
                skip |= {id(x) for x in ast.walk(n)}
        infunc = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef,)): infunc |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(tree):
            if id(n) in skip or not hasattr(n, 'lineno'): continue
            for desc, new in variants(n):
                if desc == 'delstmt' and id(n) not in infunc: continue
                try:
                    if desc == 'IFNOT':
                        s, e = seg(lines, n.test); text = f'(not ({raw[s:e].decode()}))'
                    elif desc == 'delstmt':
                        s, e = seg(lines, n); text = 'pass'
                    else:
                        s, e = seg(lines, n); text = '(' + ast.unparse(new) + ')'
                    mut = raw[:s] + text.encode() + raw[e:]
                    ast.parse(mut.decode())
                except Exception: continue
                out.append(dict(file=os.path.relpath(f, REPO), line=n.lineno, end=getattr(n, 'end_lineno', n.lineno), desc=desc, s=s, e=e, text=text,
                                old=raw[s:e].decode()))
    for i, m in enumerate(out): m['id'] = i
    return out


def apply(m, root):
    p = os.path.join(root, m['file']); raw = open(os.path.join(REPO, m['file']), 'rb').read()
    os.remove(p)
    open(p, 'wb').write(raw[:m['s']] + m['text'].encode() + raw[m['e']:])


def restore(m, root):
    shutil.copy(os.path.join(REPO, m['file']), os.path.join(root, m['file']))


def main():
    cmd, out = sys.argv[1:3]; os.makedirs(out, exist_ok=True)
    if cmd == 'lines':
        wall = {}
        for p in PROPS:
            if os.path.exists(f'{out}/lines_{p}'): os.remove(f'{out}/lines_{p}')
            t = time.time()
            subprocess.run(['bash', V + '/check.sh', p, 'quick'], env=dict(ENV, GFMON_LINES=f'{out}/lines_{p}', GFMON_EVIDENCE=out + '/ev'))
            wall[p] = time.time() - t
        json.dump(wall, open(out + '/wall.json', 'w'))
    elif cmd == 'list':
        m = mutants(); json.dump(m, open(out + '/mutants.json', 'w'), indent=0); print(len(m))
    elif cmd == 'run':
        ms = json.load(open(out + '/mutants.json')); wall = json.load(open(out + '/wall.json'))
        num = int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)
        rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
        rex = re.compile(sys.argv[5] if len(sys.argv) > 5 else '')
        cov = {}
        for p in PROPS:
            for l in open(f'{out}/lines_{p}'):
                cov.setdefault(l.strip(), set()).add(p)
        done = set()
        if os.path.exists(out + '/results.jsonl'):
            done = {json.loads(l)['id'] for l in open(out + '/results.jsonl')}
        rng.shuffle(ms)
        todo = [m for m in ms if m['id'] not in done and rex.search(m['file'])][:num]
        nw = int(os.environ.get('NW', '8'))
        import queue
        q = queue.Queue()
        for k in range(nw):
            w = f'{out}/w{k}'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            shutil.copytree(REPO + '/gftool', w + '/gftool'); q.put(w)
        fh = open(out + '/results.jsonl', 'a')

        def one(m):
            w = q.get(); t = time.time()
            try:
                apply(m, w)
                rel = m['file'][len('gftool/'):]
                props = set()
                for ln in range(m['line'], m['end'] + 1): props |= cov.get(f'{rel}:{ln}', set())
                if not props and '/lattice/' in m['file'] and '<<=moments' in m: props = {'C03'}
                if not props:  # executed at import: every property using the file
                    props = set().union(*[v for k, v in cov.items() if k.startswith(rel + ':')])
                props = sorted(props, key=lambda p: wall[p]); res = 'uncovered' if not props else 'MISSED'
                for p, scale in [(p, s) for s in ('0.3', '3') for p in props]:
                    try:
                        r = subprocess.run(['bash', V + '/check.sh', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900,
                                           env=dict(ENV, GFMON_REPO=w, GFMON_EVIDENCE=w + '/ev', GFMON_JOBS='1', GFMON_FAILFAST='1', GFMON_SCALE=scale))
                    except subprocess.TimeoutExpired:
                        res = 'timeout ' + p; break
                    if r.returncode:
                        l = next((x for x in r.stdout.splitlines() if '#' in x or 'INCON' in x), '')[:150]
                        res = f'{p} rc={r.returncode} {l}'; break
                fh.write(json.dumps(dict(id=m['id'], res=res, props=props, t=round(time.time()-t, 1), file=m['file'], line=m['line'], desc=m['desc'],
                                         old=m['old'], text=m['text'])) + '\n'); fh.flush()
            finally:
                restore(m, w); q.put(w)
        with ThreadPoolExecutor(nw) as ex: list(ex.map(one, todo))
        for k in range(nw): shutil.rmtree(f'{out}/w{k}', ignore_errors=True)
    elif cmd == 'tests':
        ms = {m['id']: m for m in json.load(open(out + '/mutants.json'))}
        res = [json.loads(l) for l in open(out + '/results.jsonl')]
        done = {}
        if os.path.exists(out + '/tests.jsonl'): done = {json.loads(l)['id'] for l in open(out + '/tests.jsonl')}
        todo = [r for r in res if r['res'] in ('MISSED', 'uncovered') and r['id'] not in done]
        import queue
        q = queue.Queue(); nw = 4
        for k in range(nw):
            w = f'{out}/t{k}'; shutil.rmtree(w, ignore_errors=True); subprocess.check_call(['cp', '-a', REPO, w]); q.put(w)
        fh = open(out + '/tests.jsonl', 'a')

        def one(r):
            w = q.get(); m = ms[r['id']]
            try:
                apply(m, w)
                C = '-q -x -p no:cacheprovider --timeout=300 -n 2 -o junit_family=xunit2'
                e = dict(ENV, PYTHONPATH='/opt/vp/plugin')
                t1 = subprocess.run(f'{PY} -m pytest {C} --hypothesis-profile=ci', shell=True, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                rc = t1.returncode
                if not rc:
                    t1 = subprocess.run(f"{PY} -m pytest {C} -p gftool_doctest --doctest-modules --doctest-glob='docs/source/*.rst' -o 'doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1' -W ignore --ignore=gftool/tests --ignore=docs/source/conf.py --ignore=docs/source/dos_gallary.py gftool docs/source",
                                        shell=True, cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    rc = t1.returncode
                fh.write(json.dumps(dict(r, tests='killed' if rc else 'SURVIVED')) + '\n'); fh.flush()
            finally:
                restore(m, w); q.put(w)
        with ThreadPoolExecutor(nw) as ex: list(ex.map(one, todo))
        for k in range(nw): shutil.rmtree(f'{out}/t{k}', ignore_errors=True)


main()
