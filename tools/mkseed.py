"""Developer tool: write /verif/seeded/<id>/ from SPEC modules.  usage: mkseed.py spec.py"""
import json, os, re, runpy, subprocess, sys, tempfile, shutil
REPO = '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import gftool as gt
'''
SH = '''#!/bin/bash
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(f'git -C {REPO} archive HEAD gftool | tar -x -C {tmp}; cd {tmp}; git init -q; git add -A; git -c user.email=a -c user.name=a commit -qm a', shell=True)
    for f, old, new in s['edits']:
        p = os.path.join(tmp, f); t = open(p).read()
        if t.count(old) != 1:  # tolerate other spacing within a line
            pat = ''.join(r'[ ]*' + re.escape(x) if not x.isspace() else (re.escape(x) if '\n' in x else r'[ ]*')
                          for x in re.findall(r'\w+|\n[ ]*|[ ]+|.', old))
            found = re.findall(pat, t)
            assert len(found) == 1, (s['id'], f, len(found), old)
            old = found[0]
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff'], text=True)
    shutil.rmtree(tmp)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', s['id'])
