#!/usr/bin/env python3
"""
Write a planted bug: tools/mkseed.py SPEC.py, where SPEC.py sets
  ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source; exits nonzero on the bug)
Development aid; no check reads /verif/seeded.
"""
import sys, os, json, subprocess, tempfile, shutil
R = os.environ.get('VF_REPO', '/repo')
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = os.environ.get('VROOT', '/verif') + '/seeded/%s' % ns['ID']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', R, 'worktree', 'prune'])
    subprocess.check_call('git -C %s archive HEAD | tar x -C %s' % (R, w), shell=True)
    subprocess.check_call('cd %s && git init -q . && git add -A -f && git -c user.name=a -c user.email=a@a commit -qm x' % w, shell=True)
    for f, old, new, *first in ns['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert first or s.count(old) == 1, (ns['ID'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new, 1))
    diff = subprocess.check_output(['git', 'diff'], cwd=w).decode()
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd at the root of the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/xdg" "$T/tmp"
[ -d /opt/vp/etc/astropy ] && cp -r /opt/vp/etc/astropy "$T/xdg/"
cd "$(pwd)" || exit 9
export HOME=$T LSLCONFIGDIR=$T/lsl XDG_CONFIG_HOME=$T/xdg TMPDIR=$T/tmp MPLBACKEND=Agg TZ=UTC LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 PYTHONPATH=$PWD
/opt/venv/bin/python -W ignore "$D/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    print(ns['ID'])
