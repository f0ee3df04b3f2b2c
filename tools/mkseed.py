"""Development helper: mkseed.mk(id, prop, file, [(old,new),..], needs, breaks, demo, test) writes
seeded/<id>/. file may be a dict file->edits."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, '..', 'seeded')
REPO = os.environ.get('REPO', '/repo')
SRC = 'src/waymo_open_dataset/'

def mk(id, prop, edits, needs, breaks, demo, test=None, extra=None, objs='', shim=False, tfs=False):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    for f, eds in edits.items():
        p = os.path.join(REPO, SRC, f)
        s = open(p).read()
        for old, new in eds:
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if test:
        open(d + '/demo.cc', 'w').write(demo)
        shutil.copy(HERE + '/seedkit/link.py', d + '/link.py')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 when the behaviour is right\nd=$(cd "$(dirname "$0")" && pwd)\n%sexec /usr/bin/python3 "$d/link.py" "$d/demo.cc" %s %s\n' % ('CPATH="$d/shim" ' if shim else '', test, objs))
        if shim:
            shutil.copytree(HERE + '/../harness/cpp/shim', d + '/shim', dirs_exist_ok=True)
    else:
        open(d + '/demo.py', 'w').write(demo)
        if tfs:
            shutil.copytree(HERE + '/../props/tfs', d + '/tfs', dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__', 'selftest.py'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 when the behaviour is right\nd=$(cd "$(dirname "$0")" && pwd)\n%s\n' % (extra or 'cd /repo/src && PYTHONPATH=/repo/src exec /opt/venv/bin/python -B "$d/demo.py"'))
    os.chmod(d + '/demo.sh', 0o755)
