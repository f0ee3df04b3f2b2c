"""link.py DEMO.cc TEST_BINARY: compile DEMO.cc, link it with the objects of a
test binary of the build (without the test itself), and run it."""
import os, re, subprocess, sys, tempfile, shutil
src, test = sys.argv[1], sys.argv[2]
B = '/opt/wod/build'
vars_, rules, links = {}, {}, {}
cur = None
for ln in open(B + '/build.ninja'):
    if ln.startswith('rule '):
        cur = rules.setdefault(ln.split()[1], {})
    elif ln.startswith('build '):
        m = re.match(r'build (\S+): (\S+) (.*)', ln)
        cur = {}
        if m:
            links[m.group(1)] = (m.group(2), m.group(3).split('||')[0].split(), cur)
    elif ln.startswith(' ') and cur is not None and '=' in ln:
        k, v = ln.strip().split('=', 1)
        cur[k.strip()] = v.strip()
    elif re.match(r'\w+ *=', ln):
        k, v = ln.split('=', 1)
        vars_[k.strip()] = v.strip()
        cur = None
out = [k for k in links if k.endswith('/' + test)][0]
rule, objs, own = links[out]
objs = [o for o in objs if not o.endswith('_test.o') and 'gtest' not in o]
objs += [B + '/obj/' + x for x in sys.argv[3:]]      # further objects
own['flags'] = own.get('flags', '').replace('-shared', '')
tmp = tempfile.mkdtemp()
try:
    def run(rule, inp, outp, extra):
        cmd = rules[rule]['command']
        env = dict(vars_); env.update(extra); env['in'] = inp; env['out'] = outp
        for _ in range(5):
            cmd = re.sub(r'\$\{?(\w+)\}?', lambda m: env.get(m.group(1), ''), cmd)
        return subprocess.run(cmd, shell=True, cwd=B)
    o = tmp + '/demo.o'
    if run('cxx', src, o, {}).returncode: sys.exit(3)
    if run(rule, ' '.join([o] + objs), tmp + '/demo', own).returncode: sys.exit(3)
    sys.exit(subprocess.run([tmp + '/demo'], cwd=tmp).returncode)
finally:
    shutil.rmtree(tmp)
