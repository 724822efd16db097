"""mkseed.py SPEC.py : plant a bug.  SPEC defines id, prop, edits=[(file, old, new)], demo (rust), needs, breaks"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}; exec(open(sys.argv[1]).read(), g)
W = '/tmp/seedwt'; os.makedirs(W, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
sh('mkdir -p %s/a/programs/mango-v4/src && rsync -a --delete /repo/programs/mango-v4/src/ %s/a/programs/mango-v4/src/ && mkdir -p %s/b/programs/mango-v4/src && rsync -a --delete /repo/programs/mango-v4/src/ %s/b/programs/mango-v4/src/' % (W, W, W, W))
for f, o, n in g['edits']:
    p = W + '/b/programs/mango-v4/src/' + f; s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
d = os.path.join(V, 'seeded', g['id']); os.makedirs(d, exist_ok=True)
r = sh('git diff --no-index a b', cwd=W).stdout.replace('a/a/', 'a/').replace('b/b/', 'b/')
open(d + '/patch.diff', 'w').write(r)
if g.get('attach'): open(d + '/attach', 'w').write(g['attach'])
open(d + '/demo.rs', 'w').write(g['demo'])
shutil.copy(V + '/meta/demo/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
shutil.copy('/tmp/rs.tgz', d + '/rs.tgz')
json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
c = sh('git -C /repo apply --check ' + d + '/patch.diff'); print('apply', c.returncode, c.stdout)
env = dict(os.environ, DEMO_TARGET_DIR='/tmp/demot')
ra = sh('bash %s/demo.sh' % d, cwd=W + '/a', env=env); rb = sh('bash %s/demo.sh' % d, cwd=W + '/b', env=env)
print(g['id'], 'clean', ra.returncode, 'patched', rb.returncode)
if ra.returncode or not rb.returncode or 'error[' in rb.stdout: print(ra.stdout[-1500:]); print(rb.stdout[-1500:])
