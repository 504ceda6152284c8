"""Confirms a planted bug: plant.py ID. The change is /verif/seeded/ID/patch.diff or, if that is absent, what differs in /tmp/wt from its HEAD.

Builds and tests a scratch worktree with and without the patch, runs demo.sh on both, then the property's check on the patched tree."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sd = os.path.join(V, 'seeded', sys.argv[1])
WT = '/tmp/wt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
meta = json.load(open(sd + '/meta.json'))
patch = sd + '/patch.diff'
if not os.path.exists(WT):
    print(sh('git -C /repo worktree add --detach %s HEAD' % WT).stdout)
if not os.path.exists(patch):
    d = sh('git -C %s diff' % WT).stdout
    open(patch, 'w').write(d)
sh('git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) -f' % WT)
sh('rm -rf %s/_build; mkdir -p %s/_build; cp -a /repo/_build/include %s/_build/' % (WT, WT, WT))
shutil.copytree(V + '/shim', sd + '/shim', dirs_exist_ok=True)
for f in ('lib.sh', 'partial.sh'):
    if '/%s"' % f in open(sd + '/demo.sh').read(): shutil.copy(V + '/tools/demo/' + f, sd)
def build():
    # the same as /opt/vp/build.sh, for the scratch tree
    s = open('/opt/vp/build.sh').read().replace('/repo', WT)
    p = '/tmp/wt.build.sh'; open(p, 'w').write(s)
    shutil.rmtree('/tmp/wt.partial', ignore_errors=True); shutil.copytree('/opt/vp/partial', '/tmp/wt.partial')
    sh("grep -rl /repo /tmp/wt.partial | xargs -r sed -i 's|/repo|%s|g'" % WT)
    s = s.replace('/opt/vp/partial', '/tmp/wt.partial'); open(p, 'w').write(s)
    r = sh('bash ' + p)
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def tests():
    r = sh('cd %s/_build && ctest -j8 --timeout 60' % WT)
    return r.returncode == 0, r.stdout[-500:]
ok = True
print('build', build())
d0 = sh('bash %s/demo.sh' % sd, cwd=WT)
print('demo unpatched exit', d0.returncode, d0.stdout[-600:] if d0.returncode else '')
ok &= d0.returncode == 0
a = sh('git -C %s apply %s' % (WT, patch))
if a.returncode: print('APPLY', a.stdout); sys.exit(1)
b = build(); t = tests()
print('patched build', b, 'tests', t[0], '' if t[0] else t[1])
ok &= b and t[0]
d1 = sh('bash %s/demo.sh' % sd, cwd=WT)
print('demo patched exit', d1.returncode, d1.stdout[-300:])
ok &= d1.returncode != 0
if '--nocheck' not in sys.argv:
    for prop in [meta['property']] + [x for x in sys.argv[2:] if x[0] != '-']:
        e = dict(os.environ, VK_REPO=WT, VK_BUILD='/tmp/wtbuild', VERIF_SEED='1')
        c = sh('cd %s && ./check %s --tier quick' % (V, prop), env=e)
        print(prop, 'CHECK', {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'NO ANSWER'), '\n'.join(l[:160] for l in c.stdout.split('\n') if l.startswith(('VIOLATION', 'ERROR')) or (l.startswith('# ') and l[2] != ' '))[:1500])
sh('git -C %s checkout -q -f' % WT)
shutil.rmtree('/tmp/wtbuild', ignore_errors=True)
print('CONFIRMED' if ok else 'NOT VALID')
