"""Developer tool: make and confirm a planted bug.
usage: seed.py ID PROP FILE <<EOF   (stdin: old text, line '=====', new text, line '=====', demo body,
                                     line '=====', needs, line '=====', what it breaks)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, fn = sys.argv[1:4]
parts = sys.stdin.read().split('\n=====\n')
old, new, demo, needs, breaks = [p.strip('\n') for p in parts[:5]]
wt = '/tmp/seedwt'
shutil.rmtree(wt, ignore_errors=True)
shutil.copytree('/repo', wt, symlinks=True)
p = os.path.join(wt, fn)
s = open(p).read()
assert s.count(old) == 1, 'old text occurs %d times' % s.count(old)
open(p, 'w').write(s.replace(old, new))
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
open(os.path.join(d, 'meta.json'), 'w').write(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                                                         indent=1) + '\n')
open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
if 'from demolib' in demo or 'import demolib' in demo:
    # self-contained concrete environment: the stubs of symx/env.py and the message texts of harness/sip.py
    e = open(os.path.join(V, 'symx', 'env.py')).read().replace("REPO = os.environ.get('SX_REPO', '/repo')", 'REPO = os.getcwd()')
    h = open(os.path.join(V, 'harness', 'sip.py')).read().replace('from symx import env\n', 'env = sys.modules[__name__]\n')
    h = h.replace('from symx.env import SENT, DUMPS, CLK, T0\n', '')
    for m in [a[2:] for a in sys.argv if a in ('--ua', '--b2b')]:
        x = open(os.path.join(V, 'harness', m + '.py')).read()
        x = re.sub(r'^from (symx|harness)[ .].*(\n[ ]+.*)*\n', '', x, flags=re.M)
        h += '\n\n' + x
    open(os.path.join(d, 'demolib.py'), 'w').write(e + '\n\n' + h + '\n\ninstall(False)\nreset()\n')
open(os.path.join(d, 'demo.py'), 'w').write(demo + '\n')
r0 = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
r1 = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=wt, capture_output=True, text=True)
print('clean:', r0.returncode, (r0.stdout + r0.stderr)[-600:] if r0.returncode else '')
print('patched:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
if '--check' in sys.argv:
    env = dict(os.environ, SX_REPO=wt)
    r = subprocess.run(['python3', 'check.py', prop, 'quick'], cwd=V, env=env, capture_output=True, text=True)
    print('check:', r.returncode, [l for l in r.stdout.split('\n') if 'counterexample' in l or 'VIOLATION' in l][:3])
shutil.rmtree(wt, ignore_errors=True)
if r0.returncode or not r1.returncode:
    print('*** NOT CONFIRMED')
