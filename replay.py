#!/usr/bin/env python3
"""replay.py <counterexample.json>: run the harness on concrete values against
the uninstrumented code.  exit 1: reproduced, 0: the property held, 2: other."""
import json
import os
import sys
import traceback
PY = '/opt/venv/bin/python'
if sys.prefix != '/opt/venv' or os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
j = json.load(open(sys.argv[1]))
os.environ['VERIF_TIER'] = j['tier']
from symx import runner
from symx.api import ConH, Violation
from symx.core import SxControl
scs = {s.name: s for s in runner.load(j['property'], False)}
from symx import env

if 'batch' in j:
    out = []
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    for x in j['batch']:
        env.reset()
        h = ConH(x['inputs'])
        o = {'outcome': 'ok'}
        try:
            sc = scs[x['scenario']]
            sc.fn(h, **sc.args)
            if h.failed:
                raise Violation(h.failed[0][0])
        except Violation as v:
            o = {'outcome': 'violation', 'label': str(v), 'failed': repr(h.failed)[:500]}
        except SxControl as e:
            o = {'outcome': 'control:%r' % e}
        except Exception as e:
            o = {'outcome': runner.exc_label(e), 'label': runner.exc_label(e),
                 'tb': traceback.format_exc()[-1500:]}
        o['log'] = h.log
        out.append(o)
    sys.stdout = so
    print('BATCH ' + json.dumps(out))
    sys.exit(0)
env.reset()
h = ConH(j['inputs'])
sc = scs[j['scenario']]
try:
    sc.fn(h, **sc.args)
    if h.failed:
        # the code under test swallowed the report
        raise Violation(h.failed[0][0])
except Violation as v:
    print('reproduced: %s' % h.failed)
    sys.exit(1)
except SxControl as e:
    print('control: %r' % e)
    sys.exit(2)
except Exception as e:
    traceback.print_exc()
    print('exception: %s (expected %s)' % (runner.exc_label(e), j['label']))
    sys.exit(1 if j['label'].startswith('exception:') else 2)
print('held')
sys.exit(0)
