"""Runs the scenarios of one property: explore, replay, report, write evidence."""
import importlib
import json
import multiprocessing as mp
import os
import queue as _q
import subprocess
import sys
import time
import traceback

from . import loader
from .core import (Engine, SxControl, SxInfeasible, SxStop, SxBudget, SxInconclusive, Stats)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
PY = '/opt/venv/bin/python'
_perf = time.perf_counter


def _unpatched_time():
    """multiprocessing must keep the real clock once env.install() has run"""
    import types
    import multiprocessing.queues as q
    import multiprocessing.connection as c
    m = types.ModuleType('time')
    m.__dict__.update(time.__dict__)
    q.time = m
    c.time = m


_unpatched_time()

REGISTRY = {}


class Scenario(object):
    def __init__(self, prop, name, fn, kw):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.reach = kw.pop('reach', ())
        self.tiers = kw.pop('tiers', ('quick', 'thorough'))
        self.bounds = kw.pop('bounds', '')
        self.thorough_only = 'quick' not in self.tiers
        self.allow_exc = kw.pop('allow_exc', False)
        self.args = kw.pop('args', {})
        self.known = kw.pop('known', None)
        assert not kw, kw


def scenario(prop, name=None, **kw):
    """decorator used by harness modules"""
    def d(fn):
        s = Scenario(prop, name or fn.__name__, fn, dict(kw))
        REGISTRY.setdefault(prop, []).append(s)
        return fn
    return d


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def quick():
    return tier() != 'thorough'


HARNESS = {}    # property id -> harness module name


def load(prop, sym):
    if sym:
        sys.modules.pop('configparser', None)
        loader.install({'sippy': REPO, 'harness': VERIF, 'configparser': os.path.dirname(os.__file__)})
        from . import crypto, times
        crypto.install()
        times.install()
        import sippy  # noqa
    else:
        sys.path.insert(0, VERIF)
    from . import env
    env.install(sym)
    mods = json.load(open(os.path.join(VERIF, 'harness', 'index.json')))
    for m in mods[prop]:
        importlib.import_module('harness.' + m)
    return [s for s in REGISTRY.get(prop, []) if tier() in s.tiers]


# ---------------------------------------------------------------- exploring

def exc_label(ex):
    return 'exception:%s' % type(ex).__name__


def run_path(en, sc, prefix, H, env):
    en.reset_path(prefix)
    en.stats.paths += 1
    env.reset()
    h = H(en)
    outcome = 'ok'
    try:
        sc.fn(h, **sc.args)
    except SxInfeasible:
        en.stats.infeasible += 1
        outcome = 'infeasible'
    except SxStop:
        outcome = 'stop'
    except SxInconclusive as e:
        outcome = 'inconclusive:%s' % e
    except SxBudget:
        raise
    except RecursionError:
        raise
    except Exception as ex:
        lab = exc_label(ex)
        en.path_log.append(lab)
        tb = traceback.format_exc()
        en.stats.checks += 1
        en.stats.checks_solver += 1
        try:
            en.violations.append({'label': lab, 'inputs': en.input_values(en.get_model()),
                                  'info': {'traceback': tb[-3000:]}, 'kinds': {}})
        except SxControl:
            pass
        outcome = 'exception'
    alts = en.alts
    return outcome, alts


def sample_due(n):
    """which completed paths are re-run concretely: the 1st, 2nd, 4th, 8th, ..."""
    return n & (n - 1) == 0


def take_sample(en):
    try:
        mdl = en.get_model()
        return {'inputs': en.input_values(mdl), 'log': list(en.path_log)}
    except SxControl:
        return None


def worker(wid, prop, scs, inq, outq, hungry, pending, deadline, seed):
    try:
        from . import env
        from .api import SymH
        import gc
        devnull = open(os.devnull, 'w')
        sys.stdout = devnull
        sys.__stdout__ = devnull
        sys.setrecursionlimit(5000)
        engines = {}
        okn = {}
        while True:
            try:
                item = inq.get(timeout=0.2)
            except _q.Empty:
                if pending.value <= 0 or _perf() > deadline:
                    break
                continue
            if item is None:
                break
            si, prefix = item
            en = engines.get(si)
            if en is None:
                en = engines[si] = Engine()
                en.deadline = deadline
            Engine.cur = en
            local = [prefix]
            err = None
            npaths = 0
            while local:
                p = local.pop()
                try:
                    oc, alts = run_path(en, scs[si], p, SymH, env)
                except SxBudget:
                    outq.put(('budget', si, 1 + len(local)))
                    local = []
                    break
                except BaseException:
                    outq.put(('error', si, traceback.format_exc()[-6000:]))
                    alts = []
                    oc = 'error'
                npaths += 1
                if oc == 'ok' and not en.violations:
                    okn[si] = okn.get(si, 0) + 1
                    if sample_due(okn[si]):
                        smp = take_sample(en)
                        if smp:
                            outq.put(('sample', si, smp))
                if oc.startswith('inconclusive'):
                    outq.put(('inconclusive', si, oc))
                for v in en.violations:
                    outq.put(('violation', si, v))
                en.violations = []
                local.extend(alts)
                if len(local) > 1 and hungry.value > 0 and inq.qsize() < 8:
                    n = max(1, len(local) // 2)
                    give, local = local[:n], local[n:]
                    with pending.get_lock():
                        pending.value += len(give)
                    for g in give:
                        inq.put((si, g))
                if _perf() > deadline and local:
                    outq.put(('budget', si, len(local)))
                    local = []
            with pending.get_lock():
                pending.value -= 1
            hungry.value = 1
        for si, en in engines.items():
            outq.put(('stats', si, en.stats.as_dict()))
        from .values import concretise  # noqa
        outq.put(('done', wid, None))
        outq.close()
        outq.join_thread()
    except BaseException:
        outq.put(('fatal', wid, traceback.format_exc()))
        outq.put(('done', wid, None))
        outq.close()
        outq.join_thread()
    os._exit(0)


def explore_inline(prop, scs, budget):
    """debugging: one process, depth first"""
    from . import env
    from .api import SymH
    sys.setrecursionlimit(5000)
    res = {}
    lim = int(os.environ.get('SX_MAXPATHS', '1000000'))
    for si, sc in enumerate(scs):
        en = Engine()
        Engine.cur = en
        local = [[]]
        r = res[si] = {'stats': en.stats, 'violations': [], 'budget': 0, 'inconclusive': [], 'errors': [],
                       'vlabels': {}, 'samples': []}
        n = 0
        while local and n < lim:
            n += 1
            try:
                oc, alts = run_path(en, sc, local.pop(), SymH, env)
            except Exception:
                r['errors'].append(traceback.format_exc()[-6000:])
                break
            if os.environ.get('SX_DEBUG') == '2':
                print(n, oc, len(en.trace), len(local), {k: (v.sx_value(en.get_model()) if hasattr(v, 'sx_value') else v)
                      for k, (_, v) in en.inputs.items()} if oc == 'ok' else '')
            if oc.startswith('inconclusive'):
                r['inconclusive'].append(oc)
            if oc == 'ok' and not en.violations and sample_due(n):
                smp = take_sample(en)
                if smp:
                    r['samples'].append(smp)
            for v in en.violations:
                k = r['vlabels'][v['label']] = r['vlabels'].get(v['label'], 0) + 1
                if k < 4:
                    r['violations'].append(v)
            en.violations = []
            local.extend(alts)
        r['budget'] = len(local)
    from . import core
    if core.PROF:
        for k, v in sorted(core.PROF.items(), key=lambda x: -x[1])[:40]:
            print('%7d %s' % (v, k))
    return res, []


def explore(prop, scs, budget, nproc):
    if os.environ.get('SX_DEBUG'):
        return explore_inline(prop, scs, budget)
    ctx = mp.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    hungry = ctx.Value('i', 1)
    pending = ctx.Value('i', len(scs))
    deadline = _perf() + budget
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for i in range(len(scs)):
        inq.put((i, []))
    ws = [ctx.Process(target=worker, args=(i, prop, scs, inq, outq, hungry, pending, deadline, seed),
                      daemon=True) for i in range(nproc)]
    for w in ws:
        w.start()
    res = {i: {'stats': Stats(), 'violations': [], 'budget': 0, 'inconclusive': [], 'errors': [],
               'vlabels': {}, 'samples': []} for i in range(len(scs))}
    fatal = []
    done = 0
    hard = deadline + 60
    while done < nproc:
        try:
            kind, si, x = outq.get(timeout=1.0)
        except _q.Empty:
            if _perf() > hard or not any(w.is_alive() for w in ws):
                # a worker died (e.g. out of memory): incomplete
                dead = [w.exitcode for w in ws if not w.is_alive()]
                if _perf() > hard or len(dead) == len(ws):
                    fatal.append('workers lost: %r' % dead)
                    break
            continue
        if kind == 'done':
            done += 1
        elif kind == 'fatal':
            fatal.append(x)
        elif kind == 'sample':
            res[si]['samples'].append(x)
        elif kind == 'stats':
            res[si]['stats'].merge(x)
        elif kind == 'violation':
            r = res[si]
            n = r['vlabels'].get(x['label'], 0)
            r['vlabels'][x['label']] = n + 1
            if n < 6:
                r['violations'].append(x)
        elif kind == 'budget':
            res[si]['budget'] += x
        elif kind == 'inconclusive':
            res[si]['inconclusive'].append(x)
        elif kind == 'error':
            if len(res[si]['errors']) < 5:
                res[si]['errors'].append(x)
    for w in ws:
        if w.is_alive():
            w.terminate()
    return res, fatal


# ---------------------------------------------------------------- replaying

def replay_file(path, timeout=120):
    r = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, cwd=VERIF)
    return r.returncode, r.stdout.decode(errors='replace')


def validate_samples(prop, scs, res, tier_, rdir):
    """re-run sampled passing paths on the uninstrumented code"""
    allv = []
    for si, r in sorted(res.items()):
        for x in r['samples'][:60]:
            allv.append({'scenario': scs[si].name, 'inputs': x['inputs'], 'log': x['log']})
    if not allv:
        return 0, [], []
    path = os.path.join(rdir, '%s-samples.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier_, 'batch': allv}, f, default=repr)
    try:
        r = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=200, cwd=VERIF)
        out = r.stdout.decode(errors='replace')
        line = [x for x in out.splitlines() if x.startswith('BATCH ')]
        results = json.loads(line[-1][6:])
    except Exception as e:
        return 0, ['sample replay failed: %s' % e], []
    bad, viol = [], []
    ok = 0
    for x, y in zip(allv, results):
        if y['outcome'] == 'violation' or y['outcome'].startswith('exception'):
            viol.append((x, y))
        elif y['outcome'] != 'ok' or y['log'] != x['log']:
            bad.append('%s: symbolic %r, concrete %r %r inputs %r' % (
                x['scenario'], x['log'], y['outcome'], y['log'], x['inputs']))
        else:
            ok += 1
    os.unlink(path)
    return ok, bad, viol


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def match_known(v, sc, kf):
    return kf.get('property') == sc.prop and kf.get('scenario') == sc.name and kf.get('label') == v['label']


def main(prop, tier_):
    os.environ['VERIF_TIER'] = tier_
    t0 = _perf()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scs = load(prop, True)
    budget = float(os.environ.get('SX_BUDGET', '600' if tier_ == 'quick' else '10800'))
    nproc = int(os.environ.get('SX_NPROC', str(min(8, os.cpu_count() or 1))))
    only = os.environ.get('SX_ONLY')
    if only:
        scs = [s for s in scs if s.name in only.split(',')]
    res, fatal = explore(prop, scs, budget, nproc)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    confirmed, unconfirmed, known = [], [], []
    kfs = [k for k in known_findings() if k.get('kind', 'known') == 'known']
    for si, r in sorted(res.items()):
        sc = scs[si]
        okl = {}
        for k, v in enumerate(r['violations']):
            if okl.get(v['label']):
                continue
            path = os.path.join(rdir, '%s-%s-%d.json' % (prop, sc.name, k))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'scenario': sc.name, 'label': v['label'], 'tier': tier_,
                           'inputs': v['inputs'], 'info': v['info']}, f, indent=1, default=repr)
            try:
                rc, out = replay_file(path)
            except subprocess.TimeoutExpired:
                rc, out = 99, 'replay timeout'
            if rc == 1:
                okl[v['label']] = True
                kf = [q for q in kfs if match_known(v, sc, q)]
                if kf:
                    known.append((kf[0], sc.name, v['label']))
                else:
                    confirmed.append((sc.name, v['label'], path, v, out))
            else:
                unconfirmed.append((sc.name, v['label'], path, v, out, rc))
        unconfirmed = [u for u in unconfirmed if not (u[0] == sc.name and okl.get(u[1]))]
    nval, mism, sviol = validate_samples(prop, scs, res, tier_, rdir)
    for k, (x, y) in enumerate(sviol):
        # a passing symbolic path whose concrete run fails: the real code is what counts
        sc = [q for q in scs if q.name == x['scenario']][0]
        v = {'label': y.get('label', y['outcome']), 'inputs': x['inputs'], 'info': {'from': 'sample replay'}}
        if [q for q in kfs if match_known(v, sc, q)]:
            continue
        path = os.path.join(rdir, '%s-%s-s%d.json' % (prop, sc.name, k))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'scenario': sc.name, 'label': v['label'], 'tier': tier_,
                       'inputs': v['inputs'], 'info': v['info']}, f, indent=1, default=repr)
        confirmed.append((sc.name, v['label'], path, v, str(y)))
    for x in mism[:5]:
        print('WARNING: path validation mismatch: %s' % x[:1500])
    tot = Stats()
    per = []
    problems = list(fatal)
    incomplete = []
    for si, r in sorted(res.items()):
        st = r['stats']
        tot.merge(st.as_dict())
        sc = scs[si]
        missing = [x for x in sc.reach if not st.reach.get(x)]
        if missing and not r['budget'] and not r['errors'] and not r['violations']:
            problems.append('vacuous: scenario %s never reached %s' % (sc.name, missing))
        if r['errors']:
            problems.append('engine error in %s: %s' % (sc.name, r['errors'][0]))
        if r['budget'] or r['inconclusive']:
            incomplete.append('%s: %d path prefixes unexplored, %d inconclusive' % (
                sc.name, r['budget'], len(r['inconclusive'])))
        per.append({'scenario': sc.name, 'bounds': sc.bounds, 'paths': st.paths, 'forks': st.forks,
                    'queries': st.queries, 'solver_s': round(st.solver_s, 2),
                    'assertions': st.checks, 'assertions_by_solver': st.checks_solver,
                    'assertion_labels': st.labels, 'reach_witnesses': st.reach,
                    'concretised': st.conc_sites, 'complete': not (r['budget'] or r['inconclusive'])})
    wall = _perf() - t0
    encoded = sorted('%s@%s' % (k, v[1]) for k, v in loader.LOADED.items() if k.startswith('sippy'))
    samples = []
    for p in per[:6]:
        samples.append({'scenario': p['scenario'], 'bounds': p['bounds'], 'paths': p['paths']})
    ev = {'property': prop, 'tier': tier_, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
          'violations': len(confirmed),
          'assumptions': getattr(sys.modules.get('harness.' + json.load(open(os.path.join(
              VERIF, 'harness', 'index.json')))[prop][0]), 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
          'coverage': {
              'states': tot.paths, 'transitions': tot.forks + tot.paths,
              'traces_validated_against_impl': nval + len(confirmed) + len(known),
              'validation_mismatches': len(mism),
              'samples': samples,
              'rule': 'states = symbolic paths executed to the end over the real code; transitions = '
                      'solver-decided branch points that forked plus path starts; each path stands for '
                      'every input value satisfying its path condition',
              'queries_discharged': tot.queries, 'solver_s': round(tot.solver_s, 2),
              'assertions_checked': tot.checks, 'assertions_needing_solver': tot.checks_solver,
              'unknown': tot.unknown, 'infeasible_paths': tot.infeasible,
              'exhaustive': not incomplete and not tot.concretised,
              'concretised_values': tot.concretised,
              'incomplete': incomplete,
              'functions_encoded': encoded,
              'scenarios': per,
              'known_findings_seen': [k[0].get('id', '') for k in known],
              'unreproduced_counterexamples': len(unconfirmed)}}
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for p in per:
        print('%-34s paths=%-7d queries=%-7d solver=%.1fs checks=%d%s%s' % (
            p['scenario'], p['paths'], p['queries'], p['solver_s'], p['assertions'],
            '' if p['complete'] else ' INCOMPLETE', ' CONC=%r' % p['concretised'] if p['concretised'] else ''))
    print('%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d paths validated, %d mismatches' % (
        prop, tier_, tot.paths, tot.queries, tot.solver_s, wall, nval, len(mism)))
    for k, sn, lab in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', lab)))
    for sn, lab, path, v, out in confirmed:
        print('counterexample in %s: %s' % (sn, lab))
        print('   inputs: %s' % json.dumps(v['inputs'], default=repr)[:1500])
        print('   info: %s' % json.dumps(v['info'], default=repr)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if confirmed:
        return 1
    for u in unconfirmed:
        problems.append('counterexample did not reproduce: %s %s %s rc=%s\n%s\n%s' % (
            u[0], u[1], u[2], u[5], json.dumps(u[3], default=repr)[:2500], u[4][-1500:]))
    if problems:
        for p in problems:
            print('ERROR: ' + p)
        return 3
    return 0


COMMON_ASSUMPTIONS = [
    'clock, random tokens, sockets and threads are stubs: virtual clock, unique deterministic tokens, '
    'recorded transmissions, single-threaded hand-over',
    'Python floats are modelled as exact rationals; times lie on a 1/64 s grid so that replays are exact',
    'message digests are modelled as collision-free uninterpreted functions',
]
