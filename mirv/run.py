"""Runs the units of one property: extraction, obligations, discharge, counterexample replay, evidence."""
import os, sys, json, time, subprocess, traceback, random, hashlib
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from . import term as t, solve, mir as mirmod, sym, intr, exec as E, verify
from .verify import Env, Unit, discharge, reachable
from .val import *
from fractions import Fraction

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, 'build')

class Prop:
    """the contracts that decide one property"""
    def __init__(self, pid, units, assumptions=(), technique=None, note='', secs=30):
        self.pid = pid; self.units = units; self.assumptions = list(assumptions); self.note = note; self.secs = secs

_env = None
_prop = None
_found = mp.Value('i', 0)          # a failing input has been found: nothing more is searched for
def getenv():
    global _env
    if _env is None: _env = Env(os.path.join(BUILD, 'mir.json'))
    return _env

def jsonable(v):
    if isinstance(v, Fraction): return '%s' % v
    if isinstance(v, (int, bool, str)) or v is None: return v
    return repr(v)

def run_unit(arg):
    i, secs, threads, tier, seed = arg
    u = _prop.units[i]
    t0 = time.time()
    r = {'unit': u.name, 'fn': u.fn, 'obls': [], 'error': None, 'inlined': [], 'contracts': [], 'unknown_calls': {}, 'trusted': {}, 'reach': None, 'bounded': getattr(u, 'bounded', None)}
    solve.STATS.update(solver_s=0, queries=0, by={})
    try:
        env = getenv()
        obls, info = u.generate(env)
        r['gen_s'] = round(time.time() - t0, 2)
        ex = info['ex']
        r['inlined'] = sorted(ex.inlined); r['contracts'] = sorted(ex.used_contracts); r['unknown_calls'] = ex.unknown_calls
        r['trusted'] = dict(ex.used_trusted)
        early = None; todo = obls
        if u.sample:
            # quick attempts first; what they leave open may be false, which likely inputs show sooner than a solver
            solve.FAST[0] = True
            try: discharge(obls, u.secs or secs, threads)
            finally: solve.FAST[0] = False
            todo = [o for o in obls if o.res[0] != 'proved']
            if todo and not _found.value:
                early = u.likely(env, seed, 40)
                if early: _found.value = 1
        if not early: discharge(todo, u.secs or secs, threads)
        late = [o for o in obls if o.res[0] == 'unknown'][:6]
        if late and not early and not any(o.res[0] == 'cex' for o in obls) and not _found.value: discharge(late, 2 * (u.secs or secs), min(threads, 2))        # once more with more time: the machine may be busy
        bad = [o for o in obls if o.res[0] != 'proved']
        if u.ok_reach and not bad: r['reach'] = reachable(info['ok'])
        reps = 0
        bad.sort(key=lambda o: (not early or o.label != early['label'], o.res[0] != 'cex'))
        tf = time.time()
        for o in bad + [o for o in obls if o.res[0] == 'proved']:
            d = {'fn': o.fn, 'label': o.label, 'kind': o.kind, 'status': o.res[0], 'by': o.res[1] if o.res[0] == 'proved' else None, 'secs': round(o.secs, 2)}
            if o.res[0] != 'proved':
                d['detail'] = {k: jsonable(v) for k, v in list(o.res[1].items())[:60]} if isinstance(o.res[1], dict) else str(o.res[1])[:400]
                if early: d['replay'] = early; early = None
                left = min(150 - (time.time() - tf), solve.DEADLINE[0] + 90 - time.time())
                if reps < 3 and left > 5 and not _found.value:
                    reps += 1
                    try:
                        d['replay'] = u.find_input(env, o, seed, min(60, left))
                        if d['replay']: _found.value = 1
                    except Exception as e: d['replay_error'] = traceback.format_exc(limit=4)
            r['obls'].append(d)
    except Unsupported as e:
        r['error'] = 'unsupported: %s' % e; r['trace'] = traceback.format_exc(limit=-4)
    except KeyError as e:
        r['error'] = 'anchor not found: %s' % e; r['trace'] = traceback.format_exc(limit=-4)
    except Exception as e:
        r['error'] = 'engine: %r' % e; r['trace'] = traceback.format_exc(limit=-5)
    if r['error'] and u.search_on_error:
        # the verifier has no verdict: look for an input of the real code that breaks the contract
        try:
            d = u.search(getenv(), seed)
            if d: r['obls'].append({'fn': u.fn, 'label': d['label'], 'kind': 'post', 'status': 'cex', 'by': None, 'secs': 0, 'replay': d})
        except Exception: r['trace2'] = traceback.format_exc(limit=-3)
    r['secs'] = round(time.time() - t0, 2)
    r['solver'] = {'s': round(solve.STATS['solver_s'], 2), 'queries': solve.STATS['queries'], 'by': dict(solve.STATS['by'])}
    return r

def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l[len('known: property=%s ' % pid):]
                key, _, what = rest.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out

def main(prop, tier=None):
    global _prop
    _prop = prop
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = prop.pid
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rdir = os.path.join(V, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    p = subprocess.run([os.path.join(V, 'setup.sh'), 'mir'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        rp = os.path.join(rdir, pid + '.txt')
        open(rp, 'wb').write(b'The crate could not be brought to the verifier (extraction failed), so no obligation of this property is discharged.\n' + p.stdout)
        write_evidence(prop, tier, seed, [], t0, 1, ['extraction failed'])
        print(p.stdout.decode(errors='replace')[-1500:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    solve.DEADLINE[0] = t0 + (600 if tier != 'thorough' else 3000)
    secs = prop.secs * (3 if tier == 'thorough' else 1)
    getenv()
    n = len(prop.units)
    workers = min(8, n)
    threads = max(1, 12 // workers)
    jobs = [(i, secs, threads, tier, seed) for i in range(n)]
    jobs.sort(key=lambda j: -getattr(prop.units[j[0]], 'weight', 1))
    if n == 1 or os.environ.get('MIRV_SERIAL'): res = [run_unit(j) for j in jobs]
    else:
        res = []
        with mp.get_context('fork').Pool(workers, maxtasksperchild=4) as pool:
            ars = [(j, pool.apply_async(run_unit, (j,))) for j in jobs]
            for j, a in ars:
                try: res.append(a.get(max(1, solve.DEADLINE[0] + 130 - time.time())))
                except mp.TimeoutError:
                    u = prop.units[j[0]]
                    res.append({'unit': u.name, 'fn': u.fn, 'obls': [], 'error': 'no verdict within the time budget', 'inlined': [], 'contracts': [], 'unknown_calls': {}, 'trusted': {}, 'reach': None, 'bounded': None, 'secs': round(time.time() - t0, 1)})
            pool.terminate()
    kf = known_findings(pid)
    viol = []
    for r in res:
        if r['error']: viol.append((r, None))
        elif not r['obls']: r['error'] = 'no obligation was generated'; viol.append((r, None))
        elif r['reach'] == 'unreachable': r['error'] = 'vacuous: no normal return is reachable under the precondition'; viol.append((r, None))
        for o in r['obls']:
            if o['status'] != 'proved': viol.append((r, o))
    new = []
    for r, o in viol:
        key = '%s: %s' % (r['unit'], o['label'] if o else r['error'])
        hit = [w for k, w in kf if k == key]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else: new.append((r, o, key))
    write_evidence(prop, tier, seed, res, t0, len(new), [k for _, _, k in new])
    for r in res:
        print('%-44s %3d obligations, %3d discharged, %.1fs%s' % (r['unit'], len(r['obls']), sum(o['status'] == 'proved' for o in r['obls']), r['secs'], ' ERROR ' + r['error'] if r['error'] else ''))
    if new:
        rp = os.path.join(rdir, pid + '.json')
        found = [x for x in new if x[1] and x[1].get('replay')]
        lead = found[0] if found else new[0]
        json.dump({'property': pid, 'lead': lead[2], 'violations': [{'unit': r['unit'], 'function': r['fn'], 'obligation': o['label'] if o else None, 'kind': o['kind'] if o else 'unit', 'solver': o.get('detail') if o else None, 'replay': o.get('replay') if o else None, 'error': r['error'], 'trace': r.get('trace'), 'replay_error': o.get('replay_error') if o else None} for r, o, k in ([lead] + [x for x in new if x is not lead])]}, open(rp, 'w'), indent=1, default=jsonable)
        for r, o, k in new[:12]: print('FAILED %s%s' % (k, ' -- failing input found' if o and o.get('replay') else ''))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        return 1
    return 0

BASE_ASSUMPTIONS = [
 'partial correctness: claims are about calls that return Ok; an error or a panic (arithmetic overflow, failed assertion, index out of range) aborts the Solana transaction and rolls every write back',
 'the Rust compiler: the contracts are checked against the MIR that rustc produces for /repo\'s current source (nightly front end, overflow checks on), not against the BPF binary',
 'the fixed crate\'s I80F48 arithmetic is modelled as exact integer arithmetic on the raw bits (mul rounds down, div truncates, overflow panics); f32/f64 are modelled as real numbers',
 'logging, event emission and message formatting have no effect on state',
]
def write_evidence(prop, tier, seed, res, t0, nviol, viol):
    obls = [o for r in res for o in r['obls']]
    inl = sorted({f for r in res for f in r['inlined']})
    by = {}
    for r in res:
        for k, v in r.get('solver', {}).get('by', {}).items(): by[k] = by.get(k, 0) + v
    unk = {}
    for r in res:
        for k, v in r['unknown_calls'].items(): unk[k] = unk.get(k, 0) + v
    tr = {}
    for r in res: tr.update(r['trusted'])
    used = sorted(k for k, n in intr.TRUSTED.items())
    bounded = [r['unit'] + ': ' + r['bounded'] for r in res if r['bounded']]
    ev = {'property': prop.pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(obls), 'discharged': sum(o['status'] == 'proved' for o in obls),
                       'checker_cmd': './check %s (mirx -> mirv -> z3/cvc5)' % prop.pid,
                       'trusted_base': ['mirx MIR extraction', 'mirv verification condition generator', 'z3, cvc5'] + ['assumed contract: %s%s' % (k, ' -- ' + v if v else '') for k, v in sorted(tr.items())],
                       'functions_under_contract': sorted({r['fn'] for r in res}),
                       'callees_verified_inline': inl,
                       'modular_contracts_used': sorted({c for r in res for c in r['contracts']}),
                       'discharged_by_backend': by,
                       'solver_seconds': round(sum(r.get('solver', {}).get('s', 0) for r in res), 1),
                       'solver_queries': sum(r.get('solver', {}).get('queries', 0) for r in res),
                       'units': [{'unit': r['unit'], 'function': r['fn'], 'obligations': len(r['obls']), 'discharged': sum(o['status'] == 'proved' for o in r['obls']), 'reachability': r['reach'], 'seconds': r['secs'], 'slowest_obligation_s': max([o['secs'] for o in r['obls']] or [0])} for r in res],
                       'bounded_stand_ins': bounded,
                       'external_calls_havocked': unk, 'failed': viol},
          'assumptions': BASE_ASSUMPTIONS + prop.assumptions,
          'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    with open(os.path.join(V, 'evidence', prop.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=jsonable)
