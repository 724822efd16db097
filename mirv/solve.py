"""Discharging obligations: SMT-LIB export, solver portfolio, models, feasibility queries."""
import subprocess, os, re, hashlib, time, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import term as t
from .term import Term, isc

def num(x, real):
    if isinstance(x, bool): return 'true' if x else 'false'
    if isinstance(x, Fraction) or real:
        x = Fraction(x)
        n, d = x.numerator, x.denominator
        s = '(/ %d.0 %d.0)' % (abs(n), d) if d != 1 else '%d.0' % abs(n)
        return '(- %s)' % s if n < 0 else s
    return '(- %d)' % -x if x < 0 else str(x)

def nonlinear(xs): return sum(1 for x in t.subterms(xs).values() if x.op in ('mul', 'app:fxmul', 'app:tdiv'))
def collect(asserts, depth=3, axioms=True):
    """asserts + range facts + defining axioms for the applications in them"""
    out = list(asserts)
    done = set()
    frontier = list(asserts)
    for _ in range(depth):
        sub = t.subterms(frontier)
        frontier = []
        for x in sub.values():
            if x.id in done: continue
            done.add(x.id)
            r = None
            if x.op == 'var': r = t.RANGE.get(x.args[0])
            elif x.op.startswith('app:'):
                if has_bound(x): continue
                r = t.RANGE.get(x.op)
                if axioms: frontier += [a for a in t.axioms_for(x) if not isc(a)]
            if r:
                if r[0] is not None: frontier.append(t.mk('le', (r[0], x), 'Bool'))
                if r[1] is not None: frontier.append(t.mk('le', (x, r[1]), 'Bool'))
        if not frontier: break
        out += frontier
    return out

_hb = {}
def has_bound(x):
    if isc(x): return False
    r = _hb.get(x.id)
    if r is None:
        if x.op == 'var': r = x.args[0].startswith('?')
        else: r = any(has_bound(a) for a in x.args)
        _hb[x.id] = r
    return r

def sym(n):
    return '|%s|' % n

def to_smt(asserts, real=False, uf=False):
    """-> (text, vars).  real=True: relaxation of every Int to Real (sound for unsat); uf=True: products are uninterpreted (ditto)."""
    subs = t.subterms(asserts)
    # ids of terms under quantifiers that contain bound variables cannot be let-shared globally
    decls = {}
    lines = []
    name = {}
    extra = []
    S = 'Real' if real else None
    def srt(s): return 'Real' if (real and s == 'Int') else s
    def ref(x):
        if isc(x): return num(x, real and not isinstance(x, bool))
        if has_bound(x): return expr(x)
        return name[x.id]
    def expr(x):
        op, A = x.op, x.args
        if op == 'var':
            return sym(A[0])
        if op == 'sum':
            rl = real or x.sort == 'Real'
            ps = [] if A[0] == 0 else [num(A[0], rl)]
            for i in range(1, len(A), 2):
                k = A[i + 1]; r = ref(A[i])
                ps.append(r if k == 1 else ('(- %s)' % r if k == -1 else '(* %s %s)' % (num(k, rl), r)))
            return '(+ %s)' % ' '.join(ps) if len(ps) > 1 else ps[0]
        if op == 'mul':
            if uf:
                f = 'umul%d%s' % (len(A), x.sort)
                if f not in decls: decls[f] = '(declare-fun %s (%s) %s)' % (f, ' '.join(srt(t.sort(a)) for a in A), srt(x.sort))
                return '(%s %s)' % (f, ' '.join(ref(a) for a in A))
            return '(* %s)' % ' '.join(ref(a) for a in A)
        if op in ('and', 'or', 'not'): return '(%s %s)' % (op, ' '.join(ref(a) for a in A))
        if op == 'ite': 
            rl = x.sort == 'Real'
            return '(ite %s %s %s)' % (ref(A[0]), num(A[1], rl or real and not isinstance(A[1], bool)) if isc(A[1]) else ref(A[1]), num(A[2], rl or real and not isinstance(A[2], bool)) if isc(A[2]) else ref(A[2]))
        if op in ('eq', 'le'):
            rl = any(t.sort(a) == 'Real' for a in A)
            rs = [num(a, rl or (real and not isinstance(a, bool))) if isc(a) else ref(a) for a in A]
            return '(%s %s)' % ('=' if op == 'eq' else '<=', ' '.join(rs))
        if op == 'div':
            if real: return aux(x)
            return '(div %s %s)' % (ref(A[0]), num(A[1], False))
        if op == 'mod':
            if real: return aux(x)
            return '(mod %s %s)' % (ref(A[0]), num(A[1], False))
        if op == 'to_real':
            return ref(A[0]) if real else '(to_real %s)' % ref(A[0])
        if op == 'to_int':
            if real: return aux(x)
            return '(to_int %s)' % ref(A[0])
        if op == 'forall':
            bs = ' '.join('(%s %s)' % (sym(v.args[0]), srt(v.sort)) for v in A[:-1])
            return '(forall (%s) %s)' % (bs, ref(A[-1]))
        if op.startswith('app:'):
            if real and not quant: return aux(x)
            f = op
            if f not in decls:
                decls[f] = '(declare-fun %s (%s) %s)' % (sym(f), ' '.join(srt(t.sort(a)) for a in A), srt(x.sort))
            if not A: return sym(f)
            return '(%s %s)' % (sym(f), ' '.join(ref(a) for a in A))
        raise ValueError(op)
    def aux(x):
        v = '%%%d' % x.id
        decls[v] = '(declare-const %s %s)' % (sym(v), 'Bool' if x.sort == 'Bool' else 'Real')
        if x.op == 'div':
            a = ref(x.args[0]); k = num(x.args[1], True)
            extra.append('(assert (and (<= (* %s %s) %s) (<= %s (+ (* %s %s) %s))))' % (k, sym(v), a, a, k, sym(v), num(x.args[1] - 1, True)))
        elif x.op == 'mod':
            extra.append('(assert (and (<= 0.0 %s) (<= %s %s)))' % (sym(v), sym(v), num(x.args[1] - 1, True)))
        elif x.op == 'to_int':
            a = ref(x.args[0])
            extra.append('(assert (and (<= %s %s) (<= %s (+ %s 1.0))))' % (sym(v), a, a, sym(v)))
        return sym(v)
    quant = any(x.op == 'forall' for x in subs.values())
    order = sorted(subs.values(), key=lambda x: x.id)
    vs = []
    body = []
    for x in order:
        if x.op == 'var':
            name[x.id] = sym(x.args[0])
            if x.args[0].startswith('?'): continue
            decls[x.args[0]] = '(declare-const %s %s)' % (sym(x.args[0]), srt(x.sort))
            vs.append(x)
            continue
        if has_bound(x) and x.op != 'forall': continue
        if x.op == 'forall' and has_bound_free(x): continue
        n0 = len(extra)
        # real relaxation of strict integer comparison: not(le(b,a)) -> a + 1 <= b
        if real and x.op == 'not' and not isc(x.args[0]) and x.args[0].op == 'le' and all(t.sort(a) == 'Int' for a in x.args[0].args):
            b, a = x.args[0].args
            e = '(<= (+ %s 1.0) %s)' % (ref(a), ref(b))
        else:
            e = expr(x)
        if x.op in ('not',) and not real:
            pass
        n = '$%d' % x.id
        for z in extra[n0:]: body.append(z)
        body.append('(define-fun %s () %s %s)' % (n, srt(x.sort), e))
        name[x.id] = n
    text = '\n'.join(decls.values()) + '\n' + '\n'.join(body) + '\n'
    for a in asserts:
        if isc(a):
            if not a: text += '(assert false)\n'
            continue
        text += '(assert %s)\n' % ref(a)
    return text, vs

def has_bound_free(x):
    """a bound variable occurs outside of the scope of its quantifier"""
    def go(y, bound):
        if isc(y) or not has_bound(y): return False
        if y.op == 'var': return y.id not in bound
        if y.op == 'forall': return go(y.args[-1], bound | {v.id for v in y.args[:-1]})
        return any(go(a, bound) for a in y.args)
    return go(x, frozenset())

def closed_forall(x): return x.op == 'forall' and not has_bound_free(x)
_skol = {}
def elem_of(x, k): return t.SUMS[x.op[9:]][0](*x.args[:-1], k)
def expand(asserts, rounds=4, limit=80, ext=False):
    """replace every universal statement by a proposition with its instances at the index terms that occur, and unfold
    partial sums; equivalid for unsat answers (instances and Skolem witnesses are consequences of the definitions)"""
    subs = t.subterms([a for a in asserts if not isc(a)])
    if not any(x.op == 'forall' or x.op.startswith('app:psum:') for x in subs.values()): return list(asserts)
    out = list(asserts); done = set(); inst = {}
    def strip(a):
        if isc(a): return a
        m = {}
        for x in t.subterms([a]).values():
            if closed_forall(x): m[x.id] = t.var('all!%d' % x.id, 'Bool')
        if not m: return a
        fs = {x.id: x for x in t.subterms([a]).values() if x.id in m}
        known.update(fs)
        return t.subst(a, m)
    known = {}
    out = [strip(a) for a in out]
    sums = {}
    for _ in range(rounds):
        new = []
        ground = {}
        for x in t.subterms(out).values():
            if not x.op.startswith('app:') or has_bound(x): continue
            if ext and x.op.startswith('app:psum:') and not isc(x.args[-1]) and (x.id, 'x') not in done:
                # sums over the same range with equal elements are equal
                done.add((x.id, 'x'))
                for y in sums.setdefault(x.args[-1].id, []):
                    if len(y.args) and x.sort == y.sort and len(done) < 4000 and (x.op != y.op or x.args != y.args):
                        k = t.var('sk!%d.%d' % (x.id, y.id)); new.append(t.or_(t.eq(x, y), t.and_(t.le(0, k), t.lt(k, x.args[-1]), t.ne(elem_of(x, k), elem_of(y, k)))))
                sums[x.args[-1].id].append(x)
            ground.setdefault(x.op, []).append(x)
            if x.op.startswith('app:psum:') and x.id not in done:
                done.add(x.id); new += t.psum_def(x)
        for fid, F in list(known.items()):
            B = t.var('all!%d' % fid, 'Bool')
            if fid not in done:
                done.add(fid)
                sk = {v.id: t.var('sk!%d.%d' % (fid, i), v.sort) for i, v in enumerate(F.args[:-1])}
                new.append(t.or_(B, t.not_(t.subst(F.args[-1], sk))))
            if len(F.args) != 2: raise ValueError('universal statement over several variables')
            v = F.args[0]
            cands = {}
            for x in t.subterms([F.args[-1]]).values():
                if not x.op.startswith('app:'): continue
                for pos, a in enumerate(x.args):
                    if isc(a) or not has_bound(a): continue
                    c, d = t.lin(a)
                    if len(d) == 1 and d.get(v) == 1:
                        for g in ground.get(x.op, ()):
                            if len(g.args) > pos:
                                e = t.sub(g.args[pos], c); cands[e if isc(e) else ('t', e.id)] = e
            seen = inst.setdefault(fid, set())
            for k, e in cands.items():
                if k in seen or len(seen) >= limit: continue
                seen.add(k)
                new.append(t.or_(t.not_(B), t.subst(F.args[-1], {v.id: e})))
        new = [strip(a) for a in new if a is not True]
        if not new: break
        out += new
    return out

_vs = {}
def coi(hyps, goal, rounds=99):
    """cone of influence: hypotheses connected to the goal through shared variables"""
    def vs(x):
        r = _vs.get(x.id)
        if r is None: r = _vs[x.id] = frozenset(y.id if y.op == 'var' else y.op for y in t.subterms([x]).values() if y.op == 'var' or y.op.startswith('app:'))
        return r
    hv = [(h, vs(h)) for h in hyps if not isc(h)]
    cur = set(vs(goal)) if not isc(goal) else set()
    picked = set()
    for _ in range(rounds):
        ch = False
        for i, (h, v) in enumerate(hv):
            if i not in picked and (v & cur or not v):
                picked.add(i); 
                if v - cur: cur |= v
                ch = True
        if not ch: break
    return [hv[i][0] for i in sorted(picked)]

DEADLINE = [float('inf')]          # wall clock time after which obligations stay undecided
STATS = {'solver_s': 0.0, 'queries': 0, 'by': {}}
FAST = [False]                     # only the quick stages
_lock = threading.Lock()
TMP = os.environ.get('MIRV_TMP', '/tmp')
SOLVERS = {
    'z3': lambda f, s: ['z3-new', '-T:%d' % max(1, int(s)), f],
    'cvc5': lambda f, s: ['cvc5', '--tlimit=%d' % int(s * 1000), '--nl-ext-tplanes', f],
    'z3old': lambda f, s: ['z3', '-T:%d' % max(1, int(s)), f],
}
def run_solver(kind, text, secs):
    t0 = time.time()
    fd, fn = tempfile.mkstemp(suffix='.smt2', dir=TMP); os.close(fd)
    with open(fn, 'w') as f: f.write(text)
    try:
        p = subprocess.run(SOLVERS[kind](fn, secs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 5)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(fn)
    with _lock:
        STATS['solver_s'] += time.time() - t0; STATS['queries'] += 1
    first = out.strip().split('\n')[0] if out.strip() else 'unknown'
    if first.startswith('(error') and 'unsat' not in out.split(): first = 'error ' + first
    return first, out

def parse_vals(out):
    """parse z3/cvc5 (get-value ...) output -> {name: int/bool/Fraction}"""
    toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', out)
    i = 0
    def parse():
        nonlocal i
        if toks[i] == '(':
            i += 1; l = []
            while toks[i] != ')': l.append(parse())
            i += 1
            return l
        x = toks[i]; i += 1
        return x
    def val(e):
        if isinstance(e, str):
            if e == 'true': return True
            if e == 'false': return False
            if '.' in e:
                f = Fraction(e.rstrip('?')); return f
            return int(e)
        if e[0] == '-': return -val(e[1]) if len(e) == 2 else val(e[1]) - val(e[2])
        if e[0] == '/': return Fraction(val(e[1])) / Fraction(val(e[2]))
        raise ValueError(e)
    res = {}
    try:
        j = out.index('((')
        toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', out[j:])
        for k, v in parse():
            try: res[k.strip('|')] = val(v)
            except Exception: pass
    except Exception:
        pass
    return res

def prove(hyps, goal, secs=20, want_model=True, log=None):
    r = prove1(hyps, goal, secs, want_model, log)
    if r[0] != 'proved' and not FAST[0]:
        n = sum(1 for x in t.subterms([h for h in list(hyps) + [goal] if not isc(h)]).values() if x.op.startswith('app:psum:'))
        if n > 1:
            r2 = prove1(hyps, goal, secs, want_model, log, True)
            if r2[0] == 'proved': return r2
    return r
def sweep(hyps, g, pairs=40, secs=2):
    """products and quotients in g with provably equal operands are made the same term, innermost first"""
    for _ in range(12):
        xs = sorted((x for x in t.subterms([g]).values() if x.op in ('app:fxmul', 'app:tdiv', 'mul') and not has_bound(x)), key=lambda x: x.id)
        hit = False
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                if x.op != y.op or len(x.args) != len(y.args) or DEADLINE[0] - time.time() < 1: continue
                alts = [y.args] if x.op == 'app:tdiv' or len(y.args) != 2 else [y.args, y.args[::-1]]
                for A in alts:
                    ps = [(a, b) for a, b in zip(x.args, A) if a is not b]
                    if any(isc(a) or isc(b) for a, b in ps) or (x.id, y.id, len(hyps), A) in _swept or pairs <= 0: continue
                    if len(A) == 2 and len(ps) == 2 and x.op != 'app:tdiv': continue         # one operand in common
                    _swept.add((x.id, y.id, len(hyps), A)); pairs -= 1
                    if all(uf_equal(hyps, a, b, secs) for a, b in ps): hit = True; break
                if hit: break
            if hit: break
        if not hit: return g
        g = replace(g, y, x)
        if isc(g): return g
    return g
_swept = set()
def replace(g, y, x):
    memo = {y.id: x}
    def go(z):
        if isc(z) or z.op == 'var': return memo.get(z.id, z) if not isc(z) else z
        r = memo.get(z.id)
        if r is None:
            A = [go(a) if isinstance(a, Term) else a for a in z.args]
            r = memo[z.id] = z if all(p is q for p, q in zip(A, z.args)) else t.rebuild(z.op, A, z.sort)
        return r
    return go(g)
def uf_equal(hyps, a, b, secs):
    d = t.not_(t.eq(a, b))
    if d is False: return True
    if isc(d): return False
    for hs in (coi(hyps, d, 2), hyps):
        text, vs = to_smt(collect(hs + [d], axioms=False), False, True)
        if run_solver('z3', text + '(check-sat)', secs)[0] == 'unsat': return True
    return False
def prove1(hyps, goal, secs=20, want_model=True, log=None, ext=False):
    """-> ('proved', backend) | ('cex', model) | ('unknown', detail)"""
    if goal is True: return ('proved', 'fold')
    ng = t.not_(goal)
    if ng is True and not [h for h in hyps if not isc(h)]:
        return ('unknown', 'goal is false')
    if any(h is False for h in hyps): return ('proved', 'fold')
    ex = expand([h for h in hyps if not isc(h)] + [ng], ext=ext)
    k = len([h for h in hyps if not isc(h)])
    ng = ex[k]; ex = ex[:k] + ex[k + 1:]
    if any(h is False for h in ex): return ('proved', 'fold')
    hy = coi(ex, ng)
    asserts = collect(hy + [ng])
    def q(kind, real, secs, pre='', model=False):
        text, vs = to_smt(collect(hy + [ng], axioms=False) if real == 'uf' else asserts, real is True, real == 'uf')
        cmd = '(check-sat)'
        if pre: cmd = '(check-sat-using %s)' % pre
        hdr = '(set-logic ALL)\n' if kind == 'cvc5' else ''
        if kind == 'cvc5' and model: hdr = '(set-option :produce-models true)\n' + hdr
        tail = '\n(get-value (%s))\n' % ' '.join(sym(v.args[0]) for v in vs if v.sort in ('Int', 'Bool', 'Real')) if model and vs else ''
        return run_solver(kind, hdr + text + cmd + tail, secs)
    stages = [('z3', False, min(secs, 4), '', True),
              ('z3', True, min(secs, 6), '', False),
              ('cvc5', False, min(secs, 8), '', False),
              ('z3', True, secs, 'qfnra-nlsat', False),
              ('z3', False, secs, '', True),
              ('cvc5', True, secs, '', False)]
    if nonlinear(asserts) > 12: stages.insert(0, ('z3', 'uf', min(secs, 6), '', False))
    last = ''; swept = False
    if FAST[0]: stages = [x for x in stages if x[0] != 'cvc5' and not x[4 - 1]][:3]
    for kind, real, s, pre, model in stages:
        if kind == 'cvc5' and not swept:
            swept = True; g2 = sweep(hy, ng)
            if g2 is not ng:
                if g2 is False: return ('proved', 'sweep')
                r = prove1(hy, t.not_(g2), secs, False, log, ext)
                if r[0] == 'proved': return r
        left = DEADLINE[0] - time.time()
        if left < 1: break
        r, out = q(kind, real, min(s, left), pre, model)
        if r == 'unsat':
            b = kind + ('-uf' if real == 'uf' else '-real' if real else '') + ('-nlsat' if pre else '')
            with _lock: STATS['by'][b] = STATS['by'].get(b, 0) + 1
            return ('proved', b)
        if r == 'sat' and not real:
            if model: return ('cex', parse_vals(out))
            r2, out2 = q(kind, False, secs, '', True)
            return ('cex', parse_vals(out2) if r2 == 'sat' else {})
        last = r
        if r.startswith('error'): last = r
        if log and r.startswith('error'): log('solver error: ' + out[:300])
    return ('unknown', last)

def model_of(asserts_in, secs=10, fix=(), seed=0):
    """a full model of a conjunction: {var: value, (fun, args..): value} or None"""
    asserts = collect(expand([a for a in list(asserts_in) + list(fix) if not isc(a)]))
    if any(a is False for a in list(asserts_in) + list(fix)): return None
    text, vs = to_smt(asserts, False)
    subs = t.subterms(asserts)
    apps = [x for x in subs.values() if x.op.startswith('app:') and not has_bound(x) and x.op not in ('app:fxmul', 'app:tdiv', 'app:rdiv')]
    terms = [v for v in vs if v.sort in ('Int', 'Bool', 'Real')] + apps
    for x in apps: terms += [a for a in x.args if not isc(a)]
    terms = list({x.id: x for x in terms}.values())
    ext = to_smt(asserts + [t.mk('eq', (x, x), 'Bool') for x in terms], False)[0] if False else text
    # name the terms through fresh definitions
    names = {}
    eqs = []
    for i, x in enumerate(terms):
        if x.op == 'var': names['|%s|' % x.args[0]] = x; continue
        v = t.var('mv!%d' % x.id, x.sort); eqs.append(t.mk('eq', (v, x), 'Bool')); names['|mv!%d|' % x.id] = x
    text, vs = to_smt(asserts + eqs, False)
    get = ' '.join(names)
    pre = '(set-option :smt.random_seed %d)\n(set-option :smt.arith.random_initial_value %s)\n' % (seed, 'true' if seed else 'false')
    r, out = run_solver('z3', pre + text + '(check-sat)\n' + ('(get-value (%s))\n' % get if get else ''), secs)
    if r != 'sat': return None
    vals = parse_vals(out)
    val = {}
    for n, x in names.items():
        if n.strip('|') in vals: val[x.id] = vals[n.strip('|')]
    m = {}
    for n, x in names.items():
        if x.id not in val: continue
        if x.op == 'var': m[x.args[0]] = val[x.id]
        else:
            try: m[(x.op[4:],) + tuple(a if isc(a) else val[a.id] for a in x.args)] = val[x.id]
            except KeyError: pass
    return m

# ---- in-process feasibility ---------------------------------------------------------------------
import z3
z3.set_param('smt.random_seed', 1)
_z = {}
def toz(x):
    if isc(x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if isinstance(x, int): return z3.IntVal(x)
        return z3.RealVal(str(x))
    st = [x]
    while st:
        y = st[-1]
        if y.id in _z: st.pop(); continue
        need = [a for a in y.args if isinstance(a, Term) and a.id not in _z]
        if need: st += need; continue
        st.pop()
        _z[y.id] = conv(y)
    return _z[x.id]
_zs = {'Int': z3.IntSort(), 'Bool': z3.BoolSort(), 'Real': z3.RealSort()}
def conv(y):
    op, A = y.op, y.args
    g = lambda a: toz(a) if isc(a) else _z[a.id]
    if op == 'var': return z3.Const(A[0], _zs[y.sort])
    if op == 'sum':
        r = None if A[0] == 0 else g(A[0] if y.sort == 'Int' else Fraction(A[0]))
        for i in range(1, len(A), 2):
            e = g(A[i]); k = A[i + 1]
            e = e if k == 1 else (g(k if y.sort == 'Int' else Fraction(k)) * e)
            r = e if r is None else r + e
        return r
    if op == 'mul':
        r = g(A[0])
        for a in A[1:]: r = r * g(a)
        return r
    if op == 'not': return z3.Not(g(A[0]))
    if op == 'and': return z3.And(*[g(a) for a in A])
    if op == 'or': return z3.Or(*[g(a) for a in A])
    if op == 'ite': return z3.If(g(A[0]), g(A[1]), g(A[2]))
    if op == 'eq': return g(A[0]) == g(A[1])
    if op == 'le': return g(A[0]) <= g(A[1])
    if op == 'div': return g(A[0]) / g(A[1])
    if op == 'mod': return g(A[0]) % g(A[1])
    if op == 'to_real': return z3.ToReal(g(A[0]))
    if op == 'to_int': return z3.ToInt(g(A[0]))
    if op == 'forall': return z3.ForAll([g(a) for a in A[:-1]], g(A[-1]))
    f = z3.Function(op, *([_zs[t.sort(a)] for a in A] + [_zs[y.sort]]))
    return f(*[g(a) for a in A])

_feas = {}
def feasible(pc, ms=60):
    if any(p is False for p in pc): return False
    key = frozenset(p.id for p in pc if not isc(p))
    r = _feas.get(key)
    if r is not None: return r
    s = z3.Solver(); s.set('timeout', ms)
    for a in collect(expand([p for p in pc if not isc(p)], 2, 12)):
        if not isc(a): s.add(toz(a))
    t0 = time.time()
    r = s.check() != z3.unsat
    with _lock: STATS['solver_s'] += time.time() - t0
    _feas[key] = r
    return r
