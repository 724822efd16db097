"""Verification units: a contract on one function, its obligations, and their discharge."""
import time, os, traceback
from concurrent.futures import ThreadPoolExecutor
from . import term as t, solve, mir as mirmod, sym, intr, acct, dyna, exec as E
from .val import *

class Env:
    """the loaded program, shared by the units of one run"""
    def __init__(self, path):
        self.mir = mirmod.Mir(path)
        self.univ = sym.Univ(self.mir)
        self.intr = intr.build(self.mir)
        self.univ.custom_sym.update(acct.SYM); self.univ.custom_sym.update(dyna.SYM)

class Unit:
    def __init__(self, fn, requires=None, ensures=None, name=None, contracts=None, loops=None, split=False,
                 overrides=None, on_err=False, key=None, args=None, ghost=None, ok_reach=True, secs=None, setup=None,
                 no_panic=None, replay=None, feas_ms=60, hooks=None, prune=True, custom=None, unroll=None, calls=None,
                 weight=1, search_on_error=True, bounded=None, pools=None, sample=None):
        self.fn = fn; self.requires = requires; self.ensures = ensures; self.name = name or fn.split('::')[-1]
        self.contracts = contracts or {}; self.loops = loops or {}; self.split = split
        self.overrides = overrides or {}; self.on_err = on_err; self.key = key; self.args = args; self.ghost = ghost
        self.ok_reach = ok_reach; self.secs = secs; self.setup = setup; self.no_panic = no_panic; self.replay = replay
        self.feas_ms = feas_ms; self.hooks = hooks or {}; self.prune = prune; self.custom = custom; self.unroll = unroll
        self.weight = weight; self.search_on_error = search_on_error; self.bounded = bounded; self.pools = pools or {}; self.sample = sample      # sample(rng): a likely input (values by input name)

    def generate(self, env):
        """-> (obligations, info)"""
        M = env.mir
        env.univ.acct_cells = {}
        key = self.key(M) if callable(self.key) else (self.key or M.fn(self.fn))
        ex = E.Exec(env.univ, env.intr, self.contracts, self.loops, prune=self.prune, feas_ms=self.feas_ms)
        ex.overrides = dict(self.overrides); ex.hooks = dict(self.hooks)
        if self.unroll: ex.default_unroll = self.unroll
        if self.no_panic: ex.collect_panics = True
        b = M.bodies[key]; body = b['body']
        ex.skip = b['def']
        if self.split: ex.split = set([b['def']] if self.split is True else self.split)
        st = E.State()
        if self.ghost: st.ghost = dict(self.ghost)
        args = []
        for i in range(body['args']):
            nm = [n for n, p in body['names'] if p == [i + 1]]
            nm = nm[0] if nm else 'arg%d' % i
            args.append(env.univ.sym(body['locals'][i + 1], '%s' % nm))
        if self.setup:
            r = self.setup(ex, st, args, M, key)
            if r is not None: args = r
        ctx0 = E.CallCtx(ex, key, st, st, args, None)
        if self.requires:
            for lab, g in self.requires(ctx0): st.assume(g)
        old = st.copy()
        res = ex.run(key, st, args)
        obls = []
        ok = []
        for i, (s, v) in enumerate(res):
            c = E.CallCtx(ex, key, s, old, args, v)
            is_result = M.types[c.ret_ty]['disp'].startswith('std::result::Result<')
            if is_result and not self.on_err:
                okc = View_ok(c)
                if okc is False: continue
                s.assume(okc)
            ok.append(s)
            for lab, g in (self.ensures(c) if self.ensures else []):
                o = E.Obl(self.fn, lab, s.pc, g, 'post'); o.ctx = (key, args, old, s, v, ex)
                obls.append(o)
        for o in ex.obls:
            if o.ctx is None: o.ctx = (key, args, old, None, None, ex)
        if self.no_panic:
            for pc, bad, where, line, what in ex.panics:
                if self.no_panic is True or self.no_panic(where, what):
                    o = E.Obl(self.fn, 'no panic: %s at %s:%s' % (what, where.split('::')[-1], line), pc, t.not_(bad), 'panic')
                    o.ctx = (key, args, old, None, None, ex)
                    obls.append(o)
        if self.custom:
            obls += self.custom(ex, key, args, old, res)
        self.last_env = env
        info = {'ex': ex, 'key': key, 'args': args, 'old': old, 'res': res, 'ok': ok, 'requires': st}
        return ex.obls + obls, info

    # ---- counterexamples: concrete execution of the same MIR, contract evaluated as an oracle
    def concrete(self, env, model, limit=4000):
        """run the function on concrete inputs -> (status, details);  status: 'violates' | 'holds' | 'precondition' | 'rolls back' | 'undecided'"""
        u = sym.Univ(env.mir); u.model = model; u.used_inputs = {}; u.pending = {}
        u.custom_sym = env.univ.custom_sym
        M = env.mir
        key = self.key(M) if callable(self.key) else (self.key or M.fn(self.fn))
        ex = E.Exec(u, env.intr, {}, {}, prune=False, feas_ms=50)
        ex.overrides = dict(self.overrides); ex.hooks = dict(self.hooks); ex.default_unroll = limit
        ex.contracts = {k: v for k, v in self.contracts.items() if v.trusted or v.concrete}
        ex.concrete = True
        b = M.bodies[key]; body = b['body']; ex.skip = b['def']
        st = E.State(); 
        if self.ghost: st.ghost = dict(self.ghost)
        args = []
        for i in range(body['args']):
            nm = [n for n, p in body['names'] if p == [i + 1]]
            args.append(u.sym(body['locals'][i + 1], '%s' % (nm[0] if nm else 'arg%d' % i)))
        if self.setup:
            r = self.setup(ex, st, args, M, key)
            if r is not None: args = r
        c0 = E.CallCtx(ex, key, st, st, args, None)
        for lab, g in (self.requires(c0) if self.requires else []):
            gs = g if isinstance(g, (list, tuple)) else [g]
            for x in gs:
                if x is not True:
                    self.seen_inputs = list(u.used_inputs); return 'precondition', str(lab)
        for x in st.pc:
            if x is not True: return 'precondition', 'setup'
        old = st.copy()
        try: res = ex.run(key, st, args)
        finally: self.seen_inputs = list(u.used_inputs)
        und = None
        for s, v in res:
            pc = [p for p in s.pc if p is not True]
            if any(p is False for p in pc): continue
            c = E.CallCtx(ex, key, s, old, args, v)
            if M.types[c.ret_ty]['disp'].startswith('std::result::Result<') and not self.on_err:
                okc = View_ok(c)
                if okc is False: return 'rolls back', 'Err'
                if okc is not True: und = 'result'; continue
            if pc and not solve.feasible(pc, 200): continue
            for lab, g in (self.ensures(c) if self.ensures else []):
                if g is False and not pc: return 'violates', {'label': lab, 'inputs': dict(u.used_inputs)}
                if g is not True: und = lab
            if pc and und is None: und = 'path condition'
            if und is None: return 'holds', None
        if und: return 'undecided', str(und)
        return 'rolls back', 'panic or no path'
    def trial(self, env, model):
        try: return self.concrete(env, model)
        except (Unsupported, KeyError, ValueError, TypeError, AttributeError, RecursionError) as e: return 'undecided', repr(e)
    def pack(self, d, how):
        return {'label': d['label'], 'how': how, 'inputs': {(k if isinstance(k, str) else '%s[%s]' % (k[0], ','.join(map(str, k[1:])))): (v if isinstance(v, (int, bool)) else str(v)) for k, v in d['inputs'].items()}}
    def rand_fix(self, rng, vs):
        out = []
        for v in vs:
            if rng.random() < 0.5: continue
            n = v.args[0]; lo, hi = t.RANGE.get(n, (None, None))
            if v.sort == 'Bool': c = rng.random() < 0.5
            elif n.endswith('.len'): c = rng.randint(0, 3)
            elif v.sort == 'Real': c = t.Fraction(rng.choice([0, 1, 2, -1, '1/2', '3/2', '11/10', '9/10', '1/100']))
            else:
                one = 1 << 48
                if hi is not None and hi < (1 << 32): c = rng.choice([0, 1, 2, 3, rng.randint(0, 300)])
                else: c = rng.choice([0, 1, one, one * rng.randint(1, 50), one * rng.randint(1, 1000) // 100, rng.randint(0, 1000), one * rng.randint(1, 1 << 20), -one * rng.randint(1, 1000) // 10, -one, rng.randint(0, 1 << 40)])
                if lo is not None: c = max(lo, min(hi, c))
            out.append(t.eq(v, c))
        return out
    def find_input(self, env, o, seed=1, budget=60):
        """a concrete input on which the real code breaks the contract, or None"""
        import random, time as _t
        rng = random.Random(seed); t0 = _t.time()
        base = [h for h in o.hyps if not isc(h)] + ([] if isc(o.goal) else [t.not_(o.goal)])
        tried = []
        def attempt(m, how):
            if m is None: return None
            r, d = self.trial(env, m)
            tried.append((r, str(d)[:80]))
            if r == 'violates': return self.pack(d, how)
        if not isc(o.goal) or o.goal is False:
            r = attempt(solve.model_of(base, 10), 'solver model of the failed obligation, executed on the extracted code')
            if r: return r
            if isinstance(o.res[1], dict):
                r = attempt(o.res[1], 'solver model of the failed obligation, executed on the extracted code')
                if r: return r
            vs = [v for v in t.subterms(base).values() if v.op == 'var' and '!' not in v.args[0]]
            base += [t.le(v, 3) for v in vs if v.args[0].endswith('.len')]
            if any(v.args[0].endswith('.len') for v in vs):
                r = attempt(solve.model_of(base, 10), 'solver model of the failed obligation, executed on the extracted code')
                if r: return r
            k = 0
            while _t.time() - t0 < budget and k < 40:
                k += 1
                m = solve.model_of(base, 3, self.rand_fix(rng, vs), seed=k)
                r = attempt(m, 'solver model of the failed obligation with random partial inputs, executed on the extracted code')
                if r: return r
        r = self.search(env, seed, budget / 2)
        o.tried = tried
        return r
    def likely(self, env, seed=1, budget=40):
        """a failing input among the likely ones, or None"""
        import random, time as _t
        rng = random.Random(seed); t0 = _t.time(); k = 0
        while self.sample and _t.time() - t0 < budget and k < 4000:
            k += 1
            r, d = self.trial(env, self.sample(rng))
            if r == 'violates': return self.pack(d, 'random search over inputs that satisfy the precondition, executed on the extracted code')
        return None
    def search(self, env, seed=1, budget=40):
        import random, time as _t
        rng = random.Random(seed); t0 = _t.time()
        M = env.mir
        key = self.key(M) if callable(self.key) else (self.key or M.fn(self.fn))
        ex = E.Exec(env.univ, env.intr, {}, {}); st = E.State(); body = M.bodies[key]['body']; args = []
        for i in range(body['args']):
            nm = [n for n, p in body['names'] if p == [i + 1]]
            args.append(env.univ.sym(body['locals'][i + 1], '%s' % (nm[0] if nm else 'arg%d' % i)))
        if self.setup:
            r = self.setup(ex, st, args, M, key)
            if r is not None: args = r
        c0 = E.CallCtx(ex, key, st, st, args, None)
        base = list(st.pc)
        for lab, g in (self.requires(c0) if self.requires else []): base += list(g) if isinstance(g, (list, tuple)) else [g]
        base = [x for x in base if not isc(x)]
        vs = {v.args[0]: v for v in t.subterms(base).values() if v.op == 'var'}
        base += [t.le(v, 3) for v in vs.values() if v.args[0].endswith('.len')]
        m0 = None
        k = 0
        r = self.likely(env, seed, budget)
        if r: return r
        k = 0
        while _t.time() - t0 < budget and k < 4000:
            k += 1
            m = solve.model_of(base, 3, self.rand_fix(rng, list(vs.values())), seed=k) if k in (1, 5, 9) or k % 25 == 1 or m0 is None else dict(m0)
            if m is None: continue
            m0 = m
            if k > 1:
                # perturb inputs that the function read
                rate = rng.choice([0.15, 0.35, 0.7, 1]); one = 1 << 48
                pal = rng.choice([[0, 1], [0, 0, 0, 1, -1, one, -one, 2 * one], None, None])
                for n in list(self.seen_inputs)[:400]:
                    if rng.random() < rate:
                        one = 1 << 48; last = (n if isinstance(n, str) else n[0]).split('.')[-1]
                        if last == 'len': m[n] = rng.choice([1, 2, 3]); continue
                        if 'index' in last and 'indexed' not in last and rng.random() < 0.8: m[n] = rng.choice([0, 1, 2]); continue
                        if pal: m[n] = rng.choice(pal); continue
                        m[n] = rng.choice([0, 1, 2, 5, one, -one, one * rng.randint(1, 2000) // 10, -one * rng.randint(1, 2000) // 10, rng.randint(0, 100), rng.randint(0, 1 << 20), one // 2])
            r, d = self.trial(env, m)
            if r == 'violates': return self.pack(d, 'random search over inputs that satisfy the precondition, executed on the extracted code')
        return None
    seen_inputs = ()

def View_ok(c):
    r = c._ret
    if isinstance(r, Enum):
        return t.eq(r.d, 0)
    if isinstance(r, Choice):
        return E.View(c.ex, c.st, r, c.ret_ty).is_('Ok')
    return True

def discharge(obls, secs=20, threads=8):
    """decide every obligation; fills o.res"""
    def one(o):
        t0 = time.time()
        try:
            left = solve.DEADLINE[0] - t0
            o.res = solve.prove([h for h in o.hyps], o.goal, min(secs, left)) if left > 1 else ('unknown', 'no time left')
        except Exception as e:
            o.res = ('unknown', 'internal: %s' % traceback.format_exc(limit=3))
        o.secs = time.time() - t0
        return o
    with ThreadPoolExecutor(threads) as p:
        list(p.map(one, obls))
    return obls

def reachable(states, secs=5):
    """vacuity guard: some normal-return state is satisfiable (or at least not refuted)"""
    for s in states:
        asserts = solve.collect([h for h in s.pc if not t.isc(h)])
        text, vs = solve.to_smt(asserts, False)
        r, out = solve.run_solver('z3', text + '(check-sat)\n', secs)
        if r == 'sat': return 'sat'
    for s in states:
        asserts = solve.collect([h for h in s.pc if not t.isc(h)])
        text, vs = solve.to_smt(asserts, True)
        r, out = solve.run_solver('z3', text + '(check-sat)\n', secs)
        if r == 'unsat': continue
        return 'not refuted'
    return 'unreachable'
