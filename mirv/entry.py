"""Instruction entry points: what must hold whenever an instruction returns Ok.

A unit executes the real dispatch function of one instruction (the code anchor generates for it, the account
validation, then the handler) on an arbitrary account list and arbitrary instruction data.  The claims talk about
the account list and the account contents as they were when the instruction started, so they never change while
the code runs: as soon as a path's condition implies all of them the path is closed (with its obligations); a path
that reaches Ok without implying them fails.  Calls into the rest of the program are replaced by an arbitrary
result and arbitrary new contents of everything they could write, so nothing is assumed about them."""
import re, time
from . import term as t, solve, exec as E
from .term import isc
from .val import *
from .sym import Custom
from .acct import Acct
from .verify import Unit, View_ok

DEBUG = False
INPUTS = ('program_id', 'accounts', 'data', 'clock')
DISPATCH = 'mango_v4::__private::__global::'
# functions of the program that are executed for real; everything else of the program is an arbitrary call
REAL = re.compile(r"mango_v4::__private|^mango_v4::mango_v4::|mango_v4::instructions::|mango_v4::accounts_ix::|state::group::Group::|state::mango_account::MangoAccountFixed::|"
                  r"state::group::Group\b|MangoAccountFixed\b|mango_v4::error::|instruction::")
STD = re.compile(r"^(<&?(mut )?)?(std|core)::(slice::Iter|slice::iter|iter::|option::Option|result::Result|ops::|cmp::|clone::|convert::|mem::|num::|ptr::|cell::|default::|borrow::)|^<\w+ as (std|core)::|^<.* as std::(ops|cmp|clone|convert|default|borrow)::|^(<)?fixed::|^anchor_lang::solana_program::pubkey|Pubkey")
FRAMES = re.compile(r"^mango_v4::(mango_v4|instructions)::|^<mango_v4::instructions")

class Accts:
    """the accounts of an instruction by the names its account struct gives them"""
    def __init__(self, ex, st, args, struct):
        self.ex = ex; self.st = st; self._m = {}
        k = [0]
        sl = args[1]
        def walk(tid, pre):
            for n, ft in ex.T[tid]['variants'][0]['fields']:
                d = ex.T[ft]['disp']
                if d.startswith('std::boxed::Box<'): ft = ex.T[ft]['args'][0]; d = ex.T[ft]['disp']
                if d.startswith('anchor_lang::prelude::'):
                    self._m[n] = (k[0], ft); k[0] += 1
                else: walk(ft, pre + n + '.')
        walk(struct, '')
        self._sl = sl
        self.n = k[0]
    def __getattr__(self, n):
        i, ty = self._m[n]
        a = self.ex.read(self.st, Ref(self._sl.cell, self._sl.path + (('idx', i),)))
        return E.View(self.ex, self.st, a.with_ty(ty), ty)
    def has(self, n): return n in self._m
    def pretty(self, n, idx):
        """leaf name with the account's name in the instruction"""
        head, dot, rest = n.partition('.')
        nm = next((k for k, (i, ty) in self._m.items() if idx and i == idx[0]), None) if head.startswith('accounts') else None
        if nm is None: return n + ''.join('[%s]' % i for i in idx)
        return nm + dot + rest + ''.join('[%s]' % i for i in idx[1:])
    def now(self):
        """the cluster clock (seconds)"""
        ty = next(i for i, x in enumerate(self.ex.T) if x.get('disp') == 'anchor_lang::prelude::Clock')
        return E.View(self.ex, self.st, self.ex.u.sym(ty, 'clock'), ty).unix_timestamp

class EntryUnit(Unit):
    def __init__(self, ix, claims, secs=90, name=None, real=None, **kw):
        super().__init__(DISPATCH + ix, None, None, name=name or ix, search_on_error=False, **kw)
        self.ix = ix; self.claims = claims; self.budget = secs; self.real = re.compile(real) if real else None
    def struct(self, M):
        k = M.fn('mango_v4::mango_v4::' + self.ix)
        ty = M.types[M.bodies[k]['body']['locals'][1]]
        return [a for a in ty['args'] if a is not None][-1]
    def generate(self, env):
        M = env.mir
        env.univ.acct_cells = {}
        key = M.fn(self.fn)
        ex = E.Exec(env.univ, env.intr, self.contracts, self.loops, prune=True, feas_ms=self.feas_ms)
        ex.overrides = dict(self.overrides); ex.hooks = dict(self.hooks)
        b = M.bodies[key]; body = b['body']; ex.skip = b['def']
        if self.split: ex.split = set(self.split)
        st = E.State(); st.ghost = {'acct_havoc': (), 'effect': False}
        args = [env.univ.sym(body['locals'][i + 1], n) for i, n in enumerate(('program_id', 'accounts', 'data'))]
        acc = Accts(ex, st.copy(), args, self.struct(M))
        cl = list(self.claims(acc)); self._claims = dict(cl)
        old = st.copy()
        obls = []; closed = []; t0 = time.time(); last = {}
        def until(s, fr):
            if not FRAMES.search(fr.name) or ex.dry: return False
            if time.time() - t0 > self.budget: raise Timeout('time budget of the abstract execution is used up')
            k = len(s.pc), (s.pc[-1].id if s.pc and hasattr(s.pc[-1], 'id') else id(s.pc[-1]) if s.pc else 0)
            if k in last: return False
            last[k] = 1
            if DEBUG: print('until', fr.name, fr.line, [(lab, solve.prove(list(s.pc), g, 4)[0]) for lab, g in cl], s.ghost['effect'], s.pc[-3:])
            for lab, g in cl:
                if g is True: continue
                ng = t.not_(g)
                if ng is True or solve.feasible(tuple(solve.coi(s.pc, ng)) + (ng,), 400): return False
            for lab, g in cl:
                o = E.Obl(self.fn, lab, s.pc, g, 'post'); o.ctx = (key, args, old, s, None, ex); o.line = getattr(fr, 'line', 0)
                obls.append(o)
            closed.append(s)
            return True
        ex.until = until
        ex.abstract = lambda name, b: bool(accessor(name, b) or REAL.search(name) or STD.search(name) or (self.real and self.real.search(name)))
        ex.default_loop = E.LoopSpec(lambda c: [])
        res = ex.run(key, st, args)
        for s, v in res:
            c = E.CallCtx(ex, key, s, old, args, v)
            okc = View_ok(c)
            if okc is False: continue
            s.assume(okc)
            closed.append(s)
            for lab, g in cl:
                o = E.Obl(self.fn, lab, s.pc, t.implies(s.ghost['effect'], g), 'post'); o.ctx = (key, args, old, s, v, ex)
                obls.append(o)
        return ex.obls + obls, {'ex': ex, 'key': key, 'args': args, 'old': old, 'res': res, 'ok': closed, 'requires': st}
    def find_input(self, env, o, seed=1, budget=60):
        """account contents for which the instruction reaches Ok although the claim is false.  The same MIR is executed on
        the concrete accounts; calls the unit does not follow keep arbitrary results.  An input is only reported if none of
        those calls could itself have judged the claim: none that can reach the account reads the fields the claim is
        about, and none receives the compared values."""
        t0 = time.time(); fix = []
        for n in range(2):
            m = solve.model_of([h for h in o.hyps] + [t.not_(o.goal)] + fix, 15)
            if m is None: return None
            r = self.concrete_run(env, {k: v for k, v in m.items() if (k if isinstance(k, str) else k[0]).startswith(INPUTS)}, o.label, max(10, budget - (time.time() - t0)))
            if r: return r
        return None
    def concrete_run(self, env, model, label, budget=60):
        M = env.mir; u = env.univ; keep = u.acct_cells, u.model, u.used_inputs
        seen = []
        try:
            # keys are only compared: make them distinguishable from other numbers
            model = {k: v * 1000003 + (1 << 40) if (k if isinstance(k, str) else k[0]).endswith('#') and isinstance(v, int) and 0 < v < 10 ** 6 else v for k, v in model.items()}
            u.acct_cells = {}; u.model = model; u.used_inputs = {}; u.semi = INPUTS
            key = M.fn(self.fn)
            ex = E.Exec(u, env.intr, self.contracts, self.loops, prune=True, feas_ms=self.feas_ms)
            ex.overrides = dict(self.overrides); ex.hooks = dict(self.hooks)
            b = M.bodies[key]; body = b['body']; ex.skip = b['def']
            st = E.State(); st.ghost = {'acct_havoc': (), 'effect': False}
            args = [u.sym(body['locals'][i + 1], n) for i, n in enumerate(('program_id', 'accounts', 'data'))]
            acc = Accts(ex, st.copy(), args, self.struct(M))
            cl = [(lab, g) for lab, g in self.claims(acc) if lab == label]; subj = {}
            for x in t.subterms([self._claims[label]]).values():
                k = x.args[0] if x.op == 'var' else (x.op[4:],) + tuple(x.args) if x.op.startswith('app:') and all(isc(a) for a in x.args) else ''
                if k and (k if isinstance(k, str) else k[0]).startswith(INPUTS): subj[k] = model.get(k)
            if DEBUG: print('claims', cl, subj)
            if not cl or any(g is not False for _, g in cl): return None
            ex.abstract = lambda name, b: bool(accessor(name, b) or REAL.search(name) or STD.search(name) or (self.real and self.real.search(name)))
            ex.default_loop = E.LoopSpec(lambda c: [])
            # what the claim reads: fields of accounts, and keys
            names = [(k if isinstance(k, str) else k[0], () if isinstance(k, str) else k[1:]) for k in subj]
            fields = set()
            for n, i in names:
                if '.data.' not in n: continue
                f = n.split('.data.')[1].split('.')[0].split('[')[0].rstrip('*')
                ty = next((ty for k, ty in acc._m.values() if i and k == i[0]), None)
                fields.add((ex.T[next(a for a in ex.T[ty]['args'] if a is not None)]['name'].split('::')[-1], f) if ty is not None else (None, f))
            accts = {(n.split('.')[0], i) for n, i in names}
            vals = {v for v in subj.values() if isinstance(v, int) and v > 1 << 40}
            ex.on_abs = lambda st, info, args: seen.append(judge(ex, st, info, args, fields, accts, vals))
            t0 = time.time()
            def until(s, fr):
                if time.time() - t0 > budget: raise Timeout('budget')
                return False
            ex.until = until
            for s, v in ex.run(key, st, args):
                okc = View_ok(E.CallCtx(ex, key, s, st, args, v))
                if DEBUG: print('outcome', okc, s.ghost['effect'], len(s.pc))
                if okc is False or s.ghost['effect'] is False: continue
                for x in (okc, s.ghost['effect']):
                    if x is not True: s.assume(x)
                if s.pc and not solve.feasible(tuple(s.pc), 3000): continue
                why = [w for w in seen if w]
                if why:
                    if DEBUG: print('judged by', why, fields, accts)
                    return None
                inp = {}
                for k, x in list(u.used_inputs.items()):
                    n, i = (k, ()) if isinstance(k, str) else (k[0], k[1:])
                    inp[acc.pretty(n, i)] = x
                return {'label': label, 'inputs': inp, 'outcome': 'Ok with %s, although it is false that: %s' % ('effects', label),
                        'note': 'the instruction was executed on these account contents (numbers stand for keys); calls that cannot judge the claim have arbitrary results: ' + ', '.join(sorted(ex.unknown_calls)[:40])}
            return None
        finally:
            u.acct_cells, u.model, u.used_inputs = keep; u.semi = False
    def search(self, env, seed=1, budget=40): return None

def judge(ex, st, info, args, fields, accts, vals):
    """could this call, which is not followed, decide the claim?"""
    nm = getattr(info, 'name', '?')
    if 'mango_v4' not in nm: return None
    key = getattr(info, 'key', None)
    got = set(); hit = False; seen = set(); todo = list(args)
    while todo:
        v = todo.pop()
        if isinstance(v, Custom):
            if hasattr(v, 'datacell'): hit |= (v.name, tuple(v.idx)) in accts
            else:
                w = getattr(v, 'i', None) if hasattr(v, 'i') else getattr(v, 'x', None)
                if isinstance(w, int): got.add(w)
                if hasattr(v, 'children'): todo += v.children(ex, st)
        elif isinstance(v, Ref):
            if v.cell in seen: continue
            seen.add(v.cell)
            for k, c in ex.u.acct_cells.items():
                if c == v.cell and k[2] in ('data', 'dyn'): hit |= (k[0], tuple(k[1])) in accts
            if v.cell in st.cells: todo.append(st.cells[v.cell])
            elif v.cell in ex.u.pending and ex.u.pending[v.cell].name.startswith('accounts*') and '.data' not in ex.u.pending[v.cell].name: hit = True
            elif v.cell in ex.u.pending and not isinstance(ex.u.pending[v.cell].ty, int): todo.append(ex.u.sym(ex.u.pending[v.cell].ty, 'x'))
        elif isinstance(v, Choice): todo += [x for _, x in v.alts]
        elif isinstance(v, Agg): todo += list(v.fs)
        elif isinstance(v, Enum): todo += [x for fs in v.vs.values() if fs for x in fs]
        elif isinstance(v, int) and not isinstance(v, bool): got.add(v)
    if len(got & vals) >= 2: return nm
    if hit and key is not None:
        r = reads(ex, key)
        if r & fields or {f for _, f in r} & {f for s, f in fields if s is None}: return nm
    if hit and key is None: return nm
    return None

def reads(ex, key):
    """names of the fields of the program's account structs that a function reads, directly or through what it calls"""
    memo = ex.mir.__dict__.setdefault('_reads', {})
    if key in memo: return memo[key]
    T = ex.T; B = ex.mir.bodies; out = set(); seen = set(); todo = [key]
    def place(b, p):
        ty = b['body']['locals'][p[0]]
        for e in p[1:]:
            if ty is None: return
            x = T[ty]
            if e == '*': ty = x['to'] if 'to' in x else (x.get('args') or [None])[0]
            elif e[0] == 'f':
                if x.get('variants') and x['disp'].startswith(('mango_v4', 'state::', 'anchor_spl', 'spl_token')) and len(x['variants']) == 1:
                    fl = x['variants'][0]['fields']
                    if e[1] < len(fl): out.add((x['name'].split('::')[-1], fl[e[1]][0]))
                ty = e[2] if len(e) > 2 else None
            elif e[0] == 'd': pass
            else: ty = x.get('elem')
    def walk(b, r):
        if isinstance(r, list):
            if r and isinstance(r[0], int) and all(e == '*' or isinstance(e, list) for e in r[1:]) and len(r) > 1: place(b, r)
            for x in r: walk(b, x)
        elif isinstance(r, dict):
            for x in r.values(): walk(b, x)
    while todo:
        k = todo.pop()
        if k in seen or k is None: continue
        seen.add(k); b = B.get(k)
        if b is None or b.get('body') is None: continue
        tys = set(b['body']['locals'])
        for bl in b['body']['blocks']:
            for p, r in bl['s']:
                walk(b, r); tys.update(o['c'] for o in r if isinstance(o, dict) and isinstance(o.get('c'), int))
            tm = bl['t']
            if tm[0] == 'call':
                walk(b, tm[2]); tys.update(o['c'] for o in tm[2] if isinstance(o, dict) and isinstance(o.get('c'), int))
                if tm[1].get('fn') is not None: todo.append(tm[1]['fn'])
            else: walk(b, tm[1:2])
        for x in tys:
            for w in ('inst', 'once'):
                if T[x].get(w): todo.append(T[x][w])
    memo[key] = out
    return out

class HandlerUnit(Unit):
    """a contract on the handler of an instruction: what it does to the accounts of its Context"""
    def __init__(self, fn, ensures, real=None, **kw):
        self.real = re.compile(real) if real else None
        super().__init__(fn, kw.pop('requires', None), ensures, setup=self._setup, search_on_error=False, **kw)
    def _setup(self, ex, st, args, M, key):
        ex.abstract = lambda name, b: bool(accessor(name, b) or REAL.search(name) or STD.search(name) or (self.real and self.real.search(name)))
        ex.default_loop = E.LoopSpec(lambda c: [])
        st.ghost.update({'acct_havoc': (), 'effect': False})
    def find_input(self, env, o, seed=1, budget=60): return None
    def search(self, env, seed=1, budget=40): return None

class Timeout(Unsupported): pass
def accessor(name, b):
    """small functions of the program (flags, comparisons and the like) are executed, not abstracted"""
    return name.startswith(('mango_v4::', '<mango_v4::')) and len(b['body']['blocks']) <= 20
