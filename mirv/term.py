"""Hash-consed first-order terms (Int / Bool / Real) used by the VC generator.
Concrete Python ints / bools / Fractions are terms too (folded eagerly), so the same contract
text evaluates on concrete values when a counterexample is replayed against the real code."""
from fractions import Fraction

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', '_h')
    def __repr__(self): return show(self, 4)
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __neg__(a): return sub(0, a)
    def __lt__(a, b): return lt(a, b)
    def __le__(a, b): return le(a, b)
    def __gt__(a, b): return lt(b, a)
    def __ge__(a, b): return le(b, a)
    def __bool__(a): raise TypeError('symbolic term used as a Python bool: ' + show(a, 3))

_tab = {}
_cnt = [0]
def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, Term) else ('k', type(a).__name__, a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = Term(); t.op = op; t.args = args; t.sort = sort
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[key] = t
    return t

def isc(x): return not isinstance(x, Term)
def sort(x):
    if isinstance(x, Term): return x.sort
    if isinstance(x, bool): return 'Bool'
    if isinstance(x, int): return 'Int'
    return 'Real'
def var(name, srt='Int'): return mk('var', (name,), srt)
_fresh = [0]
def fresh(name, srt='Int'):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), srt)
def app(f, args, srt='Int'):
    return mk('app:' + f, tuple(args), srt)

def toreal(x):
    if isc(x): return Fraction(x)
    if x.sort == 'Real': return x
    return mk('to_real', (x,), 'Real')
def _co(a, b):
    sa, sb = sort(a), sort(b)
    if sa != sb:
        if sa == 'Int' and sb == 'Real': return toreal(a), b, 'Real'
        if sb == 'Int' and sa == 'Real': return a, toreal(b), 'Real'
        raise TypeError('sorts %s %s: %r %r' % (sa, sb, a, b))
    return a, b, sa

# linear sums: ('sum', const, ((coef, term),...)) kept as nested add for simplicity but normalised
def lin(x):
    """-> (const, {term: coef})"""
    if isc(x): return x, {}
    if x.op == 'sum':
        n = len(x.args)
        return x.args[0], {x.args[i]: x.args[i + 1] for i in range(1, n, 2)}
    return 0, {x: 1}
def unlin(c, d, srt):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return Fraction(c) if srt == 'Real' else c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    args = [c]
    for t in sorted(d, key=lambda t: t.id):
        args += [t, d[t]]
    return mk('sum', tuple(args), srt)
def add(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b): return a + b
    ca, da = lin(a); cb, db = lin(b)
    d = dict(da)
    for t, k in db.items(): d[t] = d.get(t, 0) + k
    return unlin(ca + cb, d, s)
def scale(k, a, s):
    c, d = lin(a)
    return unlin(c * k, {t: v * k for t, v in d.items()}, s)
def sub(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b): return a - b
    return add(a, scale(-1, b, s) if not isc(b) else -b)
def mul(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b): return a * b
    if isc(a): return scale(a, b, s)
    if isc(b): return scale(b, a, s)
    # distribute constant factors
    ca, da = lin(a); cb, db = lin(b)
    ka = kb = 1
    if ca == 0 and len(da) == 1: (a, ka), = da.items()
    if cb == 0 and len(db) == 1: (b, kb), = db.items()
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) :
        return scale(ka * kb, ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b)), s)
    if b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]):
        return scale(ka * kb, ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2])), s)
    fs = []
    for x in (a, b):
        if x.op == 'mul': fs += list(x.args)
        else: fs.append(x)
    fs.sort(key=lambda t: t.id)
    t = mk('mul', tuple(fs), s)
    return scale(ka * kb, t, s) if ka * kb != 1 else t
def neg(a): return sub(0, a)

def not_(a):
    if isc(a): return not a
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'Bool')
def and_(*xs):
    out = []; seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st += list(x)[::-1]; continue
        if isc(x):
            if not x: return False
            continue
        if x.op == 'and':
            st += list(x.args)[::-1]; continue
        if x.id in seen: continue
        if x.op == 'not' and x.args[0].id in seen: return False
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'Bool')
def or_(*xs):
    out = []; seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st += list(x)[::-1]; continue
        if isc(x):
            if x: return True
            continue
        if x.op == 'or':
            st += list(x.args)[::-1]; continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'Bool')
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)
def ite(c, a, b):
    if isc(c): return a if c else b
    if a is b: return a
    a, b, s = _co(a, b)
    if isc(a) and isc(b) and a == b: return a
    if s == 'Bool':
        if a is True: return or_(c, b)
        if a is False: return and_(not_(c), b)
        if b is True: return or_(not_(c), a)
        if b is False: return and_(c, a)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if not isc(a) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if not isc(b) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if not isc(c) and c.op == 'eq' and not isc(a) and not isc(b) and a.op == b.op and a.op.startswith('app:') and len(a.args) == len(b.args):
        # i = j ? f(i) : f(j)  is  f(j)
        p, q = c.args; same = lambda x, y: x is y or (isc(x) and isc(y) and x == y)
        if all(same(x, y) or (same(x, p) and same(y, q)) or (same(x, q) and same(y, p)) for x, y in zip(a.args, b.args)): return b
    return mk('ite', (c, a, b), s)
def eq(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b): return a == b
    if a is b: return True
    if s == 'Bool':
        if a is True: return b
        if b is True: return a
        if a is False: return not_(b)
        if b is False: return not_(a)
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 'Bool')
    # ite-of-constants against a constant
    if isc(b): a, b = b, a
    if isc(a) and b.op == 'ite':
        x, y = b.args[1], b.args[2]
        if isc(x) or isc(y) :
            return or_(and_(b.args[0], eq(a, x)), and_(not_(b.args[0]), eq(a, y)))
    if DISTINCT and not isc(a) and (a.id, b.id) in DISTINCT: return False
    d = sub(a, b)
    if isc(d): return d == 0
    if isc(a): return mk('eq', (a, b), 'Bool')
    return mk('eq', (a, b) if a.id < b.id else (b, a), 'Bool')
DISTINCT = set()   # pairs of witness variables that were proved to differ wherever both are constrained
def distinct(a, b): DISTINCT.add((a.id, b.id)); DISTINCT.add((b.id, a.id))
def ne(a, b): return not_(eq(a, b))
_rng = None
def bounds(x):
    """cheap syntactic interval (lo, hi) or None parts"""
    if isc(x): return x, x
    r = RANGE.get(x.args[0]) if x.op == 'var' else (RANGE.get(x.op) if x.op.startswith('app:') else None)
    if r: return r
    if x.op == 'sum':
        lo = hi = x.args[0]
        for i in range(1, len(x.args), 2):
            l, h = bounds(x.args[i]); k = x.args[i + 1]
            if k < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
            if lo is None and hi is None: return None, None
        return lo, hi
    if x.op == 'ite':
        l1, h1 = bounds(x.args[1]); l2, h2 = bounds(x.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    if x.op == 'mod': return 0, x.args[1] - 1
    if x.op == 'div':
        l, h = bounds(x.args[0]); k = x.args[1]
        return (None if l is None else l // k), (None if h is None else h // k)
    return None, None
def le(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b): return a <= b
    d = sub(a, b)
    if isc(d): return d <= 0
    lo, hi = bounds(d)
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    return mk('le', (a, b), 'Bool')
def lt(a, b): return not_(le(b, a))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def fdiv(a, k):
    """floor division by a positive constant"""
    if isc(a): return a // k
    if k == 1: return a
    c, d = lin(a)
    if all(v % k == 0 for v in d.values()):
        return unlin(c // k, {t: v // k for t, v in d.items()}, 'Int')
    lo, hi = bounds(a)
    if lo is not None and hi is not None and lo // k == hi // k: return lo // k
    if a.op == 'div': return fdiv(a.args[0], a.args[1] * k)
    return mk('div', (a, k), 'Int')
def fmod(a, k):
    if isc(a): return a % k
    lo, hi = bounds(a)
    if lo is not None and hi is not None and lo >= 0 and hi < k: return a
    c, d = lin(a)
    if any(v % k == 0 for v in d.values()) or c % k != c:
        return fmod(unlin(c % k, {t: v for t, v in d.items() if v % k}, 'Int'), k)
    if a.op == 'mod' and a.args[1] % k == 0: return fmod(a.args[0], k)
    return mk('mod', (a, k), 'Int')
def floor_(a):
    if isc(a): return a.numerator // a.denominator if isinstance(a, Fraction) else a
    if a.sort == 'Int': return a
    if a.op == 'to_real': return a.args[0]
    return mk('to_int', (a,), 'Int')
def forall(vs, body):
    if isc(body): return body
    return mk('forall', tuple(vs) + (body,), 'Bool')
def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(a, b), b, a)
def tabs(a): return ite(le(0, a), a, neg(a))

# ---- integer / fixed point operators that need defining axioms --------------------------------
RANGE = {}     # var name or 'app:f' -> (lo, hi)
def ranged(t, lo, hi):
    if isinstance(t, Term):
        RANGE[t.args[0] if t.op == 'var' else t.op] = (lo, hi)
    return t
ONE48 = 1 << 48
def cdiv(a, b):
    """mathematical truncating division (concrete)"""
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
def tdiv(a, b):
    """truncating integer division; for b == 0 unspecified"""
    if isc(b):
        if b == 0: return app('tdiv', (a, b))
        if isc(a): return cdiv(a, b)
        if b > 0:
            lo, hi = bounds(a)
            if lo is not None and lo >= 0: return fdiv(a, b)
            return ite(le(0, a), fdiv(a, b), neg(fdiv(neg(a), b)))
        return neg(tdiv(a, -b))
    return app('tdiv', (a, b))
def trem(a, b):
    if isc(a) and isc(b) and b != 0: return a - b * cdiv(a, b)
    if isc(b) and b > 0:
        lo, hi = bounds(a)
        if lo is not None and lo >= 0: return fmod(a, b)
    return sub(a, mul(b, tdiv(a, b)))
def fxmul(a, b):
    """floor(a*b / 2^48) on the raw bits"""
    if isc(a) and isc(b): return (a * b) >> 48
    if isc(b): a, b = b, a
    if isc(a):
        if a == 0: return 0
        if a % ONE48 == 0: return mul(a // ONE48, b)
        return fdiv(mul(a, b), ONE48)
    if a.id > b.id: a, b = b, a
    return app('fxmul', (a, b))
def fxdiv(a, b):
    """trunc(a*2^48 / b) on the raw bits"""
    return tdiv(mul(a, ONE48), b)

def axioms_for(t):
    """defining axioms of one application term"""
    if t.op == 'app:fxmul':
        a, b = t.args
        p = mul(a, b)
        ax = [le(mul(ONE48, t), p), lt(p, add(mul(ONE48, t), ONE48))]
        # helpful sign lemmas (consequences)
        ax += [implies(and_(le(0, a), le(0, b)), le(0, t)),
               implies(or_(eq(a, 0), eq(b, 0)), eq(t, 0)),
               implies(and_(le(0, a), le(b, ONE48), le(0, b)), le(t, a)),
               implies(and_(le(0, b), le(a, ONE48), le(0, a)), le(t, b)),
               implies(and_(le(0, a), le(ONE48, b)), le(a, t)),
               implies(and_(le(0, b), le(ONE48, a)), le(b, t)),
               implies(and_(le(a, 0), le(0, b)), le(t, 0)),
               implies(and_(le(a, 0), le(b, 0)), le(0, t)),
               implies(and_(le(0, a), le(b, 0)), le(t, 0))]
        return ax
    if t.op == 'app:tdiv':
        a, b = t.args
        m = mul(b, t)
        return [implies(and_(le(0, a), lt(0, b)), and_(le(m, a), lt(a, add(m, b)), le(0, t), le(t, a))),
                implies(and_(le(a, 0), lt(0, b)), and_(le(a, m), lt(sub(m, b), a), le(t, 0), le(a, t))),
                implies(and_(le(0, a), lt(b, 0)), and_(le(m, a), lt(a, sub(m, b)), le(t, 0))),
                implies(and_(le(a, 0), lt(b, 0)), and_(le(a, m), lt(add(m, b), a), le(0, t)))]
    return []

def subterms(roots):
    seen = {}
    st = [r for r in roots if isinstance(r, Term)]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        for a in t.args:
            if isinstance(a, Term) and a.id not in seen: st.append(a)
    return seen

def rebuild(op, A, srt):
    """the term op(A), simplified"""
    if op == 'sum':
        r = A[0]
        for i in range(1, len(A), 2): r = add(r, mul(A[i + 1], A[i]))
        return r
    if op == 'mul':
        r = A[0]
        for a in A[1:]: r = mul(r, a)
        return r
    if op == 'not': return not_(A[0])
    if op == 'and': return and_(*A)
    if op == 'or': return or_(*A)
    if op == 'ite': return ite(*A)
    if op == 'eq': return eq(*A)
    if op == 'le': return le(*A)
    if op == 'div': return fdiv(*A)
    if op == 'mod': return fmod(*A)
    if op == 'to_real': return toreal(A[0])
    if op == 'to_int': return floor_(A[0])
    if op == 'app:fxmul': return fxmul(*A)
    if op == 'app:tdiv': return tdiv(*A)
    if op == 'forall': return forall(list(A[:-1]), A[-1])
    if op.startswith('app:psum:'): return psum(op[9:], A[:-1], A[-1])
    return mk(op, tuple(A), srt)
def subst(x, m):
    """replace the variables with ids in m"""
    memo = {}
    def go(y):
        if isc(y): return y
        r = memo.get(y.id)
        if r is None:
            if y.id in m: r = m[y.id]
            elif y.op == 'var': r = y
            else:
                A = [go(a) if isinstance(a, Term) else a for a in y.args]
                r = y if all(p is q for p, q in zip(A, y.args)) else rebuild(y.op, A, y.sort)
            memo[y.id] = r
        return r
    return go(x)

# ---- partial sums: psum(name, params, k) = sum of SUMS[name](params, i) for 0 <= i < k
SUMS = {}
def psum(name, params, k):
    f, srt = SUMS[name]
    if isc(k):
        r = 0 if srt == 'Int' else Fraction(0)
        for i in range(k): r = add(r, f(*params, i))
        return r
    return mk('app:psum:' + name, tuple(params) + (k,), srt)
def psum_def(x):
    """definitional facts about one partial sum"""
    name = x.op[9:]; f, srt = SUMS[name]; k = x.args[-1]; ps = x.args[:-1]
    out = [implies(eq(k, 0), eq(x, 0 if srt == 'Int' else Fraction(0)))]
    c, d = lin(k)
    if c > 0: out.append(implies(lt(0, k), eq(x, add(psum(name, ps, sub(k, 1)), f(*ps, sub(k, 1))))))
    return out

def show(t, depth=6):
    if isc(t): return str(t)
    if depth == 0: return '..'
    if t.op == 'var': return t.args[0]
    if t.op == 'sum':
        s = [] if t.args[0] == 0 else [str(t.args[0])]
        for i in range(1, len(t.args), 2):
            k = t.args[i + 1]; x = show(t.args[i], depth - 1)
            s.append(x if k == 1 else '%s*%s' % (k, x))
        return '(' + ' + '.join(s) + ')'
    return '%s(%s)' % (t.op.replace('app:', ''), ', '.join(show(a, depth - 1) for a in t.args))

def evalt(t, env, funs=None):
    """evaluate a term under a concrete environment {var name: value}; funs: name -> callable"""
    memo = {}
    def go(t):
        if isc(t): return t
        if t.id in memo: return memo[t.id]
        op = t.op; A = t.args
        if op == 'var': r = env[A[0]]
        elif op == 'sum':
            r = A[0]
            for i in range(1, len(A), 2): r = r + A[i + 1] * go(A[i])
        elif op == 'mul':
            r = 1
            for a in A: r = r * go(a)
        elif op == 'not': r = not go(A[0])
        elif op == 'and': r = all(go(a) for a in A)
        elif op == 'or': r = any(go(a) for a in A)
        elif op == 'ite': r = go(A[1]) if go(A[0]) else go(A[2])
        elif op == 'eq': r = go(A[0]) == go(A[1])
        elif op == 'le': r = go(A[0]) <= go(A[1])
        elif op == 'div': r = go(A[0]) // A[1]
        elif op == 'mod': r = go(A[0]) % A[1]
        elif op == 'to_real': r = Fraction(go(A[0]))
        elif op == 'to_int':
            x = go(A[0]); r = x.numerator // x.denominator
        elif op == 'app:fxmul': r = (go(A[0]) * go(A[1])) >> 48
        elif op == 'app:tdiv':
            b = go(A[1]); r = cdiv(go(A[0]), b) if b != 0 else 0
        elif op.startswith('app:') and funs and op[4:] in funs: r = funs[op[4:]](*[go(a) for a in A])
        else: raise ValueError('cannot evaluate ' + op)
        memo[t.id] = r
        return r
    return go(t)
