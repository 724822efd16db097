"""Symbolic execution of MIR with function contracts, loop invariants and ghost state."""
import re, heapq, sys
from . import term as t, solve
from .term import Term, isc
from .val import *
from .sym import Univ, Custom, _Var, dict_variants
sys.setrecursionlimit(20000)

class State:
    __slots__ = ('cells', 'pc', 'ghost', 'dead')
    def __init__(self): self.cells = {}; self.pc = (); self.ghost = {}
    def copy(self):
        s = State(); s.cells = dict(self.cells); s.pc = self.pc; s.ghost = dict(self.ghost)
        return s
    def assume(self, c):
        if c is True: return self
        if isinstance(c, (list, tuple)):
            for x in c: self.assume(x)
            return self
        self.pc = self.pc + (c,)
        return self

class Obl:
    __slots__ = ('fn', 'label', 'hyps', 'goal', 'kind', 'res', 'line', 'secs', 'ctx', 'tried')
    def __init__(self, fn, label, hyps, goal, kind, line=None):
        self.fn = fn; self.label = label; self.hyps = hyps; self.goal = goal; self.kind = kind; self.res = None; self.line = line; self.ctx = None

class LoopSpec:
    """inv(ctx) -> list of (label, term).  unroll: max iterations (complete unrolling is checked).
       ghost: {name: sort} of ghost variables that are arbitrary at the head; step(head state, ctx at a back edge) updates them"""
    def __init__(self, inv=None, unroll=None, havoc_extra=(), ghost=None, step=None):
        self.inv = inv; self.unroll = unroll; self.ghost = ghost or {}; self.step = step

DBG = False
def FRAME(name): return name.startswith(('mango_v4::mango_v4::', 'mango_v4::__private')) or 'try_accounts' in name
class FnSpec:
    """contract of one function.
       requires(c) / ensures(c): lists of (label, term); c is a CallCtx
       modifies: list of (arg index, path of field names) or 'all'
       value: the result as a term over the arguments (a function of them; proved by a unit of its own like ensures)
       apply: optional custom transformer apply(ex, st, args, info) -> [(st, ret)] used at call sites"""
    def __init__(self, name, requires=None, ensures=None, modifies=(), apply=None, trusted=False, pure=False, note='', concrete=False, on_err=False, value=None):
        self.concrete = concrete; self.on_err = on_err; self.value = value
        self.name = name; self.requires = requires; self.ensures = ensures; self.modifies = modifies
        self.apply = apply; self.trusted = trusted; self.note = note

class Exec:
    def __init__(self, univ, intr, contracts=None, loops=None, prune=True, feas_ms=60):
        self.u = univ; self.mir = univ.mir; self.T = univ.T
        self.intr = intr
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.obls = []
        self.depth = 0
        self.dry = 0
        self.prune = prune
        self.feas_ms = feas_ms
        self.used_trusted = {}
        self.unknown_calls = {}
        self.inlined = set()
        self.used_contracts = set()
        self.writes = []           # active write logs
        self.panics = []           # (pc, where) when collect_panics
        self.collect_panics = False
        self.hooks = {}            # def name -> fn(ex, st, args, info) called before the call
        self.loop_seen = {}
        self.default_unroll = 40
        self.steps = 0
        self.cur = None
        self.until = None; self.abstract = None; self.on_abs = None; self.default_loop = None     # see entry.py
        self.memo_merge = True
        self.split = set()         # functions (def names) executed without merging
        self.drop_err = set()
        self.overrides = {}
        self.skip = None
        self.keep_enum_split = True

    # ---------------- memory
    def cell(self, st, c):
        v = st.cells.get(c)
        if v is None:
            l = self.u.pending.get(c)
            if l is None: return UNDEF
            v = self.u.sym(l.ty, l.name, l.idx)
            st.cells[c] = v
        elif isinstance(v, Lazy):
            v = self.u.sym(v.ty, v.name, v.idx); st.cells[c] = v
        return v
    def read(self, st, ref):
        if isinstance(ref, Choice):
            return self.u.choice_map(ref, lambda r: self.read(st, r))
        if isinstance(ref, Custom): return ref.deref_read(self, st)
        if not isinstance(ref, Ref): raise Unsupported('deref of %r' % (ref,))
        return self.u.get(self.cell(st, ref.cell), ref.path)
    def write(self, st, ref, x, cond=True):
        if isinstance(ref, Choice):
            nc = cond
            for c, r in ref.alts:
                self.write(st, r, x, t.and_(nc, c)); nc = t.and_(nc, t.not_(c))
            return
        if isinstance(ref, Custom): return ref.deref_write(self, st, x, cond)
        if not isinstance(ref, Ref): raise Unsupported('write through %r' % (ref,))
        for log in self.writes: log.append((ref.cell, ref.path))
        v = self.cell(st, ref.cell)
        if cond is not True:
            if cond is False: return
            x = self.u.ite(cond, x, self.u.get(v, ref.path))
        st.cells[ref.cell] = self.u.set(v, ref.path, x) if ref.path else x

    def place_ref(self, st, fr, p, want_ref=True):
        """place -> Ref (or Choice of Ref)"""
        cur = Ref(fr.loc[p[0]], ())
        for e in p[1:]:
            cur = self.ext(st, fr, cur, e)
        return cur
    def ext(self, st, fr, cur, e):
        if isinstance(cur, Choice):
            return Choice([(c, self.ext(st, fr, r, e)) for c, r in cur.alts])
        if e == '*':
            r = self.read(st, cur)
            if isinstance(r, (Ref, Choice)): return r
            if isinstance(r, Custom): return r
            if isinstance(r, (Opaque, StrV)):
                c = self.u.new_cell(('opaque', repr(r))); st.cells[c] = r
                return Ref(c, ())
            if isinstance(r, Agg) and len(r.fs) >= 1:      # Box and friends
                return self.ext(st, fr, Ref(cur.cell, cur.path + (('f', 0, None),)), '*')
            raise Unsupported('deref of %r' % (r,))
        if e == 'oc': return cur
        k = e[0]
        if isinstance(cur, Custom): return cur.extend(self, st, e)
        if k == 'f': return Ref(cur.cell, cur.path + (('f', e[1], e[2]),))
        if k == 'd': return Ref(cur.cell, cur.path + (('d', e[1]),))
        if k == 'i':
            i = self.cell(st, fr.loc[e[1]])
            return Ref(cur.cell, cur.path + (('idx', i),))
        if k == 'ci':
            if e[3]:
                n = self.slice_len(st, cur)
                return Ref(cur.cell, cur.path + (('idx', t.sub(n, e[1])),))
            return Ref(cur.cell, cur.path + (('idx', e[1]),))
        if k == 'ss':
            n = self.slice_len(st, cur)
            hi = t.sub(n, e[2]) if e[3] else e[2]
            return Ref(cur.cell, cur.path + (('off', e[1]),), t.sub(hi, e[1]))
        raise Unsupported('projection %r' % (e,))
    def slice_len(self, st, ref):
        if ref.meta is not None: return ref.meta
        v = self.u.get(self.cell(st, ref.cell), ref.path)
        if isinstance(v, ArrV): return v.n
        if isinstance(v, VecV): return v.len
        raise Unsupported('length of %r' % (v,))

    def place_read(self, st, fr, p):
        if len(p) == 1:
            v = self.cell(st, fr.loc[p[0]])
            return v
        # enum downcasts are handled by Univ.get
        return self.read(st, self.place_ref(st, fr, p))
    def operand(self, st, fr, o):
        if isinstance(o, list): return self.place_read(st, fr, o)
        if 'rtc' in o: return False if 'Ub' in o['rtc'] or True else True
        return self.u.const(o['c'], o['v'], st)
    def op_ty(self, fr, o):
        if isinstance(o, dict): return next(i for i, x in enumerate(self.T) if x['k'] == 'bool') if 'rtc' in o else o.get('c')
        return self.place_ty(fr, o)
    def place_ty(self, fr, p):
        T = self.T
        ty = fr.body['locals'][p[0]]
        for e in p[1:]:
            if e == '*': ty = T[ty].get('to', ty) if T[ty]['k'] in ('ref', 'ptr') else self.box_to(ty)
            elif e == 'oc': pass
            elif e[0] == 'f': ty = e[2]
            elif e[0] == 'd': pass
            elif e[0] in ('i', 'ci'): ty = T[ty]['elem']
        return ty
    def box_to(self, ty): return self.T[ty]['args'][0]

    # ---------------- integers
    def ity(self, tid):
        ty = self.T[tid]
        if ty['k'] == 'int': return ty['bits'], ty['signed']
        if ty['k'] == 'char': return 32, False
        if ty['k'] == 'bool': return 1, False
        return None
    def irange(self, bits, signed):
        return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    def wrap(self, st, x, bits, signed):
        lo, hi = self.irange(bits, signed)
        l, h = t.bounds(x)
        if l is not None and h is not None and l >= lo and h <= hi: return x
        if isc(x):
            x &= (1 << bits) - 1
            return x - (1 << bits) if signed and x >> (bits - 1) else x
        if not solve.feasible(list(st.pc) + [t.or_(t.lt(x, lo), t.lt(hi, x))], 40): return x
        if not signed: return t.fmod(x, 1 << bits)
        return t.sub(t.fmod(t.add(x, 1 << (bits - 1)), 1 << bits), 1 << (bits - 1))
    def in_range(self, x, bits, signed):
        lo, hi = self.irange(bits, signed)
        return t.and_(t.le(lo, x), t.le(x, hi))

    def binop(self, st, fr, op, a, b, ta, tb):
        T = self.T
        k = T[ta]['k'] if ta is not None else 'int'
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Ref, Choice, Opaque, Agg)) or isinstance(b, (Ref, Choice, Opaque, Agg)):
                if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and a.path == b.path: r = True
                elif isinstance(a, Ref) and isinstance(b, Ref) and op in ('Eq', 'Ne'): r = t.fresh('ptreq', 'Bool')
                else: r = t.fresh('cmp', 'Bool')
                return t.not_(r) if op == 'Ne' else r
            if k == 'bool' and op in ('Lt', 'Le', 'Gt', 'Ge'):
                a = t.ite(a, 1, 0); b = t.ite(b, 1, 0)
            return {'Eq': t.eq, 'Ne': t.ne, 'Lt': t.lt, 'Le': t.le, 'Gt': t.gt, 'Ge': t.ge}[op](a, b)
        if op == 'Cmp':
            raise Unsupported('Cmp')
        if k == 'float':
            if op == 'Add': return t.add(a, b)
            if op == 'Sub': return t.sub(a, b)
            if op == 'Mul': return t.mul(a, b)
            if op == 'Div': return self.rdiv(st, a, b)
            return t.fresh('fop', 'Real')
        if k == 'bool':
            if op == 'BitAnd': return t.and_(a, b)
            if op == 'BitOr': return t.or_(a, b)
            if op == 'BitXor': return t.ne(a, b)
        if not (leafy(a) and leafy(b)):
            raise Unsupported('binary %s on %r %r' % (op, a, b))
        bits, signed = self.ity(ta)
        if op in ('Add', 'AddUnchecked'): r = t.add(a, b)
        elif op in ('Sub', 'SubUnchecked'): r = t.sub(a, b)
        elif op in ('Mul', 'MulUnchecked'): r = t.mul(a, b)
        elif op == 'Div': return t.tdiv(a, b)
        elif op == 'Rem': return t.trem(a, b)
        elif op in ('Shl', 'ShlUnchecked'):
            if isc(b): r = t.mul(a, 1 << (b % bits))
            else: r = t.mul(a, self.pow2(st, b))
        elif op in ('Shr', 'ShrUnchecked'):
            if isc(b): return t.fdiv(a, 1 << (b % bits))
            return self.shr_var(st, a, b)
        elif op == 'BitAnd': return self.bitand(st, a, b, bits, signed)
        elif op == 'BitOr': return self.bitor(st, a, b, bits, signed)
        elif op == 'BitXor': return self.bitxor(st, a, b, bits, signed)
        else: raise Unsupported('binop ' + op)
        return self.wrap(st, r, bits, signed)
    def rdiv(self, st, a, b):
        if isc(b) and b != 0: return t.mul(a, t.Fraction(1) / t.Fraction(b))
        q = t.app('rdiv', (t.toreal(a), t.toreal(b)), 'Real')
        st.assume(t.implies(t.ne(b, t.Fraction(0)), t.eq(t.mul(q, t.toreal(b)), t.toreal(a))))
        F = t.Fraction
        st.assume(t.implies(t.and_(t.le(F(0), a), t.le(a, b), t.lt(F(0), b)), t.and_(t.le(F(0), q), t.le(q, F(1)))))
        st.assume(t.implies(t.and_(t.le(F(0), a), t.lt(F(0), b)), t.le(F(0), q)))
        return q
    def pow2(self, st, b):
        p = t.app('pow2', (b,))
        lo, hi = t.bounds(b)
        r = t.mk('le', (1, p), 'Bool')
        st.assume(r)
        for k in range(0, 129): pass
        return p
    def shr_var(self, st, a, b):
        p = self.pow2(st, b)
        return t.tdiv(a, p)
    def bitand(self, st, a, b, bits, signed):
        if isc(a): a, b = b, a
        if isc(a): 
            r = a & b
            return r
        if isc(b):
            if b == 0: return 0
            if not signed or b > 0:
                if b & (b + 1) == 0: return t.fmod(a, b + 1)       # low mask
                if b & (b - 1) == 0:                                 # single bit
                    k = b.bit_length() - 1
                    return t.mul(b, t.fmod(t.fdiv(a, b), 2))
                # contiguous high mask
                low = (b & -b)
                if (b // low) & (b // low + 1) == 0:
                    return t.mul(low, t.fmod(t.fdiv(a, low), b // low + 1))
                r = 0
                for k in range(bits):
                    if b >> k & 1: r = t.add(r, t.mul(1 << k, t.fmod(t.fdiv(a, 1 << k), 2)))
                return r
        r = t.app('bitand%d' % bits, (a, b) if a.id < b.id else (b, a))
        if not signed: st.assume(t.and_(t.le(0, r), t.le(r, a), t.le(r, b)))
        return r
    def bitor(self, st, a, b, bits, signed):
        if isc(a): a, b = b, a
        if isc(a): return a | b
        if isc(b) and b == 0: return a
        # disjoint ranges: x * 2^k | y with 0 <= y < 2^k
        for x, y in ((a, b), (b, a)):
            lo, hi = t.bounds(y)
            if lo is not None and lo >= 0 and hi is not None:
                k = hi.bit_length()
                c, d = t.lin(x)
                m = 1 << k
                if c % m == 0 and all(v % m == 0 for v in d.values()) : return t.add(x, y)
        for x, y in ((a, b), (b, a)):
            c, d = t.lin(x)
            for k in (8, 16, 32, 64):
                m = 1 << k
                if c % m == 0 and all(v % m == 0 for v in d.values()):
                    if not solve.feasible(st.pc + (t.not_(t.and_(t.le(0, y), t.lt(y, m))),), 400): return t.add(x, y)
        if isc(b) and (not signed or b >= 0):
            # a | b = a + (bits of b not in a)
            r = a
            for k in range(bits):
                if b >> k & 1: r = t.add(r, t.mul(1 << k, t.sub(1, t.fmod(t.fdiv(a, 1 << k), 2))))
            return r
        r = t.app('bitor%d' % bits, (a, b) if isc(b) or a.id < b.id else (b, a))
        if not signed: st.assume(t.and_(t.le(a, r), t.le(b, r), t.le(r, t.add(a, b))))
        return r
    def bitxor(self, st, a, b, bits, signed):
        if isc(a) and isc(b): return a ^ b
        r = t.app('bitxor%d' % bits, (a, b))
        if not signed: st.assume(t.and_(t.le(0, r), t.le(r, (1 << bits) - 1)))
        return r

    # ---------------- rvalues
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        u = self.u
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'addr'):
            p = rv[1]
            if p[-1] == '*' :
                # reborrow: keep the pointer value itself
                v = self.read(st, self.place_ref(st, fr, p[:-1])) if len(p) > 2 else self.cell(st, fr.loc[p[0]])
                if isinstance(v, (Ref, Choice, Custom, StrV, Opaque)): return v
            return self.place_ref(st, fr, p)
        if k == 'discr':
            v = self.place_read(st, fr, rv[1])
            return self.discr(st, v)
        if k == 'len':
            return self.slice_len(st, self.place_ref(st, fr, rv[1]))
        if k in ('bin', 'cbin'):
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            ta = self.op_ty(fr, rv[2]); tb = self.op_ty(fr, rv[3])
            if k == 'bin':
                if rv[1] == 'Cmp':
                    lt, eq = t.lt(a, b), t.eq(a, b)
                    return Enum(dty, t.ite(lt, 0, t.ite(eq, 1, 2)), {0: (), 1: (), 2: ()})
                return self.binop(st, fr, rv[1], a, b, ta, tb)
            bits, signed = self.ity(ta)
            op = rv[1]
            if op == 'Add': r = t.add(a, b)
            elif op == 'Sub': r = t.sub(a, b)
            elif op == 'Mul': r = t.mul(a, b)
            elif op in ('Shl', 'Shr'):
                r = self.binop(st, fr, op, a, b, ta, tb)
                return Agg(dty, (r, t.not_(t.and_(t.le(0, b), t.lt(b, bits)))))
            else: raise Unsupported('checked ' + op)
            # the flag ends the path when set, so the unwrapped value is the value on every path that goes on
            return Agg(dty, (r, t.not_(self.in_range(r, bits, signed))))
        if k == 'un':
            a = self.operand(st, fr, rv[2]); ta = self.op_ty(fr, rv[2])
            if rv[1] == 'Not':
                if self.T[ta]['k'] == 'bool': return t.not_(a)
                bits, signed = self.ity(ta)
                return t.sub(-1, a) if signed else t.sub((1 << bits) - 1, a)
            if rv[1] == 'Neg':
                if self.T[ta]['k'] == 'float': return t.neg(a)
                bits, signed = self.ity(ta)
                return self.wrap(st, t.neg(a), bits, signed)
            if rv[1] == 'PtrMetadata':
                if isinstance(a, Choice): return self.u.choice_map(a, lambda r: self.slice_len(st, r))
                if isinstance(a, Ref): return self.slice_len(st, a)
                if isinstance(a, StrV): return len(a.s.encode())
                return t.fresh('len')
            raise Unsupported('unary ' + rv[1])
        if k == 'cast': return self.cast(st, fr, rv[1], self.operand(st, fr, rv[2]), self.op_ty(fr, rv[2]), rv[3])
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            return ArrV(self.T[dty]['elem'] if dty is not None and self.T[dty]['k'] == 'array' else self.op_ty(fr, rv[1]), rv[2], ('rep', v))
        if k == 'agg':
            kd = rv[1]; vs = [self.operand(st, fr, o) for o in rv[2]]
            if kd[0] == 'array': return ArrV(kd[1], len(vs), ('list', tuple(vs)))
            if kd[0] == 'tuple': return Agg(dty, vs)
            if kd[0] == 'closure': return Agg(kd[1], vs)
            if kd[0] == 'adt':
                ty = self.T[kd[1]]
                if ty['k'] == 'enum': return Enum(kd[1], kd[2], {kd[2]: tuple(vs)})
                if ty['k'] == 'union': return Opaque('union')
                return Agg(kd[1], vs)
            if kd[0] == 'rawptr':
                v = vs[0]
                if len(vs) > 1 and leafy(vs[1]) and isinstance(v, Ref): return Ref(v.cell, v.path, vs[1])
                return v
            raise Unsupported('aggregate ' + kd[0])
        if k == 'setdiscr': raise Unsupported('setdiscr')
        raise Unsupported('rvalue ' + k)

    def discr(self, st, v):
        if isinstance(v, Choice): return self.u.choice_map(v, lambda x: self.discr(st, x))
        if isinstance(v, Enum):
            vs = self.T[v.ty]['variants']
            ds = [x['discr'] for x in vs]
            if isc(v.d): return ds[v.d]
            if ds == list(range(len(ds))): return v.d
            r = ds[-1]
            for i in range(len(ds) - 2, -1, -1): r = t.ite(t.eq(v.d, i), ds[i], r)
            return r
        if isinstance(v, Opaque): return t.var('discr(%s)' % v.what) if 'merge' not in v.what else t.fresh('discr')
        if isinstance(v, Custom): return v.discr(self, st)
        raise Unsupported('discriminant of %r' % (v,))

    def cast(self, st, fr, kind, v, ft, tt):
        F = self.T[ft]; D = self.T[tt]
        if kind.startswith('IntToInt') or (kind == 'Transmute' and F['k'] == 'int' and D['k'] == 'int'):
            if F['k'] == 'bool': v = t.ite(v, 1, 0)
            if D['k'] == 'bool': return t.ne(v, 0)
            b, s = self.ity(tt)
            return self.wrap(st, v, b, s)
        if kind == 'IntToFloat': return t.toreal(v)
        if kind == 'FloatToFloat': return v
        if kind == 'FloatToInt':
            b, s = self.ity(tt); lo, hi = self.irange(b, s)
            if isc(v): 
                r = int(v)
                return max(lo, min(hi, r))
            r = t.ite(t.le(t.Fraction(0), v), t.floor_(v), t.neg(t.floor_(t.neg(v))))
            return t.tmax(lo, t.tmin(hi, r))
        if 'Unsize' in kind:
            if D['k'] in ('ref', 'ptr'):
                to = self.T[D['to']]
                if to['k'] == 'slice':
                    if isinstance(v, Ref):
                        n = self.T[F['to']].get('len')
                        return Ref(v.cell, v.path, n)
                    if isinstance(v, Choice):
                        n = self.T[F['to']].get('len')
                        return Choice([(c, Ref(r.cell, r.path, n)) for c, r in v.alts])
                if to['k'] == 'dyn' and isinstance(v, Ref): return Ref(v.cell, v.path, ('vt', F['to']))
            return v
        if kind == 'BoxDerefTransmute' and isinstance(v, (Ref, Choice)): return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            if F['k'] in ('ref', 'ptr') and D['k'] in ('ref', 'ptr'): return v
            if D['k'] == 'enum' and D.get('name') == 'std::option::Option' and F['k'] == 'int' and leafy(v):
                def nest(ty):
                    T = self.T[ty]
                    return Agg(ty, (nest(T['variants'][0]['fields'][0][1]),)) if T['k'] == 'struct' else v
                return Enum(tt, t.ite(t.eq(v, 0), 0, 1), {0: (), 1: (nest(D['variants'][1]['fields'][0][1]),)})
            if D['k'] == 'enum' and leafy(v):
                ds = [x['discr'] for x in D['variants']]
                if ds == list(range(len(ds))): return Enum(tt, v, {i: () for i in range(len(ds))})
            if F['k'] == 'struct' and len(F['variants'][0]['fields']) == 1 and D['k'] != 'struct':
                while isinstance(v, Agg) and len(v.fs) == 1: v = v.fs[0]
                return v
            if F['k'] == D['k'] == 'struct' and F.get('name') == D.get('name'): return v
            if D['k'] in ('ref', 'ptr') and isinstance(v, Agg): return v.fs[0]
            if D['k'] == 'struct' and len(D['variants'][0]['fields']) == 1 and F['k'] in ('ref', 'ptr'): return Agg(tt, (self.cast(st, fr, 'Transmute', v, ft, D['variants'][0]['fields'][0][1]),))
            if F["k"] == "fnptr" and D["k"] == "fnptr": return v
            if F['k'] in ('ref', 'ptr') and 'pattern_type' in D['disp']: return v
            n = {'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}.get(F['disp'])
            if n and D['k'] == 'array' and D.get('len') == n and self.T[D['to'] if 'to' in D else D['elem']]['disp'] == 'u8':
                return ArrV(D.get('to', D.get('elem')), n, ('list', tuple(t.fmod(t.fdiv(v, 1 << (8 * i)), 256) for i in range(n))))
            raise Unsupported('transmute %s -> %s' % (F['disp'], D['disp']))
        if 'Ptr' in kind or 'Expose' in kind or 'Provenance' in kind or 'Fn' in kind or 'Reify' in kind:
            if D['k'] == 'fnptr':
                if F['k'] == 'fndef': return FnV(F.get('inst'))
                if F['k'] == 'closure': return FnV(F.get('once'))
            if D['k'] == 'int': return t.fresh('addr')
            if isinstance(v, Ref) and D['k'] in ('ptr', 'ref') and F['k'] in ('ptr', 'ref'):
                a, b = self.T[F['to']], self.T[D['to']]
                if a['id'] != b['id'] and a['k'] != 'slice' and b['k'] != 'slice' and not (a['k'] in ('dyn',) ):
                    # pointer cast to another type: only to the first element of an array, or opaque
                    if a['k'] == 'array' and a['elem'] == b['id']: return Ref(v.cell, v.path + (('idx', 0),))
                    return Ref(v.cell, v.path, v.meta)
            return v
        raise Unsupported('cast %s %s -> %s' % (kind, F['disp'], D['disp']))

    # ---------------- functions
    def run(self, key, st, args):
        """inline execution -> [(state, value)]"""
        b = self.mir.bodies[key]
        body = b.get('body')
        if body is None: raise Unsupported('no body for ' + b['name'])
        self.depth += 1
        if self.depth > 120: raise Unsupported('recursion in ' + b['name'])
        try:
            return self.run_body(key, b, body, st, args)
        finally:
            self.depth -= 1

    def run_body(self, key, b, body, st, args):
        cfg = self.mir.cfg(key)
        rpo = cfg['rpo']
        fr = Frame(); fr.body = body; fr.key = key; fr.def_ = b['def']; fr.name = b['name']
        nl = len(body['locals'])
        fr.loc = [self.u.new_cell() for _ in range(nl)]
        fr.names = None
        n = body['args']
        if len(args) == 2 and n == 2 and '{closure' in b['def'] and isinstance(args[1], Agg) and len(args[1].fs) == 1 and self.T[args[1].ty]['k'] == 'tuple' and args[1].ty != body['locals'][2]:
            args = [args[0], args[1].fs[0]]         # rust-call ABI: the arguments come as a tuple
        if len(args) != n:
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].fs) == n:
                args = [args[0]] + list(args[1].fs)
            elif len(args) == 2 and n == 2: pass
            else: raise Unsupported('arity of %s: %d args for %d' % (b['name'], len(args), n))
        # closure bodies take self by reference or by value
        for i, a in enumerate(args): st.cells[fr.loc[i + 1]] = a
        for i in range(n + 1, nl):
            ty = self.T[body['locals'][i]]
            if ty['k'] in ('fndef',) or (ty['k'] == 'tuple' and not ty['elems']): st.cells[fr.loc[i]] = Agg(body['locals'][i], ())
            elif ty['k'] == 'closure' and not ty['upvars']: st.cells[fr.loc[i]] = Agg(body['locals'][i], ())
        fr.entry = st.copy()
        out = []
        pend = {0: [(st, 'fwd')]}
        heap = [(rpo[0], 0)]
        split = b['def'] in self.split
        lstate = {}
        while heap:
            _, blk = heapq.heappop(heap)
            if blk not in pend: continue
            while blk in cfg['loops']:
                # an iteration is complete when all its paths are back at the head
                rest = [x for x in pend if x != blk and x in cfg['loops'][blk]]
                if not rest: break
                heapq.heappush(heap, (rpo[blk], blk)); blk = min(rest, key=lambda x: rpo[x])
            items = pend.pop(blk)
            sts = [s for s, k in items]
            if blk in cfg['loops']:
                sts = self.loop_head(fr, cfg, blk, items, lstate)
                if not sts: continue
            if len(sts) > 1 and not split:
                sts = self.merge_states(sts, fr, cfg, blk)
            for s in sts:
                self.steps += 1
                for s2, nb in self.block(fr, cfg, blk, s, out):
                    kind = 'back' if (blk, nb) in cfg['back'] else 'fwd'
                    if nb not in pend:
                        pend[nb] = []
                        heapq.heappush(heap, (rpo[nb], nb))
                    pend[nb].append((s2, kind))
        # returns
        res = []
        for s in out:
            v = self.cell(s, fr.loc[0])
            for c in fr.loc: s.cells.pop(c, None)
            res.append((s, v))
        if not split: res = self.merge_returns(res)
        return res

    def enum_key(self, v, deep=2):
        if isinstance(v, Enum) and self.T[v.ty]['disp'].startswith(('std::result::Result<', 'std::ops::ControlFlow<', 'std::option::Option<')):
            if isc(v.d):
                if deep and v.d is not None:
                    fs = v.vs.get(v.d) if not hasattr(v.vs, 'full') else None
                    sub = tuple(self.enum_key(x, deep - 1) for x in fs) if fs else ()
                    if any(x is not None for x in sub): return (v.d, sub)
                return v.d
            return 's'
        return None
    def merge_returns(self, res):
        if len(res) < 2: return res
        groups = {}
        for s, v in res:
            groups.setdefault(self.enum_key(v), []).append((s, v))
        out = []
        for k, g in groups.items():
            while len(g) > 1:
                (s1, v1), (s2, v2) = g[0], g[1]
                g[0:2] = [self.merge2(s1, s2, v1, v2)]
            out.append(g[0])
        return out
    def merge_states(self, sts, fr, cfg, blk):
        live = cfg['live'].get(blk, set()) | cfg['borrowed']
        groups = {}
        for s in sts:
            ks = []
            for l in sorted(live):
                v = s.cells.get(fr.loc[l])
                if v is None: continue
                k = (l, self.enum_key(v), isinstance(v, Undef))
                if k[1] is not None or k[2]: ks.append(k)     # a local that is not initialised yet never blocks a merge
            groups.setdefault(tuple(ks), []).append(s)
        out = []
        for g in groups.values():
            # drop dead locals so that they never block a merge
            for s in g:
                for l in range(1, len(fr.loc)):
                    if l not in live: s.cells.pop(fr.loc[l], None)
            while len(g) > 1:
                try:
                    s, _ = self.merge2(g[0], g[1], UNDEF, UNDEF)
                except Unsupported:
                    out.append(g.pop(1)); continue
                g[0:2] = [s]
            out.append(g[0])
        return out
    def merge2(self, s1, s2, v1, v2):
        k = 0
        p1, p2 = s1.pc, s2.pc
        m = min(len(p1), len(p2))
        while k < m and p1[k] is p2[k]: k += 1
        r1, r2 = p1[k:], p2[k:]
        # selector
        sel = None
        if r1 and r2 and t.not_(r1[0]) is r2[0]: sel = r1[0]
        if sel is None and r1 and not r2: sel = t.and_(*r1)
        if sel is None: 
            sel = t.and_(*r1) if len(r1) <= len(r2) or not r2 else t.not_(t.and_(*r2))
            if not isc(sel) and sel.op in ('and', 'or') and len(sel.args) > 3:
                d = t.fresh('sel', 'Bool')
                base = p1[:k] + (t.eq(d, sel),)
                p = base
                s = State(); s.pc = p + tuple(x for x in [t.implies(d, t.and_(*r1)), t.implies(t.not_(d), t.and_(*r2))] if x is not True)
                return self._merge_cells(s, d, s1, s2, v1, v2)
        s = State()
        a = t.implies(sel, t.and_(*r1)); b = t.implies(t.not_(sel), t.and_(*r2))
        s.pc = p1[:k] + tuple(x for x in (a, b) if x is not True)
        return self._merge_cells(s, sel, s1, s2, v1, v2)
    def _merge_cells(self, s, sel, s1, s2, v1, v2):
        c1, c2 = s1.cells, s2.cells
        cells = s.cells
        for c, v in c1.items():
            w = c2.get(c)
            if w is None:
                l = self.u.pending.get(c)
                w = self.u.sym(l.ty, l.name, l.idx) if l is not None and not (isinstance(v, Undef)) else None
                if w is None: cells[c] = v; continue
            cells[c] = v if v is w else self.u.ite(sel, v, w)
        for c, w in c2.items():
            if c not in c1:
                l = self.u.pending.get(c)
                if l is not None: cells[c] = self.u.ite(sel, self.u.sym(l.ty, l.name, l.idx), w)
                else: cells[c] = w
        for g in set(s1.ghost) | set(s2.ghost):
            a = s1.ghost.get(g, 0); b = s2.ghost.get(g, 0)
            s.ghost[g] = a if a is b else tuple(dict.fromkeys(a + b)) if g == 'acct_havoc' else self.merge_ghost(sel, a, b)
        r = self.u.ite(sel, v1, v2) if v1 is not UNDEF or v2 is not UNDEF else UNDEF
        return s, r
    def merge_ghost(self, sel, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            # event traces: common prefix + conditional suffixes
            a = a or (); b = b or ()
            k = 0
            while k < len(a) and k < len(b) and a[k] == b[k]: k += 1
            return a[:k] + tuple((t.and_(sel, e[0]),) + e[1:] for e in a[k:]) + tuple((t.and_(t.not_(sel), e[0]),) + e[1:] for e in b[k:])
        return self.u.ite(sel, a, b)

    def branch(self, st, cond):
        """restrict a copy of st to cond; None if infeasible"""
        if cond is False: return None
        s = st.copy()
        if cond is True: return s
        for c in s.pc:
            if c is cond: return s
        nc = t.not_(cond)
        for c in s.pc:
            if c is nc: return None
        s.pc = s.pc + (cond,)
        if self.prune and not solve.feasible(s.pc if self.abstract is None else tuple(solve.coi(s.pc[:-1], cond)) + (cond,), self.feas_ms): return None
        return s

    def block(self, fr, cfg, blk, st, out):
        bl = fr.body['blocks'][blk]
        fr.line = bl['l']
        for p, rv in bl['s']:
            if rv[0] == 'setdiscr':
                r = self.place_ref(st, fr, p); v = self.read(st, r)
                self.write(st, r, Enum(v.ty, rv[1], dict_variants(v.vs))); continue
            dty = self.place_ty(fr, p)
            v = self.rvalue(st, fr, rv, dty)
            if len(p) == 1:
                for log in self.writes: log.append((fr.loc[p[0]], ()))
                st.cells[fr.loc[p[0]]] = v
            else:
                self.assign(st, fr, p, v)
        tm = bl['t']; k = tm[0]
        if k == 'goto': return [(st, tm[1])]
        if k == 'return':
            if self.until is not None and self.until(st, fr): return []
            out.append(st); return []
        if k == 'drop': return [(st, tm[2])]
        if k in ('abort', 'unreachable', 'asm'): return []
        if k == 'switch':
            d = self.operand(st, fr, tm[1])
            ty = self.T[self.op_ty(fr, tm[1])]
            res = []
            other = []
            if ty['k'] == 'bool':
                for v, b in tm[2]:
                    c = d if v else t.not_(d)
                    other.append(t.not_(c)); s = self.branch(st, c)
                    if s: res.append((s, b))
            else:
                for v, b in tm[2]:
                    if ty['k'] == 'int' and ty['signed']:
                        if v >> (ty['bits'] - 1): v -= 1 << ty['bits']
                    elif ty['k'] == 'int' and isc(d) and d < 0: pass
                    c = t.eq(d, v)
                    other.append(t.not_(c)); s = self.branch(st, c)
                    if s: res.append((s, b))
            if fr.body['blocks'][tm[3]]['t'][0] != 'unreachable' or fr.body['blocks'][tm[3]]['s']:
                s = self.branch(st, t.and_(*other))
                if s: res.append((s, tm[3]))
            return res
        if k == 'assert':
            c = self.operand(st, fr, tm[1])
            if not tm[2]: c = t.not_(c)
            if self.collect_panics and not self.dry: self.panics.append((st.pc, t.not_(c), fr.def_, fr.line, tm[4]))
            s = self.branch(st, c)
            return [(s, tm[3])] if s else []
        if k == 'call':
            if self.until is not None and self.until(st, fr): return []
            f = tm[1]
            args = [self.operand(st, fr, o) for o in tm[2]]
            dty = self.place_ty(fr, tm[3])
            info = CallInfo(f, tm[2], [self.op_ty(fr, o) for o in tm[2]], dty, fr, bl['l'])
            rs = self.call(st, info, args)
            res = []
            if tm[4] is None: return []
            for s, v in rs:
                if v is not UNDEF or True:
                    if len(tm[3]) == 1:
                        for log in self.writes: log.append((fr.loc[tm[3][0]], ()))
                        s.cells[fr.loc[tm[3][0]]] = v
                    else: self.assign(s, fr, tm[3], v)
                res.append((s, tm[4]))
            return res
        raise Unsupported('terminator ' + k)
    def assign(self, st, fr, p, v):
        r = self.place_ref(st, fr, p)
        # initialisation of fields of an undefined local
        if isinstance(r, Ref) and st.cells.get(r.cell) in (None, UNDEF) and r.cell not in self.u.pending:
            st.cells[r.cell] = self.blank(fr.body['locals'][p[0]])
        self.write(st, r, v)
    def blank(self, tid):
        ty = self.T[tid]
        if ty['k'] == 'struct': return Agg(tid, [UNDEF] * len(ty['variants'][0]['fields']))
        if ty['k'] == 'tuple': return Agg(tid, [UNDEF] * len(ty['elems']))
        if ty['k'] == 'enum': return Enum(tid, 0, {})
        return UNDEF

    # ---------------- calls
    def call(self, st, info, args):
        f = info.f
        if 'ptr' in f:
            v = self.operand(st, info.fr, f['ptr'])
            if isinstance(v, FnV):
                bl = (self.mir.bodies[v.key].get('body') or {}).get('locals')
                if bl and self.mir.bodies[v.key]['name'].endswith('call_once') and self.T[bl[1]]['k'] == 'closure' and self.T[bl[2]]['k'] == 'tuple' and len(self.T[bl[2]]['elems']) == len(args):
                    args = [Agg(bl[1], ()), Agg(bl[2], tuple(args))]      # a closure without captures used as a function pointer
                f = {'fn': v.key, 'def': self.mir.bodies[v.key]['def'], 'kind': 'Item', 'targs': []}
                info.f = f
            else: return self.unknown(st, info, args, 'fnptr')
        key = f.get('fn')
        if key is None: return self.unknown(st, info, args, f.get('def', '?'))
        b = self.mir.bodies.get(key)
        name = b['name']; d = b['def']
        info.key = key; info.name = name; info.def_ = d; info.b = b
        if self.abstract is None: return self.call_key(st, info, args)
        s0 = st.copy()
        try: return self.call_key(st, info, args)
        except (Unsupported, AttributeError, TypeError, IndexError, KeyError) as e:
            if DBG: print('ABS', name[:150], '<-', e, flush=True)
            if isinstance(e, Unsupported) and type(e) is not Unsupported or FRAME(name): raise
            return self.abs_call(s0, info, args)
    def effects(self, key):
        """types of account data the call can write by loading accounts itself (call graph of the compiled code);
        -1: any account (raw access to account data, or a call that cannot be resolved)"""
        memo = self.mir.__dict__.setdefault('_effects', {})
        if key in memo: return memo[key]
        out = set(); seen = set(); todo = [key]; B = self.mir.bodies
        fixed = next(i for i, x in enumerate(self.T) if x.get('disp', '').endswith('state::mango_account::MangoAccountFixed'))
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            b = B.get(k)
            if b is None: out.add(-1); continue
            nm = b['name']
            if re.search(r'load_full_(mut|init)$', nm): out.add(fixed); continue
            if re.search(r'::(load_mut|load_init)$|::load_mut(_fully_unchecked)?::<', nm):
                ts = [x for x in b['targs'] or [] if isinstance(x, int)]
                out.add(ts[-1] if ts else -1); continue
            if re.search(r'try_borrow_mut_data|RefCell::<.*\[u8\]>::(try_)?borrow_mut|data_as_mut_slice$|AccountInfo.*::realloc$|AccountsClose.*::close$|AccountInfo.*::assign$', nm): out.add(-1); continue
            if nm.endswith('AccountInfoRefMut::<\'_, \'_>::borrow') or nm.endswith('AccountInfoRefMut::<\'_, \'_>::borrow_slice'): continue      # writes only through load_mut
            std = re.match(r'(<)?(std|core|alloc|hashbrown)::', nm)
            if b.get('body') is None:
                if not std and (b['kind'].startswith('Virtual') or 'dyn ' in nm): out.add(-1)
                continue
            # functions that are passed on as values may be called
            tys = set(b['body']['locals'])
            for bl in b['body']['blocks']:
                for p, r in bl['s']:
                    tys.update(o['c'] for o in r if isinstance(o, dict) and isinstance(o.get('c'), int))
                tm = bl['t']
                if tm[0] != 'call': continue
                f = tm[1]; tys.update(o['c'] for o in tm[2] if isinstance(o, dict) and isinstance(o.get('c'), int))
                if f.get('fn') is not None:
                    if not f.get('kind', '').startswith('Virtual'): todo.append(f['fn'])
                    elif not std: out.add(-1)
            for x in tys:
                x = self.T[x]
                for w in ('inst', 'once'):
                    if x.get(w): todo.append(x[w])
        memo[key] = out
        return out
    def reachable_accounts(self, st, vals, eff=(-1,)):
        """data cells of the accounts an argument can reach (through references, account wrappers, guards)"""
        byacct = {}; tids = {}
        for k, c in self.u.acct_cells.items():
            if k[2] == 'data': byacct.setdefault((k[0], k[1]), []).append(c); tids[c] = k[3]
        cells = {c: c for l in byacct.values() for c in l}
        out = set(); seen = set(); todo = list(vals)
        def acct(name, idx):
            g = st.ghost.get('acct_havoc') or ()
            new = tuple((name, idx, e) for e in eff if (name, idx, e) not in g)
            if new: st.ghost['acct_havoc'] = tuple(g) + new
            for c in byacct.get((name, idx), ()):
                if -1 in eff or tids[c] in eff: out.add(c)
        while todo:
            v = todo.pop()
            if isinstance(v, Custom) and hasattr(v, 'datacell'): acct(v.name, v.idx)
            elif isinstance(v, Custom) and hasattr(v, 'children'): todo += v.children(self, st)
            elif isinstance(v, Ref):
                if v.cell in cells: out.add(v.cell)
                if v.cell in seen: continue
                seen.add(v.cell)
                x = st.cells.get(v.cell)
                if x is not None: todo.append(x)
                elif v.cell in self.u.pending:
                    l = self.u.pending[v.cell]
                    if l.name.startswith('accounts*'):      # the raw account list
                        for k2 in byacct: acct(*k2)
            elif isinstance(v, Choice): todo += [x for _, x in v.alts]
            elif isinstance(v, Agg): todo += list(v.fs)
            elif isinstance(v, Enum): todo += [x for fs in v.vs.values() if fs for x in fs]
            elif isinstance(v, VecV): todo.append(v.arr)
            elif isinstance(v, ArrV):
                if v.base[0] in ('list',): todo += list(v.base[1])
                todo += [w[2] for w in v.writes]
        return out
    def abs_call(self, st, info, args):
        """an arbitrary call: arbitrary result, arbitrary new contents of all it could write"""
        T = self.T
        nm = getattr(info, 'name', '?')
        if self.on_abs: self.on_abs(st, info, args)
        if re.search(r'prelude::\w+<.*> as anchor_lang::AccountsExit<.*>>::exit$', nm): return [(st, self.fresh_val(info.dty, 'ret.exit'))]      # writes back what the account already holds
        def reach(ty, d=4):
            x = T[ty]
            if x['k'] in ('ref', 'ptr'): return x['mut'] or reach(x['to'], d - 1)
            return x['k'] in ('struct', 'enum', 'closure', 'tuple', 'slice', 'array') and any(w in x['disp'] for w in ('AccountInfo', 'AccountLoader', 'accounts_ix', 'Context', '&mut', 'RefMut', 'prelude::Account', '{closure'))
        rs = [v for v, ta in zip(args, info.atys) if ta is not None and reach(ta)]
        if rs:
            st.ghost['effect'] = True
            for c in self.reachable_accounts(st, rs, self.effects(info.key) if getattr(info, 'key', None) else (-1,)):
                st.cells[c] = self.fresh_val(self.u.pending[c].ty, 'hv.acct')
                for log in self.writes: log.append((c, ()))
        return self.unknown(st, info, args, getattr(info, 'name', '?'))
    def call_key(self, st, info, args):
        key = info.key; b = info.b; name = info.name; d = info.def_
        h = self.hooks.get(d) or self.hooks.get(name)
        if h:
            r = h(self, st, args, info)
            if r is not None: return r
        if d != self.skip:
            ov = self.overrides.get(name) or self.overrides.get(d)
            if ov is not None:
                return ov(self, st, args, info)
            sp = self.contracts.get(d) or self.contracts.get(name)
            if sp is not None:
                return self.apply_contract(sp, st, info, args)
        r = self.intr.lookup(b, info)
        if r is not None:
            try: out = r(self, st, args, info)
            except (AttributeError, TypeError, IndexError, KeyError) as e: raise Unsupported('the model of %s does not apply: %s' % (name[:120], e))
            if out is not None: return out
        if info.f.get('kind', '').startswith('Virtual') or b['kind'].startswith('Virtual'):
            return self.virtual(st, info, args)
        if b.get('body') is None: return self.unknown(st, info, args, name)
        if self.abstract is not None and not self.abstract(name, b): return self.abs_call(st, info, args)
        if name.startswith('mango_v4') or name.startswith('<mango_v4'): self.inlined.add(d)
        return self.run(key, st, args)
    def virtual(self, st, info, args):
        return self.unknown(st, info, args, info.name)
    def sub(self, st, key, args, ret_ty=None):
        """call an instance from a model (closures etc.)"""
        b = self.mir.bodies[key]
        info = CallInfo({'fn': key, 'def': b['def'], 'kind': b['kind'], 'targs': b['targs']}, [], [], b.get('abi_ret'), None, 0)
        info.key = key; info.name = b['name']; info.def_ = b['def']; info.b = b
        return self.call_key(st, info, args)

    def fresh_val(self, tid, name):
        t._fresh[0] += 1
        return self.u.sym(tid, '%s!%d' % (name, t._fresh[0]))
    def havoc_ref(self, st, ref, tid, why):
        """overwrite what a &mut argument points to with an arbitrary value"""
        if isinstance(ref, Choice):
            for c, r in ref.alts: self.havoc_ref(st, r, tid, why)
            return
        if isinstance(ref, Custom): return ref.havoc(self, st, why)
        if not isinstance(ref, Ref): return
        ty = self.T[tid]
        if ty['k'] == 'slice':
            v = self.u.get(self.cell(st, ref.cell), tuple(p for p in ref.path if p[0] != 'off'))
            if isinstance(v, ArrV):
                t._fresh[0] += 1
                nv = ArrV(v.ety, v.n, ('sym', '%s!%d' % (why, t._fresh[0]), ()))
                self.write(st, Ref(ref.cell, tuple(p for p in ref.path if p[0] != 'off')), nv)
            return
        if ty['k'] in ('str', 'dyn'): return
        self.write(st, ref, self.fresh_val(tid, why))
    def unknown(self, st, info, args, why):
        nm = info.name if hasattr(info, 'name') else why
        if not self.dry: self.unknown_calls[nm] = self.unknown_calls.get(nm, 0) + 1
        for a, ta in zip(args, info.atys):
            if ta is None: continue
            ty = self.T[ta]
            if ty['k'] in ('ref', 'ptr') and ty['mut'] and isinstance(a, (Ref, Choice)):
                self.havoc_ref(st, a, ty['to'], 'hv')
        if info.dty is None: return [(st, Opaque('unknown'))]
        if self.T[info.dty]['k'] == 'never': return []
        return [(st, self.fresh_val(info.dty, 'ret.' + nm.split('::')[-1].strip('>')))]

    # ---------------- contracts
    def apply_contract(self, sp, st, info, args):
        if sp.trusted: self.used_trusted[sp.name] = sp.note
        self.used_contracts.add(sp.name)
        if sp.apply: return sp.apply(self, st, args, info)
        c = CallCtx(self, info.key, st, st.copy(), args, None)
        if sp.requires:
            for lab, g in sp.requires(c):
                self.oblige(st, info.fr.def_ if info.fr else '?', 'precondition %s of %s' % (lab, sp.name.split('::')[-1]), g, 'pre', info.line)
                st.assume(g)
        if sp.value:
            from .intr import mkfx
            v = sp.value(c); rty = info.dty if info.dty is not None else info.b['abi_ret']
            return [(st, mkfx(self, rty, v) if self.T[rty]['disp'].startswith('fixed::') else v)]
        # frame
        for m in sp.modifies:
            i, path = m
            ty = self.T[self.arg_ty(info.key, i)]
            ref = args[i]
            tid = ty['to']
            for fn in path:
                fi, ft = self.mir.fidx(tid, fn)
                ref = self.ext(st, info.fr, ref, ['f', fi, ft]); tid = ft
            self.havoc_ref(st, ref, tid, sp.name.split('::')[-1] + '.' + '.'.join(path or ('self',)))
        rty = info.dty if info.dty is not None else info.b['abi_ret']
        ty = self.T[rty]
        outs = []
        nm = 'ret.' + sp.name.split('::')[-1]
        if ty['disp'].startswith('std::result::Result<') :
            ok = self.fresh_val(ty['variants'][0]['fields'][0][1], nm + '.ok')
            er = self.fresh_val(ty['variants'][1]['fields'][0][1], nm + '.err')
            s2 = st.copy()
            outs = [(st, Enum(rty, 0, {0: (ok,)})), (s2, Enum(rty, 1, {1: (er,)}))]
        else:
            outs = [(st, self.fresh_val(rty, nm))]
        res = []
        for s, v in outs:
            cc = CallCtx(self, info.key, s, c.old_st, args, v)
            if len(outs) == 2 and v.d == 1 and not sp.on_err: res.append((s, v)); continue      # the contract says nothing about an Err
            for lab, g in (sp.ensures(cc) if sp.ensures else []): s.assume(g)
            if not self.prune or solve.feasible(s.pc, self.feas_ms): res.append((s, v))
        return res
    def arg_ty(self, key, i):
        return self.mir.bodies[key]['body']['locals'][i + 1]

    def oblige(self, st, fn, label, goal, kind, line=None):
        if self.dry: return
        self.obls.append(Obl(fn, label, st.pc, goal, kind, line))

    # ---------------- loops
    def loop_head(self, fr, cfg, h, items, lstate):
        ordn = cfg['heads'].index(h)
        spec = self.loops.get((fr.def_, ordn)) or self.loops.get((fr.name, ordn)) or self.loops.get((fr.def_, None)) or lstate.get(('spec', h))
        if spec is None and '*' in self.loops and not getattr(self, 'concrete', False):
            # chosen by what the loop iterates over
            for match, sp in self.loops['*']:
                try: ok = match(LoopCtx(self, fr, items[0][0], items[0][0], cfg['inloop'][h]))
                except Unsupported: ok = False
                if ok: spec = lstate[('spec', h)] = sp; break
        spec = spec or self.default_loop
        fw = [s for s, k in items if k == 'fwd']; bk = [s for s, k in items if k == 'back']
        if spec is None or spec.unroll:
            lim = spec.unroll if spec and spec.unroll else self.default_unroll
            if fw: lstate[h] = 0
            if bk:
                lstate[h] = lstate.get(h, 0) + 1
                if lstate[h] > lim:
                    raise Unsupported('loop %d of %s is not exhausted by %d unrollings and has no invariant' % (ordn, fr.def_, lim))
            return fw + bk
        res = []
        if bk:
            for s in bk:
                ent = lstate[h]
                c = LoopCtx(self, fr, s, ent, cfg['inloop'][h]); c.mods = lstate[('mods', h)]
                if spec.step: spec.step(lstate[('head', h)], c)
                for lab, g in spec.inv(c):
                    self.oblige(s, fr.def_, 'loop %d invariant %s is preserved' % (ordn, lab), g, 'inv', fr.body['blocks'][h]['l'])
        if fw:
            if len(fw) > 1: fw = self.merge_states(fw, fr, cfg, h)
            for s in fw:
                res += self.enter_loop(fr, cfg, h, s, spec, ordn, lstate)
        return res

    def enter_loop(self, fr, cfg, h, st, spec, ordn, lstate):
        live = cfg['live'].get(h, set()) | cfg['borrowed']
        # find the cells the loop writes
        M = set()
        ent = st
        pend0 = set(self.u.pending); newacc = set()
        for rnd in range(6):
            s = self.havoc_mod(fr, ent.copy(), M, live, rnd)
            for n, so in spec.ghost.items(): s.ghost[n] = t.fresh('ghost.' + n, so)
            c = LoopCtx(self, fr, s, ent, cfg['inloop'][h]); c.mods = M
            for lab, g in spec.inv(c): s.assume(g)
            log = []
            self.writes.append(log); self.dry += 1
            try:
                self.loop_body_once(fr, cfg, h, s)
            finally:
                self.writes.pop(); self.dry -= 1
            M2 = set(M)
            mine = {fr.loc[l]: l for l in range(len(fr.loc))}
            if self.u.acct_cells: back = {c: k for k, c in self.u.acct_cells.items() if len(k) > 3}
            for cell, path in log:
                if cell in self.u.pending and cell not in pend0 and cell in back:
                    # data of an account that is chosen by the loop: arbitrary at the head, like that of every account of the list
                    k = back[cell]; newacc.add((k[0], k[3]))
                    for c2, k2 in back.items():
                        if c2 in pend0 and k2[0] == k[0] and k2[3] == k[3]: M2.add((c2, ()))
                    continue
                if cell in ent.cells or cell in self.u.pending or cell in mine:
                    if cell in mine and mine[cell] not in live: continue
                    M2.add((cell, self.norm_path(path)))
            M2 = self.reduce_mods(M2)
            if M2 == M: break
            M = M2
        else:
            raise Unsupported('modified set of loop %d of %s does not stabilise' % (ordn, fr.def_))
        c = LoopCtx(self, fr, st, st, cfg['inloop'][h]); c.mods = M
        for lab, g in spec.inv(c):
            self.oblige(st, fr.def_, 'loop %d invariant %s holds on entry' % (ordn, lab), g, 'inv', fr.body['blocks'][h]['l'])
        s = self.havoc_mod(fr, ent.copy(), M, live, 'f')
        for n, so in spec.ghost.items(): s.ghost[n] = t.fresh('ghost.' + n, so)
        if newacc: s.ghost['acct_havoc'] = tuple(dict.fromkeys((s.ghost.get('acct_havoc') or ()) + tuple((n, None, tid) for n, tid in sorted(newacc, key=repr))))
        lstate[h] = ent; lstate[('head', h)] = s.copy(); lstate[('mods', h)] = M
        c = LoopCtx(self, fr, s, ent, cfg['inloop'][h]); c.mods = M
        for lab, g in spec.inv(c): s.assume(g)
        return [s]
    def norm_path(self, path):
        out = []
        for p in path:
            if p[0] in ('idx', 'off'):
                if p[0] == 'off': continue
                if not (out and out[-1] == ('*i',)): out.append(('*i',))
            else: out.append(p)
        return tuple(out)
    def reduce_mods(self, M):
        out = set()
        for c, p in M:
            if any(c2 == c and p2 != p and p[:len(p2)] == p2 for c2, p2 in M): continue
            out.add((c, p))
        return out
    def loop_body_once(self, fr, cfg, h, st):
        """execute from the head until back edges or exits (exits are not followed)"""
        L = cfg['loops'][h]
        rpo = cfg['rpo']
        pend = {h: [(st, 'first')]}; heap = [(rpo[h], h)]
        lst = {}
        out = []
        while heap:
            _, blk = heapq.heappop(heap)
            if blk not in pend: continue
            items = pend.pop(blk)
            sts = [s for s, k in items]
            if blk != h and blk in cfg['loops']:
                sts = self.loop_head(fr, cfg, blk, items, lst)
                if not sts: continue
            if len(sts) > 1: sts = self.merge_states(sts, fr, cfg, blk)
            for s in sts:
                for s2, nb in self.block(fr, cfg, blk, s, out):
                    if nb not in L or nb == h: continue
                    kind = 'back' if (blk, nb) in cfg['back'] else 'fwd'
                    if nb not in pend:
                        pend[nb] = []; heapq.heappush(heap, (rpo[nb], nb))
                    pend[nb].append((s2, kind))
    def havoc_mod(self, fr, st, M, live, tag):
        for cell, path in sorted(M, key=repr):
            v = st.cells.get(cell)
            if v is None:
                v = self.cell(st, cell)
            if v is UNDEF or v is None: continue
            t._fresh[0] += 1
            nm = 'L%d' % t._fresh[0]
            hint = next((self.T_local(fr, l) for l, c in enumerate(fr.loc) if c == cell), None)
            st.cells[cell] = self.havoc_at(st, v, list(path), nm, hint)
        return st
    def T_local(self, fr, l): return self.place_ty(fr, [l])
    def havoc_at(self, st, v, path, nm, hint=None):
        u = self.u
        if not path:
            if hint is not None and (isc(v) or isinstance(v, Term)) and self.T[hint]['k'] in ('int', 'uint') and not isinstance(v, bool) and t.sort(v) == 'Int':
                return u.sym(hint, nm)
            return self.havoc_like(st, v, nm)
        p = path[0]
        if isinstance(v, Lazy): v = u.sym(v.ty, v.name, v.idx)
        if p[0] == '*i':
            if isinstance(v, VecV): return VecV(v.ety, self.havoc_at(st, v.arr, path, nm), v.len)
            if not isinstance(v, ArrV): return self.havoc_like(st, v, nm)
            rest = path[1:]
            if not rest or any(q[0] in ('d', 'view', '*i', 'vec') for q in rest):
                return ArrV(v.ety, v.n, ('sym', nm, ()))
            ft = self.path_ty(v.ety, rest)
            if ft is None: return ArrV(v.ety, v.n, ('sym', nm, ()))
            return ArrV(v.ety, v.n, ('fh', v, tuple(rest), ft, nm, ()))
        if p[0] == 'f' and isinstance(v, Agg):
            fs = list(v.fs); fs[p[1]] = self.havoc_at(st, fs[p[1]], path[1:], nm, p[2] if len(p) > 2 else None); return Agg(v.ty, fs)
        if p[0] == 'vec' and isinstance(v, VecV):
            return VecV(v.ety, self.havoc_at(st, v.arr, path[1:], nm), v.len)
        return self.havoc_like(st, v, nm)
    def path_ty(self, tid, path):
        for p in path:
            if p[0] == 'f' and len(p) > 2 and p[2] is not None: tid = p[2]
            else: return None
        return tid
    def havoc_like(self, st, v, nm):
        u = self.u
        if isinstance(v, bool): return t.var(nm, 'Bool')
        if isinstance(v, int): return t.var(nm, 'Int')
        if isinstance(v, t.Fraction): return t.var(nm, 'Real')
        if isinstance(v, Term):
            x = t.var(nm, v.sort)
            if v.op == 'var' and v.args[0] in t.RANGE: t.RANGE[nm] = t.RANGE[v.args[0]]
            return x
        if isinstance(v, Agg):
            ty = self.T[v.ty]
            if any(isinstance(x, (IterV, Ref, Choice, VecV, Custom, Enum)) or x is UNDEF for x in v.fs) or v.ty is None:
                return Agg(v.ty, [self.havoc_like(st, x, nm + '.%d' % i) for i, x in enumerate(v.fs)])
            return u.sym(v.ty, nm)
        if isinstance(v, Enum): 
            return u.sym(v.ty, nm)
        if isinstance(v, ArrV): return ArrV(v.ety, v.n, ('sym', nm, ()))
        if isinstance(v, VecV):
            ln = t.ranged(t.var(nm + '.len'), 0, (1 << 32) - 1)
            return VecV(v.ety, ArrV(v.ety, None, ('sym', nm, ())), ln)
        if isinstance(v, IterV):
            p = t.var(nm + '.pos')
            st.assume(t.and_(t.le(v.pos, p), t.le(p, v.end)))
            return IterV(v.ref, p, v.end)
        if isinstance(v, Custom): return v.havoc_like(self, st, nm)
        if isinstance(v, (Opaque, StrV, FnV)): return v
        if isinstance(v, (Ref, Choice)): raise Unsupported('loop changes a reference')
        if v is UNDEF: return v
        raise Unsupported('havoc of %r' % (v,))

class Frame:
    pass
class CallInfo:
    def __init__(self, f, ops, atys, dty, fr, line):
        self.f = f; self.ops = ops; self.atys = atys; self.dty = dty; self.fr = fr; self.line = line
        self.name = f.get('def', 'ptr'); self.key = None

# ------------------------------------------------------------------------------------------------
GUARDS = ('std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut')
class View:
    """read access to a value (through references) by Rust field names"""
    __slots__ = ('_e', '_s', '_v', '_t')
    def __init__(self, ex, st, v, ty):
        object.__setattr__(self, '_e', ex); object.__setattr__(self, '_s', st)
        T = ex.T
        # follow references
        while ty is not None and T[ty]['k'] in ('ref', 'ptr') and isinstance(v, (Ref, Choice, Custom)):
            if T[T[ty]['to']]['k'] in ('slice', 'str', 'dyn'): break
            v = ex.read(st, v); ty = T[ty]['to']
            while isinstance(v, (Ref, Choice)) and T[ty]['k'] == 'struct' and T[ty]['name'] in GUARDS: v = ex.read(st, v); ty = T[ty]['args'][0]
        while isinstance(v, (Ref, Choice)) and ty is not None and T[ty]['k'] == 'struct' and T[ty]['name'] in GUARDS: v = ex.read(st, v); ty = T[ty]['args'][0]
        if isinstance(v, Lazy): v = ex.u.sym(v.ty, v.name, v.idx)
        object.__setattr__(self, '_v', v); object.__setattr__(self, '_t', ty)
    def _wrap(self, v, ty):
        if isinstance(v, Lazy): v = self._e.u.sym(v.ty, v.name, v.idx)
        T = self._e.T
        if leafy(v): return v
        if ty is not None and T[ty]['disp'] in ('fixed::I80F48', 'fixed::FixedI128<fixed::types::extra::U48>', 'fixed::FixedU128<fixed::types::extra::U48>') or (ty is not None and T[ty].get('name', '').split('::')[-1] in ('FixedI128', 'FixedU128', 'FixedU64', 'I80F48', 'U80F48', 'U64F64')):
            return [x for x in v.fs if leafy(x)][0]
        return View(self._e, self._s, v, ty)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        e = self._e; ty = self._t
        if isinstance(self._v, Custom): return self._v.view_attr(self, n)
        tt = e.T[ty]
        if tt['k'] == 'tuple' or tt['k'] == 'closure':
            i = int(n[1:]); el = tt.get('elems') or tt.get('upvars')
            return self._wrap(e.u.get(self._v, (('f', i, el[i]),)), el[i])
        i, ft = e.mir.fidx(ty, n.lstrip('_') if n.startswith('_') and n[1:].isdigit() else n)
        v = e.u.get(self._v, (('f', i, ft),))
        r = self._wrap(v, ft)
        return r
    def __getitem__(self, i):
        v = self._v; e = self._e
        if isinstance(v, (Ref, Choice)): 
            r = e.ext(self._s, None, v, ['ci', 0, 0, False]) if False else Ref(v.cell, v.path + (('idx', i),))
            x = e.read(self._s, r)
            el = e.T[e.T[self._t]['to']]['elem']
            return self._wrap(x, el)
        if isinstance(v, VecV): return self._wrap(e.u.arr_get(v.arr, i), v.ety)
        return self._wrap(e.u.arr_get(v, i), v.ety)
    def len(self):
        v = self._v
        if isinstance(v, Ref): return v.meta
        if isinstance(v, VecV): return v.len
        return v.n
    # enums
    @property
    def d(self):
        return self._e.discr(self._s, self._v)
    def is_(self, name):
        v = self._v
        if isinstance(v, Choice): return self._e.u.choice_map(v, lambda x: View(self._e, self._s, x, self._t).is_(name))
        if isinstance(v, Opaque): return t.var('is_%s(%s)' % (name, v.what), 'Bool')
        vs = [x['name'] for x in self._e.T[self._t]['variants']]
        return t.eq(v.d, vs.index(name))
    def as_(self, name, i=0):
        vs = self._e.T[self._t]['variants']
        k = [x['name'] for x in vs].index(name)
        fn, ft = vs[k]['fields'][i]
        if isinstance(self._v, Enum) and (self._v.vs.get(k) is None or self._v.vs.get(k)[i] is UNDEF):
            return self._wrap(self._e.fresh_val(ft, 'no.' + name), ft)      # never that variant here: an arbitrary value
        return self._wrap(self._e.u.get(self._v, (('d', k), ('f', i, ft))), ft)
    @property
    def ok(self): return self.is_('Ok')
    @property
    def some(self): return self.is_('Some')
    def val(self): return self.as_('Ok' if self._e.T[self._t]['variants'][0]['name'] == 'Ok' else 'Some')

class CallCtx:
    """what a contract sees: arguments before / after, result"""
    def __init__(self, ex, key, st, old_st, args, ret, ret_ty=None):
        self.ex = ex; self.key = key; self.st = st; self.old_st = old_st; self.args = args; self._ret = ret
        b = ex.mir.bodies[key]
        self.b = b
        self.tys = b['body']['locals'] if 'body' in b else None
        self.ret_ty = self.tys[0] if self.tys else b['abi_ret']
        nm = {}
        if 'body' in b:
            for n, p in b['body']['names']:
                if len(p) == 1 and 1 <= p[0] <= b['body']['args']: nm.setdefault(n, p[0] - 1)
        self.nm = nm
    def _i(self, i): return self.nm[i] if isinstance(i, str) else i
    def new(self, i):
        i = self._i(i); v = View(self.ex, self.st, self.args[i], self.tys[i + 1]); return v._wrap(v._v, v._t)
    def old(self, i):
        i = self._i(i); v = View(self.ex, self.old_st, self.args[i], self.tys[i + 1]); return v._wrap(v._v, v._t)
    arg = old
    @property
    def ret(self):
        v = View(self.ex, self.st, self._ret, self.ret_ty)
        return v._wrap(v._v, v._t)
    def is_ok(self):
        r = self.ret
        return r.ok
    def okval(self):
        return self.ret.as_('Ok')

class LoopCtx:
    def __init__(self, ex, fr, st, ent, used=None):
        self.ex = ex; self.fr = fr; self.st = st; self.ent = ent; self.mods = ()
        self.used = range(len(fr.loc)) if used is None else used  # the locals that the loop mentions
        self.nm = {}
        for n, p in fr.body['names']:
            self.nm.setdefault(n, []).append(p)
    def _view(self, st, n, k=-1):
        p = self.nm[n][k] if isinstance(n, str) else [n]
        v = self.ex.place_read(st, self.fr, p); ty = self.ex.place_ty(self.fr, p)
        w = View(self.ex, st, v, ty)
        return w._wrap(w._v, w._t)
    def __getitem__(self, n): return self._view(self.st, *(n if isinstance(n, tuple) else (n,)))
    def entry(self, *n): return self._view(self.ent, *n)
    def fentry(self, *n): return self._view(self.fr.entry, *n)
    def raw(self, n, k=-1):
        p = self.nm[n][k] if isinstance(n, str) else [n]
        return self.ex.place_read(self.st, self.fr, p)
    def locals_of(self, pred, st=None):
        st = st or self.st
        return [(i, st.cells.get(c)) for i, c in enumerate(self.fr.loc) if st.cells.get(c) is not None and pred(st.cells.get(c))]
    def iters(self):
        """all live slice iterators of the frame"""
        r = []
        def walk(v):
            if isinstance(v, IterV): r.append(v)
            elif isinstance(v, Agg):
                for x in v.fs: walk(x)
        for i, c in enumerate(self.fr.loc):
            v = self.st.cells.get(c)
            if v is not None: walk(v)
        return r
