"""Models (assumed contracts) of library functions: core / std pieces whose bodies are not
executed, the `fixed` crate, anchor_lang and bytemuck.  Each entry is a transformer
f(ex, st, args, info) -> [(state, value)] or None (no model, fall through)."""
import re
from . import term as t
from .term import Term, isc
from .val import *
from .sym import Custom, dict_variants

TRUSTED = {}      # model name -> one-line description of the assumed contract (for the evidence)
I128 = (-(1 << 127), (1 << 127) - 1)

def strip(n):
    out = []; d = 0; i = 0
    # remove generic argument lists '::<...>' at depth 0
    while i < len(n):
        if n.startswith('::<', i) and not n.startswith('::<impl', i):
            j = i + 3; d = 1
            while d and j < len(n):
                if n[j] == '<': d += 1
                elif n[j] == '>' and n[j-1] != '-': d -= 1
                j += 1
            i = j; continue
        out.append(n[i]); i += 1
    return ''.join(out)

class Intr:
    def __init__(self):
        self.exact = {}; self.rx = []; self.cache = {}; self.prefix = []
    def add(self, names, f, note=None):
        for n in ([names] if isinstance(names, str) else names):
            self.exact[n] = f
            if note: TRUSTED[n] = note
    def addrx(self, rx, f, note=None):
        self.rx.append((re.compile(rx), f))
        if note: TRUSTED[rx] = note
    def lookup(self, b, info):
        k = b['key']
        if k in self.cache: return self.cache[k]
        n = strip(b['name']); d = b['def']
        r = self.exact.get(n) or self.exact.get(b['name']) or self.exact.get(d)
        if r is None:
            for rx, f in self.rx:
                if rx.search(n): r = f; break
            m = None if r else re.match(r'^(?:std|core|alloc)::[\w:]*::<impl ((?:std|core)::[\w:]+(?:<.*>)?) for (.*)>::(\w+)$', n)
            if m:                                       # an impl outside the module of its type: named <T as Trait>::f elsewhere
                n = '<%s as %s>::%s' % (m[2], m[1], m[3])
                for rx, f in self.rx:
                    if rx.search(n): r = f; break
        self.cache[k] = r
        return r

def bits(ex, st, v):
    while isinstance(v, (Ref, Choice)): v = ex.read(st, v)
    if isinstance(v, Agg):
        for x in v.fs:
            if leafy(x): return x
    if isinstance(v, Opaque): return t.var(v.what)
    if leafy(v): return v
    raise Unsupported('fixed value %r' % (v,))
def mkfx(ex, ty, b):
    """I80F48 value of type id ty from bits"""
    tt = ex.T[ty]; fs = []
    for n, ft in tt['variants'][0]['fields']:
        fs.append(b if ex.T[ft]['k'] == 'int' else Agg(ft, ()))
    return Agg(ty, fs)
def isfx(ex, ty): return ex.T[ty]['disp'].startswith('fixed::')
FR = {'fixed::I80F48': 48, 'fixed::U64F64': 64, 'fixed::U80F48': 48}
RNG = {'fixed::I80F48': (-(1 << 127), (1 << 127) - 1), 'fixed::U64F64': (0, (1 << 128) - 1), 'fixed::U80F48': (0, (1 << 128) - 1)}
def require(ex, st, c, what='overflow', info=None):
    """the operation panics unless c"""
    if ex.collect_panics and not ex.dry: ex.panics.append((st.pc, t.not_(c), info.fr.def_ if info and info.fr else '?', info.line if info else 0, what))
    return ex.branch(st, c)
def rng(x, lo, hi): return t.and_(t.le(lo, x), t.le(x, hi))

def deref_ty(ex, ty):
    while ty is not None and ex.T[ty]['k'] in ('ref', 'ptr'): ty = ex.T[ty]['to']
    return ty
def num_to_bits(ex, st, v, ty, frac=48):
    """FromFixed: any numeric primitive -> bits of the fixed type (floor for floats)"""
    T = ex.T
    while T[ty]['k'] in ('ref', 'ptr'):
        v = ex.read(st, v); ty = T[ty]['to']
    tt = T[ty]
    if tt['k'] == 'int': return t.mul(v, 1 << frac)
    if tt['k'] == 'bool': return t.ite(v, 1 << frac, 0)
    if tt['k'] == 'float':
        return t.floor_(t.mul(v, t.Fraction(1 << frac)))
    f2 = FR.get(tt['disp'])
    if f2 is not None:
        b = bits(ex, st, v)
        return b if f2 == frac else (t.fdiv(b, 1 << (f2 - frac)) if f2 > frac else t.mul(b, 1 << (frac - f2)))
    raise Unsupported('from_num of ' + tt['disp'])
def fdisp(ex, info, i=0):
    ty = deref_ty(ex, info.atys[i]); return ex.T[ty]['disp']

def build(ex_mir):
    I = Intr()
    mir = ex_mir; T = mir.types
    FXT = next(i for i, x in enumerate(T) if x['disp'] == 'fixed::I80F48')
    OPT = {}
    def opt_ty(info): return info.dty if info.dty is not None else info.b['abi_ret']
    def some(ty, v): return Enum(ty, 1, {1: (v,)})
    def none(ty): return Enum(ty, 0, {0: ()})
    def okv(ty, v): return Enum(ty, 0, {0: (v,)})
    def unit(ex, st, args, info): return [(st, Agg(info.dty if info.dty is not None else 0, ()))]
    def panic(ex, st, args, info):
        if ex.collect_panics and not ex.dry: ex.panics.append((st.pc, True, info.fr.def_ if info.fr else '?', info.line, 'panic'))
        return []
    def opaque(what):
        def f(ex, st, args, info): return [(st, Opaque(what))]
        return f
    def ident(ex, st, args, info): return [(st, args[0])]

    # ---- fixed ------------------------------------------------------------------------------
    NOTE = 'fixed::I80F48 arithmetic on 48-fraction-bit two\'s complement: add/sub/neg exact, mul floor, div truncate, panic on overflow'
    def fxret(ex, info, b): return mkfx(ex, FXT, b)
    def arith(op):
        def f(ex, st, args, info):
            d = fdisp(ex, info)
            lo, hi = RNG[d]; fr = FR[d]; rt = deref_ty(ex, info.atys[0])
            a = bits(ex, st, args[0])
            # right operand may be a primitive only for checked_mul_int (handled elsewhere)
            b = bits(ex, st, args[1])
            s = st
            if op == 'add': r = t.add(a, b)
            elif op == 'sub': r = t.sub(a, b)
            elif op == 'mul':
                r = t.fxmul(a, b) if fr == 48 else (t.fdiv(t.mul(a, b), 1 << fr))
            elif op == 'div':
                s = require(ex, st, t.ne(b, 0), 'division by zero', info)
                if s is None: return []
                r = t.tdiv(t.mul(a, 1 << fr), b)
            s = require(ex, s, rng(r, lo, hi), 'overflow', info)
            return [(s, mkfx(ex, rt, r))] if s else []
        return f
    for d in ('fixed::I80F48', 'fixed::U64F64', 'fixed::U80F48'):
        for op, tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div')):
            I.addrx(r'^<&?%s as std::ops::%s(<.*>)?>::%s$' % (d, tr, op), arith(op), NOTE)
            def asg(op):
                g = arith(op)
                def f(ex, st, args, info):
                    r = g(ex, st, args, info)
                    out = []
                    for s, v in r:
                        ex.write(s, args[0], v); out.append((s, Agg(info.dty, ())))
                    return out
                return f
            I.addrx(r'^<%s as std::ops::%sAssign(<.*>)?>::%s_assign$' % (d, tr, op), asg(op), NOTE)
    def fneg(ex, st, args, info):
        b = bits(ex, st, args[0])
        s = require(ex, st, t.lt(I128[0], b), 'overflow', info)
        return [(s, mkfx(ex, FXT, t.neg(b)))] if s else []
    I.addrx(r'^<fixed::I80F48 as std::ops::Neg>::neg$', fneg, NOTE)
    def shl(sign):
        def f(ex, st, args, info):
            b = bits(ex, st, args[0]); k = args[1]
            if not isc(k): raise Unsupported('shift')
            return [(st, mkfx(ex, FXT, ex.wrap(st, t.mul(b, 1 << k), 128, True) if sign > 0 else t.fdiv(b, 1 << k)))]
        return f
    I.addrx(r'^<fixed::I80F48 as std::ops::Shr<.*>>::shr$', shl(-1)); I.addrx(r'^<fixed::I80F48 as std::ops::Shl<.*>>::shl$', shl(1))
    def f_abs(ex, st, args, info):
        b = bits(ex, st, args[0])
        s = require(ex, st, t.lt(I128[0], b), 'overflow', info)
        return [(s, mkfx(ex, FXT, t.tabs(b)))] if s else []
    I.add('fixed::I80F48::abs', f_abs, 'absolute value, panic on i128::MIN')
    def simple(fn):
        def f(ex, st, args, info):
            d = fdisp(ex, info) 
            return [(st, mkfx(ex, deref_ty(ex, info.atys[0]), fn(bits(ex, st, args[0]))))]
        return f
    O = t.ONE48
    I.add('fixed::I80F48::floor', simple(lambda b: t.mul(O, t.fdiv(b, O))), 'floor')
    def f_ceil(ex, st, args, info):
        r = t.mul(O, t.fdiv(t.add(bits(ex, st, args[0]), O - 1), O))
        s = require(ex, st, rng(r, *I128), 'overflow', info)
        return [(s, mkfx(ex, FXT, r))] if s else []
    I.add('fixed::I80F48::ceil', f_ceil, 'ceil, panic on overflow')
    I.add('fixed::I80F48::round_to_zero', simple(lambda b: t.ite(t.le(0, b), t.mul(O, t.fdiv(b, O)), t.neg(t.mul(O, t.fdiv(t.neg(b), O))))), 'round toward zero')
    I.add('fixed::I80F48::frac', simple(lambda b: t.fmod(b, O)), 'fractional part (b - floor)')
    def f_round(ex, st, args, info):
        b = bits(ex, st, args[0])
        # ties away from zero
        r = t.ite(t.le(0, b), t.mul(O, t.fdiv(t.add(b, O // 2), O)), t.neg(t.mul(O, t.fdiv(t.add(t.neg(b), O // 2), O))))
        s = require(ex, st, rng(r, *I128), 'overflow', info)
        return [(s, mkfx(ex, FXT, r))] if s else []
    I.add('fixed::I80F48::round', f_round, 'round half away from zero')
    for d in RNG:
        I.add(d + '::to_bits', lambda ex, st, args, info: [(st, bits(ex, st, args[0]))])
        I.add(d + '::from_bits', lambda ex, st, args, info: [(st, mkfx(ex, info.dty if info.dty is not None else info.b['abi_ret'], args[0]))])
        I.add(d + '::is_zero', lambda ex, st, args, info: [(st, t.eq(bits(ex, st, args[0]), 0))])
    I.add('fixed::I80F48::is_positive', lambda ex, st, args, info: [(st, t.lt(0, bits(ex, st, args[0])))], 'bits > 0')
    I.add('fixed::I80F48::is_negative', lambda ex, st, args, info: [(st, t.lt(bits(ex, st, args[0]), 0))], 'bits < 0')
    I.add('fixed::I80F48::signum', simple(lambda b: t.ite(t.lt(0, b), O, t.ite(t.lt(b, 0), -O, 0))))
    def from_num(ex, st, args, info):
        rt = opt_ty(info); d = T[rt]['disp']
        b = num_to_bits(ex, st, args[0], info.atys[0], FR[d])
        s = require(ex, st, rng(b, *RNG[d]), 'overflow', info)
        return [(s, mkfx(ex, rt, b))] if s else []
    for d in RNG:
        I.add(d + '::from_num', from_num, 'exact conversion from integers; floor (assumed) from floats; panic on overflow')
    I.addrx(r'^<fixed::I80F48 as std::convert::From<(i|u)(8|16|32|64)>>::from$', from_num, 'exact conversion')
    I.addrx(r'^<(i|u)(8|16|32|64) as std::convert::Into<fixed::I80F48>>::into$', from_num)
    def const_from_int(ex, st, args, info):
        return [(st, mkfx(ex, FXT, t.mul(args[0], O)))]
    def sat_from(ex, st, args, info):
        b = num_to_bits(ex, st, args[0], info.atys[0])
        return [(st, mkfx(ex, FXT, t.tmax(I128[0], t.tmin(I128[1], b))))]
    I.add('fixed::I80F48::saturating_from_num', sat_from, 'saturating conversion')
    def checked_from(ex, st, args, info):
        b = num_to_bits(ex, st, args[0], info.atys[0]); rt = opt_ty(info)
        c = rng(b, *I128)
        out = []
        for cond, v in ((c, some(rt, mkfx(ex, FXT, b))), (t.not_(c), none(rt))):
            s = ex.branch(st, cond)
            if s: out.append((s, v))
        return out
    I.add('fixed::I80F48::checked_from_num', checked_from, 'None on overflow')
    def to_num_val(ex, st, d, b, ty):
        tt = T[ty]; fr = FR[d]
        if tt['k'] == 'int': return t.fdiv(b, 1 << fr)
        if tt['k'] == 'float': return t.mul(t.toreal(b), t.Fraction(1, 1 << fr))
        f2 = FR[tt['disp']]
        return t.mul(b, 1 << (f2 - fr)) if f2 >= fr else t.fdiv(b, 1 << (fr - f2))
    def to_num(ex, st, args, info):
        d = fdisp(ex, info); rt = opt_ty(info); tt = T[rt]
        v = to_num_val(ex, st, d, bits(ex, st, args[0]), rt)
        if tt['k'] == 'int':
            lo, hi = ex.irange(tt['bits'], tt['signed'])
            s = require(ex, st, rng(v, lo, hi), 'overflow', info)
            return [(s, v)] if s else []
        if tt['k'] == 'float': return [(st, v)]
        s = require(ex, st, rng(v, *RNG[tt['disp']]), 'overflow', info)
        return [(s, mkfx(ex, rt, v))] if s else []
    for d in RNG: I.add(d + '::to_num', to_num, 'floor to integers, panic on overflow; exact (assumed) to floats')
    def checked_to(ex, st, args, info):
        d = fdisp(ex, info); rt = opt_ty(info); ty = T[rt]['variants'][1]['fields'][0][1]
        v = to_num_val(ex, st, d, bits(ex, st, args[0]), ty); tt = T[ty]
        lo, hi = ex.irange(tt['bits'], tt['signed'])
        out = []
        c = rng(v, lo, hi)
        for cond, r in ((c, some(rt, v)), (t.not_(c), none(rt))):
            s = ex.branch(st, cond)
            if s: out.append((s, r))
        return out
    I.add('fixed::I80F48::checked_to_num', checked_to, 'floor to integers, None on overflow')
    def checked_ar(op):
        def f(ex, st, args, info):
            a = bits(ex, st, args[0]); rt = opt_ty(info)
            c = True
            if op == 'mul_int': r = t.mul(a, args[1])
            else:
                b = bits(ex, st, args[1])
                if op == 'add': r = t.add(a, b)
                elif op == 'sub': r = t.sub(a, b)
                elif op == 'mul': r = t.fxmul(a, b)
                elif op == 'div': c = t.ne(b, 0); r = t.tdiv(t.mul(a, O), b)
            ok = t.and_(c, rng(r, *I128)); out = []
            for cond, v in ((ok, some(rt, mkfx(ex, FXT, r))), (t.not_(ok), none(rt))):
                s = ex.branch(st, cond)
                if s: out.append((s, v))
            return out
        return f
    for op in ('add', 'sub', 'mul', 'div', 'mul_int'): I.add('fixed::I80F48::checked_' + op, checked_ar(op), 'None on overflow')
    def sat_ar(op):
        def f(ex, st, args, info):
            a = bits(ex, st, args[0]); b = bits(ex, st, args[1])
            r = {'add': t.add, 'sub': t.sub, 'mul': t.fxmul}[op](a, b)
            return [(st, mkfx(ex, FXT, t.tmax(I128[0], t.tmin(I128[1], r))))]
        return f
    for op in ('add', 'sub', 'mul'): I.add('fixed::I80F48::saturating_' + op, sat_ar(op), 'saturating')
    # comparisons (against fixed values, integers and floats: compared as mathematical values)
    def cmpval(ex, st, v, ty):
        ty0 = ty
        while T[ty]['k'] in ('ref', 'ptr'): v = ex.read(st, v); ty = T[ty]['to']
        d = T[ty]['disp']
        if d in FR: return bits(ex, st, v), FR[d]
        if T[ty]['k'] == 'int': return t.mul(v, O), 48
        return t.mul(v, t.Fraction(O)), 48
    def fcmp(op):
        def f(ex, st, args, info):
            a, _ = cmpval(ex, st, args[0], info.atys[0]); b, _ = cmpval(ex, st, args[1], info.atys[1])
            return [(st, {'eq': t.eq, 'ne': t.ne, 'lt': t.lt, 'le': t.le, 'gt': t.gt, 'ge': t.ge}[op](a, b))]
        return f
    for op in ('eq', 'ne'): I.addrx(r'^<(&?fixed::\w+|i32|u64|i64|f64) as std::cmp::PartialEq(<.*fixed.*>|<(i32|u64|i64|f64|f32)>)?>::%s$' % op, _only_fx(fcmp(op)), 'numeric comparison')
    for op in ('lt', 'le', 'gt', 'ge'): I.addrx(r'^<(&?fixed::\w+|i32|u64|i64|f64) as std::cmp::PartialOrd(<.*fixed.*>|<(i32|u64|i64|f64|f32)>)?>::%s$' % op, _only_fx(fcmp(op)), 'numeric comparison')
    def ordering(ex, ty, lt, eq):
        return Enum(ty, t.ite(lt, 0, t.ite(eq, 1, 2)), {0: (), 1: (), 2: ()})
    def f_cmp(ex, st, args, info):
        a, _ = cmpval(ex, st, args[0], info.atys[0]); b, _ = cmpval(ex, st, args[1], info.atys[1])
        return [(st, ordering(ex, opt_ty(info), t.lt(a, b), t.eq(a, b)))]
    I.addrx(r'^<fixed::\w+ as std::cmp::Ord>::cmp$', f_cmp)
    def f_pcmp(ex, st, args, info):
        a, _ = cmpval(ex, st, args[0], info.atys[0]); b, _ = cmpval(ex, st, args[1], info.atys[1])
        rt = opt_ty(info); o = T[rt]['variants'][1]['fields'][0][1]
        return [(st, some(rt, ordering(ex, o, t.lt(a, b), t.eq(a, b))))]
    I.addrx(r'^<fixed::\w+ as std::cmp::PartialOrd(<.*>)?>::partial_cmp$', f_pcmp)
    def f_min(ex, st, args, info):
        a = bits(ex, st, args[0]); b = bits(ex, st, args[1]); return [(st, mkfx(ex, deref_ty(ex, info.atys[0]), t.tmin(a, b)))]
    def f_max(ex, st, args, info):
        a = bits(ex, st, args[0]); b = bits(ex, st, args[1]); return [(st, mkfx(ex, deref_ty(ex, info.atys[0]), t.tmax(a, b)))]
    I.addrx(r'^<fixed::\w+ as std::cmp::Ord>::min$', f_min); I.addrx(r'^<fixed::\w+ as std::cmp::Ord>::max$', f_max)
    def f_clamp(ex, st, args, info):
        a, b, c = [bits(ex, st, x) for x in args]
        s = require(ex, st, t.le(b, c), 'clamp', info)
        return [(s, mkfx(ex, FXT, t.tmax(b, t.tmin(a, c))))] if s else []
    I.addrx(r'^<fixed::\w+ as std::cmp::Ord>::clamp$', f_clamp)
    I.addrx(r'^<fixed::\w+ as std::(clone::Clone>::clone|default::Default>::default)$', lambda ex, st, args, info: [(st, ex.read(st, args[0]) if args else mkfx(ex, opt_ty(info), 0))])
    def fsum(ex, st, args, info): raise Unsupported('sum')

    # ---- core integers ----------------------------------------------------------------------
    def ord_int(which):
        def f(ex, st, args, info):
            ty = T[info.atys[0]]
            if ty['k'] not in ('int',): return None
            return [(st, (t.tmin if which == 'min' else t.tmax)(args[0], args[1]))]
        return f
    I.addrx(r'^<[iu]\w+ as std::cmp::Ord>::min$', ord_int('min')); I.addrx(r'^<[iu]\w+ as std::cmp::Ord>::max$', ord_int('max'))
    I.add('std::cmp::min', ord_int('min')); I.add('std::cmp::max', ord_int('max'))
    def int_clamp(ex, st, args, info):
        a, b, c = args
        if T[info.atys[0]]['k'] != 'int': return None
        s = require(ex, st, t.le(b, c), 'clamp', info)
        return [(s, t.tmax(b, t.tmin(a, c)))] if s else []
    I.addrx(r'^<[iu]\w+ as std::cmp::Ord>::clamp$', int_clamp)
    def intty(ex, info, i=0):
        ty = T[info.atys[i]]; return ty['bits'], ty['signed']
    def im(name, fn):
        I.addrx(r'^std::num::<impl [iu]\w+>::%s$' % name, fn)
    def i_checked(op):
        def f(ex, st, args, info):
            b, s_ = intty(ex, info); lo, hi = ex.irange(b, s_); rt = opt_ty(info); c = True
            if op in ('div', 'rem'):
                c = t.ne(args[1], 0); r = (t.tdiv if op == 'div' else t.trem)(args[0], args[1])
            elif op == 'neg': r = t.neg(args[0])
            elif op == 'abs': r = t.tabs(args[0])
            else: r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](args[0], args[1])
            ok = t.and_(c, rng(r, lo, hi)); out = []
            for cond, v in ((ok, some(rt, r)), (t.not_(ok), none(rt))):
                s = ex.branch(st, cond)
                if s: out.append((s, v))
            return out
        return f
    for op in ('add', 'sub', 'mul', 'div', 'rem', 'neg', 'abs'): im('checked_' + op, i_checked(op))
    def i_sat(op):
        def f(ex, st, args, info):
            b, s_ = intty(ex, info); lo, hi = ex.irange(b, s_)
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](args[0], args[1])
            return [(st, t.tmax(lo, t.tmin(hi, r)))]
        return f
    for op in ('add', 'sub', 'mul'): im('saturating_' + op, i_sat(op))
    for op in ('add', 'sub'): I.add('std::intrinsics::saturating_' + op, i_sat(op))
    def i_wrap(op):
        def f(ex, st, args, info):
            b, s_ = intty(ex, info)
            r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](args[0], args[1])
            return [(st, ex.wrap(st, r, b, s_))]
        return f
    for op in ('add', 'sub', 'mul'): im('wrapping_' + op, i_wrap(op)); I.add('std::intrinsics::wrapping_' + op, i_wrap(op))
    def i_abs(ex, st, args, info):
        b, s_ = intty(ex, info); lo, hi = ex.irange(b, s_)
        s = require(ex, st, t.lt(lo, args[0]), 'overflow', info)
        return [(s, t.tabs(args[0]))] if s else []
    im('abs', i_abs)
    im('unsigned_abs', lambda ex, st, args, info: [(st, t.tabs(args[0]))])
    im('signum', lambda ex, st, args, info: [(st, t.ite(t.lt(0, args[0]), 1, t.ite(t.lt(args[0], 0), -1, 0)))])
    im('is_positive', lambda ex, st, args, info: [(st, t.lt(0, args[0]))])
    im('is_negative', lambda ex, st, args, info: [(st, t.lt(args[0], 0))])
    im('abs_diff', lambda ex, st, args, info: [(st, t.tabs(t.sub(args[0], args[1])))])
    def i_pow(ex, st, args, info):
        a, e = args
        b, s_ = intty(ex, info); lo, hi = ex.irange(b, s_)
        if isc(e):
            r = 1
            for _ in range(e): r = t.mul(r, a)
            s = require(ex, st, rng(r, lo, hi), 'overflow', info)
            return [(s, r)] if s else []
        # ite table over the exponent
        lo_e, hi_e = t.bounds(e)
        if isc(a) and a > 1:
            kmax = 0
            while a ** (kmax + 1) <= hi: kmax += 1
            s = require(ex, st, t.le(e, kmax), 'overflow', info)
            if s is None: return []
            r = a ** kmax
            for k in range(kmax - 1, -1, -1): r = t.ite(t.eq(e, k), a ** k, r)
            return [(s, r)]
        raise Unsupported('symbolic pow')
    im('pow', i_pow)
    def leading_zeros(ex, st, args, info):
        b, s_ = intty(ex, info)
        x = args[0]
        if isc(x): return [(st, b - x.bit_length())]
        r = t.ranged(t.app('clz%d' % b, (x,)), 0, b)
        p = t.app('pow2', (t.sub(b - 1, r),))
        # x = 0 <-> r = b; else 2^(b-1-r) <= x < 2^(b-r)
        st.assume(t.iff(t.eq(x, 0), t.eq(r, b)))
        st.assume(t.implies(t.ne(x, 0), t.and_(t.le(p, x), t.lt(x, t.mul(2, p)))))
        return [(st, r)]
    im('leading_zeros', leading_zeros)
    I.add('std::intrinsics::ctlz', leading_zeros)
    def from_le(ex, st, args, info): raise Unsupported('from_le_bytes')

    # ---- float ------------------------------------------------------------------------------
    FL = 'f64/f32 treated as mathematical reals (no rounding, no NaN/inf)'
    I.add(['std::f64::<impl f64>::abs', 'std::intrinsics::fabs', 'std::intrinsics::fabsf64'], lambda ex, st, args, info: [(st, t.ite(t.le(t.Fraction(0), args[0]), args[0], t.neg(args[0])))], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::max$|^std::intrinsics::maximum_number', lambda ex, st, args, info: [(st, t.tmax(args[0], args[1]))], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::min$|^std::intrinsics::minimum_number', lambda ex, st, args, info: [(st, t.tmin(args[0], args[1]))], FL)
    def fl_clamp(ex, st, args, info): return [(st, t.tmax(args[1], t.tmin(args[0], args[2])))]
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::clamp$', fl_clamp, FL)
    def fl_round(which):
        def f(ex, st, args, info):
            x = args[0]; fl = t.floor_(x)
            if which == 'floor': r = fl
            elif which == 'ceil': r = t.neg(t.floor_(t.neg(x)))
            elif which == 'trunc': r = t.ite(t.le(t.Fraction(0), x), fl, t.neg(t.floor_(t.neg(x))))
            else: r = t.ite(t.le(t.Fraction(0), x), t.floor_(t.add(x, t.Fraction(1, 2))), t.neg(t.floor_(t.add(t.neg(x), t.Fraction(1, 2)))))
            return [(st, t.toreal(r))]
        return f
    for w in ('floor', 'ceil', 'trunc', 'round'):
        I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::%s$|^std::intrinsics::%sf(64|32)$' % (w, w), fl_round(w), FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::is_(nan|infinite)$', lambda ex, st, args, info: [(st, False)], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::is_finite$', lambda ex, st, args, info: [(st, True)], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::(powf|powi|sqrt|ln|exp|log2|log10)$', lambda ex, st, args, info: [(st, t.app('fl_' + info.name.split('::')[-1], [t.toreal(a) for a in args], 'Real'))], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::is_sign_positive$', lambda ex, st, args, info: [(st, t.le(t.Fraction(0), args[0]))], FL)
    I.addrx(r'^std::(f64|f32|num)::<impl f(64|32)>::is_sign_negative$', lambda ex, st, args, info: [(st, t.lt(args[0], t.Fraction(0)))], FL)

    # ---- errors, formatting, logging -----------------------------------------------------------
    I.addrx(r'^(core|std)::panicking::|^std::rt::|^(std|core)::(option|result)::(unwrap_failed|expect_failed)|::slice_(start|end)_index_(len|overflow)_fail|panic_bounds|panic_const|^std::slice::index::slice_|capacity_overflow|handle_alloc_error|copy_from_slice::len_mismatch|^std::cell::panic', panic, 'panics end the transaction')
    I.addrx(r'^std::fmt::|^alloc::fmt|^std::io::_print|as std::fmt::(Display|Debug|Write|LowerHex)', lambda ex, st, args, info: [(st, ex.fresh_val(info.dty, 'fmt') if T[info.dty]['disp'].startswith('std::result') else Opaque('fmt'))], 'formatting has no effect on program state')
    I.addrx(r'::to_string$|^std::hint::must_use$|^alloc::fmt::format', ident_or_opaque, None)
    I.addrx(r'^solana_program::log::|^anchor_lang::prelude::sol_log|sol_log_data', unit, 'logging has no effect on program state')
    I.addrx(r'^anchor_lang::error::Error::(with_|log)|^<anchor_lang::error::Error as .*Contextable>|^<anchor_lang::error::Error as std::convert::From<anchor_lang::error::AnchorError>>', err_pass, 'error construction keeps the error code')
    I.addrx(r'^<.*(ErrorCode|MangoError|AnchorError|ProgramError).* as std::convert::(Into|From)<anchor_lang::error::Error>>', err_new)
    I.addrx(r'^<anchor_lang::error::Error as std::convert::From<', err_pass)
    I.addrx(r'^anchor_lang::error::ErrorCode::name$|MangoError::name$', opaque('name'))
    I.addrx(r'^mango_v4::error::MangoError::name$', opaque('name'))
    I.addrx(r'^mango_v4::error::_print', unit)
    I.addrx(r'^mango_v4::logs::emit_stack$|^anchor_lang::Event|emit_stack', unit, 'event emission has no effect on program state')
    I.addrx(r'as (mango_v4::error::)?Contextable>::with_context$|as (mango_v4::error::)?Contextable>::context$', ctx_pass, 'context adds text to an error and keeps Ok values')
    # ---- error codes, strings
    def res_code(ex, st, v):
        while isinstance(v, (Ref, Choice)): v = ex.read(st, v)
        if not isinstance(v, Enum): return False, t.fresh('code')
        e = v.vs.get(1)
        isr = t.eq(v.d, 1)
        if not e or e[0] is UNDEF: return isr, t.fresh('code')
        return isr, err_code(ex, e[0], st)
    def has_code(ex, st, args, info):
        isr, c = res_code(ex, st, args[0])
        return [(st, t.and_(isr, t.eq(c, args[1])))]
    def is_oracle(ex, st, args, info):
        isr, c = res_code(ex, st, args[0])
        vs = [x['name'] for x in T[next(i for i, x in enumerate(T) if x['disp'].endswith('error::MangoError') and x['k'] == 'enum')]['variants']]
        return [(st, t.and_(isr, t.or_(t.eq(c, 6000 + vs.index('OracleConfidence')), t.eq(c, 6000 + vs.index('OracleStale')))))]
    I.addrx(r'IsAnchorErrorWithCode>::is_anchor_error_with_code$', has_code, 'compares the error code of an anchor error')
    I.addrx(r'IsAnchorErrorWithCode>::is_oracle_error$', is_oracle)
    I.addrx(r'^<std::string::String as |^std::string::String::', lambda ex, st, args, info: [(st, Opaque('string'))], None)
    # ---- Pubkey -----------------------------------------------------------------------------
    def pk_eq(neg):
        def f(ex, st, args, info):
            a, b = args
            while isinstance(a, (Ref, Choice)): a = ex.read(st, a)
            while isinstance(b, (Ref, Choice)): b = ex.read(st, b)
            r = pk_same(ex, a, b)
            return [(st, t.not_(r) if neg else r)]
        return f
    I.addrx(r'^<(anchor_lang::(prelude|solana_program::pubkey)|solana_program::pubkey)::Pubkey as std::cmp::PartialEq>::eq$', pk_eq(False), 'Pubkey equality is equality of the 32 bytes (abstracted as one value)')
    I.addrx(r'^<(anchor_lang::(prelude|solana_program::pubkey)|solana_program::pubkey)::Pubkey as std::cmp::PartialEq>::ne$', pk_eq(True))
    def enum_eq(ex, st, args, info):
        if info.b.get('body') is not None: return None
        a, b = args
        while isinstance(a, (Ref, Choice)): a = ex.read(st, a)
        while isinstance(b, (Ref, Choice)): b = ex.read(st, b)
        if not (isinstance(a, Enum) and isinstance(b, Enum)) or any(v['fields'] for v in T[a.ty]['variants']): return None
        r = t.eq(ex.discr(st, a), ex.discr(st, b))
        return [(st, t.not_(r) if info.name.endswith('ne') else r)]
    I.addrx(r' as std::cmp::PartialEq>::(eq|ne)$', enum_eq, 'derived equality of field-less enums of other crates')
    # ---- slices / vec / iterators -----------------------------------------------------------------
    from . import coll
    coll.install(I, mir)
    from . import acct
    acct.install(I, mir)
    from . import iters
    iters.install(I, mir)
    from . import dyna
    dyna.install(I, mir)
    return I

def _only_fx(g):
    def f(ex, st, args, info):
        if not any(ty is not None and ex.T[deref_ty(ex, ty)]['disp'].startswith('fixed::') for ty in info.atys): return None
        return g(ex, st, args, info)
    return f

def pkval(v):
    """Pubkey values are abstracted to one integer per value"""
    return v
def pk_same(ex, a, b):
    x = pk_int(ex, a); y = pk_int(ex, b)
    return t.eq(x, y)
def pk_int(ex, v):
    if isinstance(v, PkV): return v.x
    if isinstance(v, Agg):
        v2 = v.fs[0]
        if isinstance(v2, ArrV) and v2.base[0] == 'sym' and not v2.writes:
            return ex.u.leaf({'k': 'x'}, v2.base[1] + '#', v2.base[2])
        if isinstance(v2, ArrV) and v2.base[0] == 'ite' and not v2.writes:
            return t.ite(v2.base[1], pk_int(ex, Agg(v.ty, (v2.base[2],))), pk_int(ex, Agg(v.ty, (v2.base[3],))))
        if isinstance(v2, ArrV):
            n = 0
            ok = True
            for i in range(32):
                e = ex.u.arr_get(v2, i)
                if not isc(e): ok = False; break
                n |= e << (8 * i)
            if ok: return n
            raise Unsupported('pubkey with partly unknown bytes')
    if isinstance(v, Opaque): return t.var('pk.' + v.what)
    if isinstance(v, Choice): return ex.u.choice_map(v, lambda x: pk_int(ex, x))
    raise Unsupported('pubkey %r' % (v,))
class OfU:
    def __init__(self, u): self.u = u
class PkV(Custom):
    """a Pubkey abstracted to an integer"""
    __slots__ = ('x',)
    def __init__(self, x): self.x = x
    def __repr__(self): return 'Pk(%s)' % t.show(self.x, 2)
    also_agg = True
    def merge(self, u, c, o): return PkV(t.ite(c, self.x, pk_int(OfU(u), o)))
    def havoc_like(self, ex, st, nm): return PkV(t.var(nm + '#'))
    def proj(self, u, p): return ArrV(None, 32, ('sym', 'pkbytes', (self.x,)))
    def view_attr(self, view, n): return self.x

def ident_or_opaque(ex, st, args, info):
    if info.name.endswith('must_use'): return [(st, args[0])]
    return [(st, Opaque('string'))]
class ErrV(Custom):
    """an anchor error abstracted to its code"""
    __slots__ = ('code',)
    def __init__(self, code): self.code = code
    def __repr__(self): return 'Err(%s)' % t.show(self.code, 2)
    def merge(self, u, c, o): return ErrV(t.ite(c, self.code, o.code))
    def view_attr(self, view, n): return self.code
    def havoc_like(self, ex, st, nm): return ErrV(t.var(nm + '.code'))
def err_code(ex, v, st=None):
    while st is not None and isinstance(v, (Ref, Choice)): v = ex.read(st, v)
    if isinstance(v, ErrV): return v.code
    if isinstance(v, Agg):
        for (n, ft), x in zip(ex.T[v.ty]['variants'][0]['fields'], v.fs):
            if n == 'error_code_number': return x
    if isinstance(v, Enum):
        ty = ex.T[v.ty]
        return ex.discr(st, v) if isc(v.d) else t.fresh('code')
    return t.fresh('errcode')
def err_pass(ex, st, args, info):
    return [(st, ErrV(err_code(ex, args[0], st)))]
def err_new(ex, st, args, info):
    v = args[0]
    if isinstance(v, Enum) and 'MangoError' in ex.T[v.ty]['disp']: return [(st, ErrV(t.add(6000, ex.discr(st, v))))]
    return [(st, ErrV(err_code(ex, v, st)))]
def ctx_pass(ex, st, args, info):
    return [(st, args[0])]
