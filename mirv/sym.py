"""Creation, reading, writing and merging of symbolic values."""
from . import term as t
from .term import Term, isc
from .val import *

class Univ:
    """the MIR program plus value-level operations that need its type table"""
    def __init__(self, mir):
        self.mir = mir; self.T = mir.types
        self.opaque = set()
        self.cell_n = 0
        self.cell_info = {}
        self.acct_cells = {}; self.const_cells = {}
        self.model = None; self.used_inputs = {}; self.semi = False
        self.custom_sym = {}     # disp prefix -> fn(univ, tid, name, idx)
    def disp(self, tid): return self.T[tid]['disp']
    def new_cell(self, tag=None):
        self.cell_n += 1
        if tag: self.cell_info[self.cell_n] = tag
        return self.cell_n

    def leaf(self, ty, name, idx):
        k = ty['k']
        srt = 'Bool' if k == 'bool' else 'Real' if k == 'float' else 'Int'
        if self.model is not None and not (self.semi and not name.startswith(self.semi)): return self.model_leaf(ty, name, idx, srt)
        x = t.app(name, idx, srt) if idx else t.var(name, srt)
        if k == 'int':
            b = ty['bits']
            t.ranged(x, -(1 << (b - 1)) if ty['signed'] else 0, (1 << (b - 1)) - 1 if ty['signed'] else (1 << b) - 1)
        elif k == 'char': t.ranged(x, 0, 0x10ffff)
        return x
    def model_leaf(self, ty, name, idx, srt):
        """concrete replay: inputs come from a solver model"""
        v = self.model.get((name,) + tuple(idx) if idx else name)
        if v is None: v = self.model.get('*default', {}).get(name, 0)
        self.used_inputs[(name,) + tuple(idx) if idx else name] = v
        if srt == 'Bool': return bool(v)
        if srt == 'Real': return t.Fraction(v)
        v = int(v)
        if name.endswith('.len') and v > (64 if self.semi else 8): raise Unsupported('sequence of %d elements' % v)
        if ty['k'] == 'int':
            b = ty['bits']; lo = -(1 << (b - 1)) if ty.get('signed') else 0; hi = (1 << (b - 1)) - 1 if ty.get('signed') else (1 << b) - 1
            v = max(lo, min(hi, v))
        return v
    def sym(self, tid, name, idx=()):
        if isinstance(tid, tuple):
            if tid[0] == 'dyn':
                from .dyna import dynv
                return dynv(self, name, idx)
            from .intr import PkV
            return PkV(tid[1])
        ty = self.T[tid]; k = ty['k']
        if k in ('int', 'bool', 'char', 'float'): return self.leaf(ty, name, idx)
        d = ty['disp']
        for p, f in self.custom_sym.items():
            if d.startswith(p): return f(self, tid, name, idx)
        if k == 'struct':
            if d.startswith('std::vec::Vec<'):
                ln = self.leaf({'k': 'int', 'bits': 32, 'signed': False}, name + '.len', idx)
                return VecV(ty['args'][0], ArrV(ty['args'][0], None, ('sym', name + '.elem', tuple(idx))), ln)
            if d.startswith('std::boxed::Box<') and ty.get('args') and self.T[ty['args'][0]]['k'] not in ('dyn', 'slice', 'str'):
                c = self.new_cell(('box', name)); self.pending[c] = Lazy(ty['args'][0], name, tuple(idx)); return Ref(c)
            if d.startswith(('std::string::String', 'anchor_lang::error::')): return Opaque(name)
            return Agg(tid, [self.sym(ft, name + '.' + fn, idx) for fn, ft in ty['variants'][0]['fields']])
        if k == 'tuple': return Agg(tid, [self.sym(e, name + '.%d' % i, idx) for i, e in enumerate(ty['elems'])])
        if k == 'enum':
            if d == 'anchor_lang::error::Error':
                from .intr import ErrV
                return ErrV(self.leaf({'k': 'int', 'bits': 32, 'signed': False}, name + '.code', idx))
            if d.startswith('anchor_lang::error::'): return Opaque(name)
            n = len(ty['variants'])
            if n == 1: dv = 0
            elif n == 0: return Opaque(name)
            else:
                if self.model is not None and not (self.semi and not name.startswith(self.semi)): dv = max(0, min(n - 1, self.model_leaf({'k': 'x'}, name + '.d', idx, 'Int')))
                else:
                    dv = t.app(name + '.d', idx) if idx else t.var(name + '.d')
                    t.ranged(dv, 0, n - 1)
            return Enum(tid, dv, _LazyVariants(self, tid, name, idx))
        if k == 'array': return ArrV(ty['elem'], ty['len'], ('sym', name, tuple(idx)))
        if k in ('ref', 'ptr'):
            to = self.T[ty['to']]
            if to['k'] == 'str': return Opaque(name)
            c = self.new_cell(('ref', name))
            self.pending[c] = Lazy(ty['to'], name + '*', tuple(idx))
            if to['k'] == 'slice':
                ln = self.leaf({'k': 'int', 'bits': 32, 'signed': False}, name + '.len', idx)
                return Ref(c, (), ln)
            return Ref(c, ())
        if k == 'slice': return ArrV(ty['elem'], None, ('sym', name, tuple(idx)))
        if k == 'closure': return Agg(tid, [self.sym(e, name + '.%d' % i, idx) for i, e in enumerate(ty['upvars'])])
        if k in ('fndef',): return Agg(tid, [])
        return Opaque(name)
    pending = {}

    # ---- constants from the dump
    def const(self, tid, v, st):
        ty = self.T[tid]; k = ty['k']
        if isinstance(v, dict):
            if 'unk' in v: return Opaque('const:' + str(v['unk']) + ':' + ty['disp'])
            if 'zst' in v:
                if k in ('fndef', 'tuple', 'struct', 'closure'):
                    n = len(ty['variants'][0]['fields']) if k == 'struct' else 0
                    if k == 'struct' and n: return Agg(tid, [self.const(ft, v, st) for _, ft in ty['variants'][0]['fields']])
                    return Agg(tid, [])
                if k == 'enum': return Enum(tid, 0, {0: ()})
                if k == 'array': return ArrV(ty['elem'], ty['len'], ('list', ()))
                return Opaque('zst')
            if 'str' in v: return StrV(v['str'])
            if 'fn' in v: return FnV(v['fn'])
            if 'ref' in v:
                c = self.new_cell(('const', ty['disp']))
                to = ty['to']; tt = self.T[to]
                w = v['ref']
                if tt['k'] == 'slice':
                    el = [self.const(tt['elem'], e, st) for e in w['arr']]
                    st.cells[c] = ArrV(tt['elem'], len(el), ('list', tuple(el)))
                    return Ref(c, (), len(el))
                st.cells[c] = self.const(to, w, st)
                return Ref(c, (), None)
            if 'arr' in v:
                el = [self.const(ty['elem'], e, st) for e in v['arr']]
                return ArrV(ty['elem'], len(el), ('list', tuple(el)))
            if 'var' in v:
                fts = ty['variants'][v['var']]['fields']
                return Enum(tid, v['var'], {v['var']: tuple(self.const(ft, x, st) for (_, ft), x in zip(fts, v['fs']))})
            if 'fs' in v:
                if k == 'tuple': return Agg(tid, [self.const(e, x, st) for e, x in zip(ty['elems'], v['fs'])])
                return Agg(tid, [self.const(ft, x, st) for (_, ft), x in zip(ty['variants'][0]['fields'], v['fs'])])
            if 'addr' in v: return Opaque('addr')
            return Opaque('const')
        if k == 'bool': return bool(v)
        if k == 'float':
            import struct
            b = struct.pack('<Q', v) if ty['bits'] == 64 else struct.pack('<I', v)
            x = struct.unpack('<d' if ty['bits'] == 64 else '<f', b)[0]
            if x != x or x in (float('inf'), float('-inf')): return t.var('float_%r' % x, 'Real')
            return t.Fraction(x)
        return v

    # ---- element access
    def sym_at(self, base, ety, idx):
        _, name, pre = base
        return self.sym(ety, name + '[]', tuple(pre) + (idx,))
    def arr_base(self, a, i):
        b = a.base
        if b[0] == 'sym': return self.sym_at(b, a.ety, i)
        if b[0] == 'rep': return b[1]
        if b[0] == 'list':
            l = b[1]
            if isc(i):
                if 0 <= i < len(l): return l[i]
                return UNDEF if len(l) == 0 else l[0]
            if not l: return UNDEF
            r = l[-1]
            for j in range(len(l) - 2, -1, -1): r = self.ite(t.eq(i, j), l[j], r)
            return r
        if b[0] == 'fh':      # field havoc: old array with one sub-path replaced by fresh function
            old = self.arr_get(b[1], i)
            f = self.sym(b[3], b[4], tuple(b[5]) + (i,)) 
            return self.set(old, b[2], f)
        if b[0] == 'fn': return b[1](i)
        if b[0] == 'ite': return self.ite(b[1], self.arr_base_of(b[2], i), self.arr_base_of(b[3], i))
        raise Unsupported('array base ' + b[0])
    def arr_base_of(self, a, i): return self.arr_get(a, i)
    def arr_get(self, a, i):
        v = None
        ws = []
        for w in reversed(a.writes):
            c, j, x = w
            e = t.and_(c, t.eq(i, j))
            if e is False: continue
            ws.append((e, x))
            if e is True: break
        if ws and ws[-1][0] is True:
            v = ws.pop()[1]
        else:
            v = self.arr_base(a, i)
        for e, x in reversed(ws): v = self.ite(e, x, v)
        return v
    def arr_set(self, a, i, x, cond=True):
        if isc(i) and cond is True:
            if a.base[0] == 'list' and not a.writes and 0 <= i < len(a.base[1]):
                l = list(a.base[1]); l[i] = x
                return ArrV(a.ety, a.n, ('list', tuple(l)))
        ws = a.writes
        if cond is True:
            # drop earlier writes to the very same index
            ws = tuple(w for w in ws if t.eq(w[1], i) is not True)
        return ArrV(a.ety, a.n, a.base, ws + ((cond, i, x),))

    # ---- projection
    def proj(self, v, p):
        k = p[0]
        if v is UNDEF: raise Unsupported('read of undefined value %r' % (p,))
        if isinstance(v, Choice): return self.choice_map(v, lambda x: self.proj(x, p))
        if isinstance(v, Lazy): v = self.sym(v.ty, v.name, v.idx)
        if k == 'f':
            if isinstance(v, Agg): return v.fs[p[1]]
            if isinstance(v, Opaque):
                if len(p) > 2 and p[2] is not None: return self.sym(p[2], '%s.%d' % (v.what, p[1]))
            if isinstance(v, Enum) and isc(v.d): return self.variant(v, v.d)[p[1]]
            if isinstance(v, VecV): return v
            if isinstance(v, Custom): return v.proj(self, p)
            if isinstance(v, Ref) and p[1] == 0 and self.T[p[2]]['disp'].startswith(('std::boxed::BoxRaw<', 'std::ptr::Unique<', 'std::ptr::NonNull<')): return v
            raise Unsupported('field %r of %s' % (p, type(v).__name__))
        if k == 'd':
            if isinstance(v, Enum): return _Var(v, p[1])
            if isinstance(v, Opaque): return v
            raise Unsupported('downcast of %s' % type(v).__name__)
        if k == 'idx':
            if isinstance(v, ArrV): return self.arr_get(v, p[1])
            if isinstance(v, VecV): return self.arr_get(v.arr, p[1])
            raise Unsupported('index of %r' % v)
        if k == 'vec':
            return v.arr
        if k == 'view':
            return v.view(self, p[1])
        if k == 'box':
            return v.fs[0]
        raise Unsupported('projection %r' % (p,))
    def variant(self, v, i):
        fs = v.vs.get(i)
        if fs is None:
            fts = self.T[v.ty]['variants'][i]['fields']
            fs = tuple(UNDEF for _ in fts)
        return fs
    def get(self, v, path):
        i = 0; n = len(path)
        while i < n:
            p = path[i]
            if p[0] == 'off':
                off = p[1]
                while i + 1 < n and path[i + 1][0] == 'off':
                    i += 1; off = t.add(off, path[i][1])
                if i + 1 < n and path[i + 1][0] == 'idx':
                    v = self.proj(v, ('idx', t.add(off, path[i + 1][1]))); i += 2; continue
                # a subslice value as a whole
                if off == 0 and isc(off): i += 1; continue
                raise Unsupported('read of a subslice value')
            if p[0] == 'd' and i + 1 < n and path[i + 1][0] == 'f':
                if isinstance(v, Choice):
                    pp = path[i:i+2]
                    v = self.choice_map(v, lambda x: self.get(x, pp))
                elif isinstance(v, Lazy):
                    v = self.sym(v.ty, v.name, v.idx); continue
                elif isinstance(v, Enum): v = self.variant(v, p[1])[path[i + 1][1]]
                elif isinstance(v, Opaque): v = self.sym(path[i + 1][2], '%s.%d.%d' % (v.what, p[1], path[i + 1][1]))
                elif isinstance(v, Custom): v = v.variant_get(self, p[1], path[i + 1][1])
                else: raise Unsupported('downcast of %r' % type(v).__name__)
                i += 2; continue
            v = self.proj(v, p); i += 1
        if isinstance(v, Lazy): v = self.sym(v.ty, v.name, v.idx)
        return v
    def set(self, v, path, x, i=0):
        n = len(path)
        if i == n: return x
        p = path[i]; k = p[0]
        if isinstance(v, Lazy): v = self.sym(v.ty, v.name, v.idx)
        if k == 'f':
            if isinstance(v, Agg):
                fs = list(v.fs); fs[p[1]] = self.set(fs[p[1]], path, x, i + 1)
                return Agg(v.ty, fs)
            if isinstance(v, Custom): return v.setf(self, path, x, i)
            if isinstance(v, Opaque): return v
            raise Unsupported('set field of %r' % (v,))
        if k == 'd':
            if isinstance(v, Choice): raise Unsupported('set variant of choice')
            vs = dict_variants(v.vs)
            fs = list(self.variant(v, p[1]))
            if i + 1 == n: raise Unsupported('set whole variant')
            q = path[i + 1]
            fs[q[1]] = self.set(fs[q[1]], path, x, i + 2)
            vs[p[1]] = tuple(fs)
            return Enum(v.ty, v.d, vs)
        if k in ('off', 'idx'):
            off = 0
            while path[i][0] == 'off':
                off = t.add(off, path[i][1]); i += 1
                if i == n: raise Unsupported('write of a whole subslice')
            assert path[i][0] == 'idx'
            j = t.add(off, path[i][1])
            if isinstance(v, VecV):
                a = v.arr
                old = self.arr_get(a, j) if i + 1 < n else None
                return VecV(v.ety, self.arr_set(a, j, self.set(old, path, x, i + 1)), v.len)
            if isinstance(v, Opaque): return v
            old = self.arr_get(v, j) if i + 1 < n else None
            return self.arr_set(v, j, self.set(old, path, x, i + 1))
        if k == 'vec':
            return VecV(v.ety, self.set(v.arr, path, x, i + 1), v.len)
        if k == 'view':
            return v.set_view(self, p[1], self.set(v.view(self, p[1]), path, x, i + 1))
        if k == 'box':
            return Agg(v.ty, (self.set(v.fs[0], path, x, i + 1),) + v.fs[1:])
        raise Unsupported('set %r' % (p,))

    # ---- merging
    def choice_map(self, ch, f):
        alts = [(c, f(v)) for c, v in ch.alts]
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]): r = self.ite(c, v, r)
        return r
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        la = isinstance(a, (Term, int, bool, t.Fraction)); lb = isinstance(b, (Term, int, bool, t.Fraction))
        if la and lb: return t.ite(c, a, b)
        if isinstance(a, Lazy): a = self.sym(a.ty, a.name, a.idx)
        if isinstance(b, Lazy): b = self.sym(b.ty, b.name, b.idx)
        if type(a) is type(b):
            if isinstance(a, Agg):
                if len(a.fs) != len(b.fs): raise Unsupported('merge of different aggregates')
                return Agg(a.ty, [self.ite(c, x, y) for x, y in zip(a.fs, b.fs)])
            if isinstance(a, Enum):
                d = a.d if (a.d is b.d or (isc(a.d) and isc(b.d) and a.d == b.d)) else t.ite(c, a.d, b.d)
                if a.vs is b.vs: return Enum(a.ty, d, a.vs)
                return Enum(a.ty, d, _MergedVariants(self, c, a, b))
            if isinstance(a, ArrV):
                return self.merge_arr(c, a, b)
            if isinstance(a, VecV):
                return VecV(a.ety, self.merge_arr(c, a.arr, b.arr), t.ite(c, a.len, b.len))
            if isinstance(a, Ref):
                if a.cell == b.cell and len(a.path) == len(b.path):
                    if path_eq(a.path, b.path):
                        return Ref(a.cell, a.path, self.ite_meta(c, a.meta, b.meta))
                    pp = merge_path(c, a.path, b.path)
                    if pp is not None: return Ref(a.cell, pp, self.ite_meta(c, a.meta, b.meta))
                return Choice([(c, a), (True, b)])
            if isinstance(a, IterV):
                return IterV(self.ite(c, a.ref, b.ref), t.ite(c, a.pos, b.pos), t.ite(c, a.end, b.end))
            if isinstance(a, StrV) and a.s == b.s: return a
            if isinstance(a, FnV) and a.key == b.key: return a
            if isinstance(a, Custom): return a.merge(self, c, b)
            if isinstance(a, Opaque): return a if a.what == b.what else Opaque('merge')
        if isinstance(a, Custom) and isinstance(b, Agg) and a.also_agg: return a.merge(self, c, b)
        if isinstance(b, Custom) and isinstance(a, Agg) and b.also_agg: return b.merge(self, t.not_(c), a)
        if isinstance(a, Choice) or isinstance(b, Choice):
            al = a.alts if isinstance(a, Choice) else [(True, a)]
            bl = b.alts if isinstance(b, Choice) else [(True, b)]
            out = [(t.and_(c, x), v) for x, v in al] + [(x, v) for x, v in bl]
            return Choice(out)
        if isinstance(a, (Opaque, StrV)) and isinstance(b, (Opaque, StrV)): return Opaque('merge')
        if isinstance(a, Opaque): return Choice([(c, a), (True, b)])
        if isinstance(b, Opaque): return Choice([(c, a), (True, b)])
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    def ite_meta(self, c, a, b):
        if a is b or a == b: return a
        return t.ite(c, a, b)
    def merge_arr(self, c, a, b):
        if a.base is b.base or a.base == b.base:
            k = 0
            wa, wb = a.writes, b.writes
            while k < len(wa) and k < len(wb) and (wa[k] is wb[k]): k += 1
            ws = wa[:k]
            ws += tuple((t.and_(c, x), i, v) for x, i, v in wa[k:])
            ws += tuple((t.and_(t.not_(c), x), i, v) for x, i, v in wb[k:])
            return ArrV(a.ety, a.n, a.base, ws)
        if a.base[0] == 'list' and b.base[0] == 'list' and len(a.base[1]) == len(b.base[1]) and not a.writes and not b.writes:
            return ArrV(a.ety, a.n, ('list', tuple(self.ite(c, x, y) for x, y in zip(a.base[1], b.base[1]))))
        return ArrV(a.ety, a.n, ('ite', c, a, b))

def path_eq(a, b):
    for x, y in zip(a, b):
        if x[0] != y[0]: return False
        if x[0] in ('idx', 'off'):
            if t.eq(x[1], y[1]) is not True: return False
        elif x[:2] != y[:2]: return False
    return True
def merge_path(c, a, b):
    out = []
    for x, y in zip(a, b):
        if x[0] != y[0]: return None
        if x[0] in ('idx', 'off'): out.append((x[0], t.ite(c, x[1], y[1])))
        elif x[:2] != y[:2]: return None
        else: out.append(x)
    return tuple(out)

class Custom:
    """base class of modelled library values"""
    also_agg = False      # can be merged with a plain value of its type
    def merge(self, u, c, o): raise Unsupported('merge of ' + type(self).__name__)
    def view(self, u, tid): raise Unsupported('view of ' + type(self).__name__)
    def proj(self, u, p): raise Unsupported('projection of ' + type(self).__name__)

class _Var:
    __slots__ = ('v', 'i')
    def __init__(self, v, i): self.v = v; self.i = i

class _LazyVariants(dict):
    def __init__(self, u, tid, name, idx): dict.__init__(self); self.u = u; self.tid = tid; self.name = name; self.idx = idx
    def get(self, i, dflt=None):
        r = dict.get(self, i)
        if r is None:
            v = self.u.T[self.tid]['variants'][i]
            r = tuple(self.u.sym(ft, '%s.%s.%s' % (self.name, v['name'], fn), self.idx) for fn, ft in v['fields'])
            self[i] = r
        return r
    def full(self): 
        for i in range(len(self.u.T[self.tid]['variants'])): self.get(i)
        return dict(self)
class _MergedVariants(dict):
    def __init__(self, u, c, a, b): dict.__init__(self); self.u = u; self.c = c; self.a = a; self.b = b
    def get(self, i, dflt=None):
        r = dict.get(self, i)
        if r is None:
            x = self.a.vs.get(i); y = self.b.vs.get(i)
            # a variant that cannot be the active one contributes nothing
            if isc(self.a.d) and self.a.d != i: x = None
            if isc(self.b.d) and self.b.d != i: y = None
            if x is None and y is None:
                x = tuple(UNDEF for _ in self.u.T[self.a.ty]['variants'][i]['fields'])
            if x is None: r = y
            elif y is None: r = x
            else: r = tuple(self.u.ite(self.c, p, q) for p, q in zip(x, y))
            self[i] = r
        return r
    def full(self):
        for i in range(len(self.u.T[self.a.ty]['variants'])): self.get(i)
        return dict(self)
def dict_variants(vs):
    return vs.full() if hasattr(vs, 'full') else dict(vs)
