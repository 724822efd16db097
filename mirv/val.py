"""Symbolic values of Rust types."""
from . import term as t
from .term import Term, isc

class Unsupported(Exception):
    pass

class Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = Undef()

class Agg:
    __slots__ = ('ty', 'fs')
    def __init__(self, ty, fs): self.ty = ty; self.fs = tuple(fs)
    def __repr__(self): return 'Agg%d%r' % (self.ty, self.fs)
class Enum:
    __slots__ = ('ty', 'd', 'vs')
    def __init__(self, ty, d, vs): self.ty = ty; self.d = d; self.vs = vs
    def __repr__(self): return 'Enum%d[%r]%r' % (self.ty, self.d, self.vs)
class ArrV:
    """array / vector contents: base + conditional point writes (later wins)"""
    __slots__ = ('ety', 'n', 'base', 'writes')
    def __init__(self, ety, n, base, writes=()): self.ety = ety; self.n = n; self.base = base; self.writes = writes
    def __repr__(self): return 'Arr(%s,%d writes)' % (self.base[0], len(self.writes))
class Ref:
    __slots__ = ('cell', 'path', 'meta')
    def __init__(self, cell, path=(), meta=None): self.cell = cell; self.path = tuple(path); self.meta = meta
    def __repr__(self): return '&%s%r' % (self.cell, self.path)
class Choice:
    """reference-like value depending on a condition: [(cond, value)], conditions exhaustive, first match"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Choice%r' % (self.alts,)
class Opaque:
    __slots__ = ('what',)
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Opaque(%s)' % (self.what,)
class StrV:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % self.s
class FnV:
    __slots__ = ('key',)
    def __init__(self, key): self.key = key
class IterV:
    """slice iterator: elements [pos, end) of the slice `ref` (a Ref to the first element's array)"""
    __slots__ = ('ref', 'pos', 'end')
    def __init__(self, ref, pos, end): self.ref = ref; self.pos = pos; self.end = end
    def __repr__(self): return 'Iter(%r,%s..%s)' % (self.ref, t.show(self.pos, 3), t.show(self.end, 3))
class Lazy:
    __slots__ = ('ty', 'name', 'idx')
    def __init__(self, ty, name, idx=()): self.ty = ty; self.name = name; self.idx = idx
class VecV:
    __slots__ = ('ety', 'arr', 'len')
    def __init__(self, ety, arr, ln): self.ety = ety; self.arr = arr; self.len = ln
    def __repr__(self): return 'Vec(len %s)' % t.show(self.len, 3)

def leafy(v): return isc(v) and not isinstance(v, (Undef,)) and isinstance(v, (bool, int, float, t.Fraction)) or isinstance(v, Term)
