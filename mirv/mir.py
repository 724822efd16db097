import json, re
class Mir:
    def __init__(self, path):
        d = json.loads(re.sub(r'\bmango_v4::(core|alloc|std)::', 'std::', open(path).read()))
        self.bodies = d['bodies']; self.types = d['types']; self.items = d['items']
        self.byname = {}
        self.bydef = {}
        for k, b in self.bodies.items():
            b['key'] = k
            self.byname.setdefault(b['name'], []).append(k)
            self.bydef.setdefault(b['def'], []).append(k)
        self._cfg = {}
        for i, t in enumerate(self.types): t['id'] = i
    def ty(self, i): return self.types[i]
    def fn(self, name):
        ks = self.byname.get(name) or self.bydef.get(name) or []
        ks = [k for k in ks if 'body' in self.bodies[k]]
        if not ks: raise KeyError('no function ' + name)
        return ks[0]
    def fns(self, rx):
        r = re.compile(rx)
        return [k for k, b in self.bodies.items() if r.search(b['name']) and 'body' in b]
    def find_ty(self, disp):
        for i, t in enumerate(self.types):
            if t['disp'] == disp: return i
        raise KeyError(disp)
    def fidx(self, ty, name, variant=0):
        t = self.types[ty]
        for i, (n, ft) in enumerate(t['variants'][variant]['fields']):
            if n == name: return i, ft
        raise KeyError('%s has no field %s' % (t['disp'], name))
    # ---- control flow
    def succs(self, blk):
        tm = blk['t']; k = tm[0]
        if k == 'goto': return [tm[1]]
        if k == 'switch': return [b for _, b in tm[2]] + [tm[3]]
        if k == 'drop': return [tm[2]]
        if k == 'assert': return [tm[3]]
        if k == 'call': return [] if tm[4] is None else [tm[4]]
        return []
    def cfg(self, key):
        c = self._cfg.get(key)
        if c: return c
        body = self.bodies[key]['body']; bl = body['blocks']; n = len(bl)
        seen = [False] * n; post = []
        st = [(0, iter(self.succs(bl[0])))]; seen[0] = True
        onst = {0}; heads = set(); back = set()
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst: heads.add(s); back.add((b, s))
                if not seen[s]:
                    seen[s] = True; onst.add(s); st.append((s, iter(self.succs(bl[s])))); break
            else:
                st.pop(); onst.discard(b); post.append(b)
        # order loops before their exits: recompute an RPO in which, at a switch, exits of a loop
        # are visited after the body.  Done with natural loop membership.
        preds = {}
        for b in range(n):
            if seen[b]:
                for s in self.succs(bl[b]): preds.setdefault(s, []).append(b)
        loops = {}
        for (b, h) in back:
            L = loops.setdefault(h, {h}); w = [b]
            while w:
                x = w.pop()
                if x in L: continue
                L.add(x); w += preds.get(x, [])
        # topological order ignoring back edges; loop bodies contiguous
        inloops = {b: [h for h in loops if b in loops[h]] for b in range(n) if seen[b]}
        order = []
        vis = set()
        def dfs(b0):
            st = [(b0, None)]
            stack = [(b0, self._ord(bl, b0, loops, inloops, back))]
            vis.add(b0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in vis:
                        vis.add(s); stack.append((s, self._ord(bl, s, loops, inloops, back))); break
                else:
                    stack.pop(); order.append(b)
        dfs(0)
        rpo = {b: i for i, b in enumerate(reversed(order))}
        heads_sorted = sorted(loops, key=lambda h: rpo[h])
        # liveness of locals (for merging and havoc)
        nl = len(body['locals'])
        use = {}; dfn = {}; ment = {}
        borrowed = set()
        for b in range(n):
            if not seen[b]: continue
            u = set(); d = set(); m = ment[b] = set()
            def us(l):
                m.add(l)
                if l not in d: u.add(l)
            def pl_use(p):
                us(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == 'i': us(e[1])
            def op(o):
                if isinstance(o, list): pl_use(o)
            for p, r in bl[b]['s']:
                k = r[0]
                if k == 'use': op(r[1])
                elif k in ('ref', 'addr'):
                    pl_use(r[1])
                    if '*' not in r[1]: borrowed.add(r[1][0])
                elif k in ('discr', 'len'): pl_use(r[1])
                elif k in ('bin', 'cbin'): op(r[2]); op(r[3])
                elif k == 'un': op(r[2])
                elif k == 'cast': op(r[2])
                elif k == 'repeat': op(r[1])
                elif k == 'agg':
                    for o in r[2]: op(o)
                elif k == 'setdiscr': us(p[0])
                if len(p) == 1: d.add(p[0]); m.add(p[0])
                else: pl_use(p)
            tm = bl[b]['t']
            if tm[0] == 'switch' or tm[0] == 'assert': op(tm[1])
            elif tm[0] == 'drop': pl_use(tm[1])
            elif tm[0] == 'call':
                if 'ptr' in tm[1]: op(tm[1]['ptr'])
                for o in tm[2]: op(o)
                if len(tm[3]) == 1: d.add(tm[3][0]); m.add(tm[3][0])
                else: pl_use(tm[3])
            elif tm[0] == 'return': us(0)
            use[b] = u; dfn[b] = d
        live = {b: set() for b in use}
        ch = True
        po = sorted(use, key=lambda b: -rpo[b])
        while ch:
            ch = False
            for b in po:
                o = set()
                for s in self.succs(bl[b]): o |= live[s]
                nw = use[b] | (o - dfn[b])
                if nw != live[b]: live[b] = nw; ch = True
        c = {'rpo': rpo, 'loops': loops, 'heads': heads_sorted, 'back': back, 'live': live, 'borrowed': borrowed, 'preds': preds,
            'inloop': {h: set().union(*(ment[b] for b in loops[h])) for h in loops}}
        self._cfg[key] = c
        return c
    def _ord(self, bl, b, loops, inloops, back):
        ss = [s for s in self.succs(bl[b]) if (b, s) not in back]
        # visit exits first (they get a later RPO position), loop members last
        def key(s):
            return sum(1 for h in inloops[b] if s in loops[h])
        return iter(sorted(ss, key=key))
