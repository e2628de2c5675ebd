"""Comprehension analysis: collections of unknown size are abstracted by ONE generic element.

Iterating an opaque collection `src` binds a fresh element ('t','el',src,n); everything the program does with it is
recorded as a clause (binders, guard, value): "for every element of src for which guard holds, value is produced".
  ('compr', C)          item of a vec/map/string: all values of the clauses C
  ('t','exists',C)      some clause of C fires          ('t','card',C)   number of values
  ('t','firstopt',C)    Option of the first value       ('t','lastopt',C)
Loops (MIR natural loops and closures driven by iterator adaptors) are summarised: cells that only grow by appending
get a ('compr',C) item.  All other changed cells are folds: ('t','acc',i,inits,C,at,-loop) is component i of the value before
iteration `at` (a tuple of binders; ('end',): after the loop), C maps every iteration to the next tuple of components,
in which the current ones are ('t','bv',-loop,i).
"""
from absint import *
import absint
from facts import succs

MISS = None
GB = ('ghost', 'b')

def heights(t, memo):
    r = memo.get(id(t))
    if r is not None: return r[0]
    if not isinstance(t, tuple): return 0
    if len(t) >= 4 and t[0] == 't' and t[1] == 'bv': h = t[2]
    else:
        h = 0
        for x in t:
            if isinstance(x, tuple):
                k = heights(x, memo)
                if k > h: h = k
        if t and t[0] == 'C':
            for cl in t[1:]:
                if cl[3] > h: h = cl[3]
    memo[id(t)] = (h, t)
    return h

def subst(t, m, memo=None):
    """replace whole subterms"""
    if memo is None: memo = {}
    if not isinstance(t, tuple): return t
    r = m.get(t)
    if r is not None: return r
    k = id(t)
    c = memo.get(k)
    if c is not None: return c[0]
    n = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
    if n == t: n = t
    memo[k] = (n, t)
    return n

def mentions(t, x):
    if t == x: return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))

_rk = {}
def rkey(t):
    r = _rk.get(t)
    if r is None: r = _rk[t] = repr(t)
    return r

def close(binders, guard, value):
    """canonical closed clause"""
    g = tuple(sorted(guard, key=rkey))
    memo = {}
    H = 1 + max([heights(value, memo), heights(g, memo)] + [heights(b_, memo) for b_ in binders])
    m = {}
    srcs = []
    for i, el in enumerate(binders):
        srcs.append(subst(el[2], m))
        m[el] = ('t', 'bv', H, i)
    m2 = dict(m)
    g2 = tuple(sorted(((subst(t, m2), v) for t, v in g), key=rkey))
    return (tuple(srcs), g2, subst(value, m2), H)

def fresh(st, src):
    k = ('ghost', 'n', src)
    n = st.mem.get(k, 0)
    st.mem[k] = n + 1
    el = ('t', 'el', src, n)
    st.mem[GB] = st.mem.get(GB, ()) + (el,)
    return el

class CInterp(Interp):
    def __init__(self, facts, models=None, max_steps=400000, max_depth=60):
        super().__init__(facts, None, max_steps, max_depth)
        self.models.update(CMODELS)
        if models: self.models.update(models)
        self.sids = {}
        self.loopstack = []
        self._loops = {}
        self.notes = []
        self.nofork = False

    # ---- natural loops
    def loops_of(self, body):
        r = self._loops.get(body.key)
        if r is not None: return r
        n = len(body.blocks)
        sc = [[x for x in succs(b_['t'])] for b_ in body.blocks]
        # DFS for back edges
        color = [0] * n; back = []
        stack = [(0, iter(sc[0]))]; color[0] = 1
        while stack:
            v, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1; stack.append((w, iter(sc[w]))); break
                if color[w] == 1: back.append((v, w))
            else:
                color[v] = 2; stack.pop()
        preds = [[] for _ in range(n)]
        for i in range(n):
            for w in sc[i]: preds[w].append(i)
        loops = {}
        for v, h in back:
            s = loops.setdefault(h, {h})
            work = [v]
            while work:
                x = work.pop()
                if x in s: continue
                s.add(x); work += preds[x]
        self._loops[body.key] = loops
        return loops

    # ---- execution
    def run(self, body, args, st):
        if len(self.stack) >= self.max_depth: raise Incomplete('call depth in ' + body.path)
        fr = len(self.stack) + 1
        self.stack.append(body)
        self.analysed.add(body.path)
        try:
            st = st.copy()
            for c in [c for c in st.mem if c[0] == fr]: del st.mem[c]
            for i, a in enumerate(args): st.mem[(fr, i + 1)] = a
            results = []; rseen = set()
            for kind, s2 in self.enter(body, fr, 0, st, None, None):
                v = s2.mem.get((fr, 0), UNIT)
                if v == U: v = UNIT
                v = self.escape(s2, v, fr)
                for c in [c for c in s2.mem if c[0] == fr]: del s2.mem[c]
                kk = (s2.freeze(), v)
                if kk not in rseen: rseen.add(kk); results.append((s2, v))
            return results
        finally: self.stack.pop()

    def enter(self, body, fr, bi, st, region, head):
        """continue at block bi: outcomes ('ret',s) | ('back',s) | (('out',block),s)"""
        loops = self.loops_of(body)
        if bi in loops and bi != head: return self.after(body, fr, self.loop(body, fr, bi, st), region, head)
        return self.explore(body, fr, bi, st, region, head)

    def after(self, body, fr, outs, region, head):
        res = []
        for kind, s in outs:
            if isinstance(kind, tuple):
                t = kind[1]
                if region is not None:
                    if t == head: res.append(('back', s)); continue
                    if t not in region: res.append((('out', t), s)); continue
                res += self.enter(body, fr, t, s, region, head)
            else: res.append((kind, s))
        return res

    def explore(self, body, fr, bi, st, region, head):
        loops = self.loops_of(body)
        li, borrowed = self.live_out(body)
        out = []; oseen = set()
        seen = set()
        work = [(bi, st, True)]
        def emit(kind, s):
            k = (kind, s.freeze())
            if k not in oseen: oseen.add(k); out.append((kind, s))
        while work:
            bi, st, first = work.pop()
            self.steps += 1
            if self.steps > self.max_steps: raise Incomplete('step budget in ' + body.path)
            if self.deadline is not None and self.steps & 63 == 0 and time.time() > self.deadline: raise Incomplete('time budget in ' + body.path)
            if not first:
                if region is not None:
                    if bi == head: emit('back', st); continue
                    if bi not in region: emit(('out', bi), st); continue
                if bi in loops:
                    for kind, s in self.loop(body, fr, bi, st):
                        if isinstance(kind, tuple): work.append((kind[1], s, False))
                        else: emit(kind, s)
                    continue
            if bi in body.joins:
                lv = li[bi]
                for c in [c for c in st.mem if c[0] == fr and c[1] not in lv and c[1] not in borrowed]: del st.mem[c]
                k = (bi, st.freeze())
                if k in seen: continue
                seen.add(k)
            blk = body.blocks[bi]
            for s in blk['s']: self.stmt(st, body, fr, s)
            self.curblk = (fr, bi)
            for t, s2 in self.term(st, body, fr, blk['t']):
                if t == 'ret': emit('ret', s2)
                elif t is None: pass
                else: work.append((t, s2, False))
        return out

    def loop(self, body, fr, H, st):
        region = self.loops_of(body)[H]
        li, borrowed = self.live_out(body)
        st = st.copy()
        lv = li[H]
        for c in [c for c in st.mem if c[0] == fr and c[1] not in lv and c[1] not in borrowed]: del st.mem[c]
        site = (body.path, 'loop', H)
        havoc = {}
        for rnd in range(12):
            s0 = st.copy()
            apply_havoc(self, s0, st, havoc, site)
            snap = s0.copy()
            self.loopstack.append((fr, snap))
            try: outs = self.explore(body, fr, H, s0, region, H)
            except LoopRead as e:
                if e.args[0] != site: raise
                havoc[e.args[1]] = 'seq'; continue
            finally: self.loopstack.pop()
            arr = [s for k, s in outs if k == 'back']
            keep = lambda c: c[0] != fr or c[1] in lv or c[1] in borrowed
            if not widen(self, snap, arr, [s for k, s in outs], (), keep, havoc, site): break
        else: raise Incomplete('loop does not stabilise in ' + body.path)
        accs = define_accs(self, st, snap, arr, havoc, site)
        if accs is not None: arr = [at_accs(self, snap, s, accs)[0] for s in arr]
        contrib = contributions(self, snap, arr, havoc)
        exits = [(k, s) for k, s in outs if k != 'back']
        nb = len(snap.mem.get(GB, ()))
        early = [(k, s) for k, s in exits if len(s.mem.get(GB, ())) == nb + 1]
        C = None
        if early and arr:
            C = mkC([close(s.mem[GB][nb:], diff_asm(snap, s), s.mem[GB][nb]) for k, s in early])
        res = []
        for k, s in exits:
            s = s.copy()
            n = len(s.mem.get(GB, ())) - nb
            if C is not None:
                d = ('t', 'discr', ('t', 'firstopt', C))
                self.tyof[d] = OPT
                if n == 1:
                    el = s.mem[GB][nb]
                    m = {el: ('t', 'fld', ('t', 'as', ('t', 'firstopt', C), 1), 0)}
                    s.mem = {kk: subst(v, m) if isinstance(v, tuple) else v for kk, v in s.mem.items()}
                    s.asm = {subst(t, m): v for t, v in s.asm.items()}
                    for t in list(s.asm):
                        if t[0] == 't' and t[1] == 'discr' and t not in self.tyof:
                            for t0 in [x for x in self.tyof if subst(x, m) == t][:1]: self.tyof[t] = self.tyof[t0]
                    s.asm[d] = ('i', 1)
                    s.mem[GB] = s.mem[GB][:nb]
                elif n == 0: s.asm[d] = ('i', 0)
            if accs is not None: subst_state(self, s, accs[1](('end',) if n == 0 else ('exit',)))
            add_contrib(self, snap, s, contrib)
            unmark(self, s, havoc, site)
            res.append((k, s))
        return res

    # ---- calls: bodies of other workspace crates are found by path when the symbol differs
    def call(self, st, f, args, body=None):
        g = self.deref(st, f)
        if g[0] == 'fn':
            c = g[1]
            if c.sym and c.sym not in self.F.bodies and not self.models.get(c.p) and not (c.rp and self.models.get(c.rp)) and not c.ctor:
                bd = self.F.fn(c.c.get('rp') or c.c['p'])
                if bd is not None and bd.crate.startswith('wat_') and len(self.F.by_path[bd.path]) == 1 and self.inline_ok(bd) and all(x.key != bd.key for x in self.stack):
                    return self.run(bd, args, st)
        return super().call(st, f, args, body)

    # ---- terms
    def simplify_bool(self, st, t):
        if t[0] != 't': return t
        if t[1] == 'bin' and t[2] == 'Eq':
            for x, y in ((t[3], t[4]), (t[4], t[3])):
                if x[0] == 't' and x[1] == 'discr' and y[0] == 'i':
                    a = st.asm.get(x)
                    if a is not None:
                        if a[0] == 'i': return b(a[1] == y[1])
                        if a[0] == 'not' and y[1] in a[1]: return FALSE
        return super().simplify_bool(st, t)

    def assume(self, st, t, val):
        while t[0] == 't' and t[1] == 'not': t = t[2]; val = not val
        if t[0] == 'b': return t[1] == val
        if t[0] == 't' and t[1] == 'bin':
            op, x, y = t[2], t[3], t[4]
            if op == 'BitAnd' and val: return self.assume(st, x, True) and self.assume(st, y, True)
            if op == 'BitOr' and not val: return self.assume(st, x, False) and self.assume(st, y, False)
            if op == 'Eq':
                for d, k in ((x, y), (y, x)):
                    if d[0] == 't' and d[1] == 'discr' and k[0] == 'i':
                        cur = st.asm.get(d)
                        if val:
                            if cur is not None and (cur[0] == 'i' and cur != k or cur[0] == 'not' and k[1] in cur[1]): return False
                            st.asm[d] = k; return True
                        ex = set(cur[1]) if cur is not None and cur[0] == 'not' else set()
                        if cur is not None and cur[0] == 'i': return cur != k
                        ex.add(k[1])
                        a = self.F.adts.get(self.tyof.get(d))
                        if a and a['enum']:
                            rest = [v['d'] for v in a['v'] if v['d'] not in ex]
                            if not rest: return False
                            if len(rest) == 1: st.asm[d] = ('i', rest[0]); return True
                        st.asm[d] = ('not', tuple(sorted(ex))); return True
        cur = st.asm.get(t)
        if cur is not None and cur[0] == 'b' and cur[1] != val: return False
        st.asm[t] = b(val)
        return True

def diff_asm(base, s): return [(t, v) for t, v in s.asm.items() if base.asm.get(t) != v]

def mkC(clauses):
    return ('C',) + tuple(sorted(set(clauses), key=rkey))

def clause_of(I, base, s, v, m=None):
    nb = len(base.mem.get(GB, ()))
    g = diff_asm(base, s)
    if m:
        for t, x in g:
            u = subst(t, m)
            if u != t: retype(I, t, u)
        g = [(subst(t, m), x) for t, x in g]; v = subst(v, m)
    return close(s.mem.get(GB, ())[nb:], g, v)

# ---------------------------------------------------------------- effects of an arbitrary iteration
SEQ = ('vec', 'map', 'cat')
def seqitems(v):
    if v[0] in SEQ: return v[1]
    if v[0] == 's': return (v,) if v[1] else ()
    return None

def cmp_val(path, v0, v1, out):
    """out: list of (path,'app',items) / (path,'set',value)"""
    if v0 == v1: return
    if v1[0] == 'u' or v0[0] == 'u': return
    a, b_ = seqitems(v0), seqitems(v1)
    if a is not None and b_ is not None and b_[:len(a)] == a:
        out.append((path, 'app', b_[len(a):])); return
    if v0[0] == v1[0] and v0[0] == 'adt' and v0[1:3] == v1[1:3] and len(v0[3]) == len(v1[3]):
        for i, (x, y) in enumerate(zip(v0[3], v1[3])): cmp_val(path + (i,), x, y, out)
        return
    if v0[0] == v1[0] and v0[0] in ('tup', 'arr') and len(v0[1]) == len(v1[1]):
        for i, (x, y) in enumerate(zip(v0[1], v1[1])): cmp_val(path + (i,), x, y, out)
        return
    if v0[0] == v1[0] == 'clo' and v0[1] == v1[1]:
        for i, (x, y) in enumerate(zip(v0[3], v1[3])): cmp_val(path + (i,), x, y, out)
        return
    out.append((path, 'set', v1))

def effects_of(I, snap, s, keep=lambda c: True):
    out = []
    for c, v0 in snap.mem.items():
        if c[0] == 'ghost' or not keep(c): continue
        v1 = s.mem.get(c)
        if v1 is None or not isinstance(v0, tuple) or not isinstance(v1, tuple): continue
        cmp_val((c,), v0, v1, out)
    return out

def changed(I, snap, arr, keep):
    r = set()
    for s in arr:
        for p, k, v in effects_of(I, snap, s, keep):
            if k == 'set': r.add(p)
    return r

def apply_havoc(I, s, st, havoc, site):
    for p, how in havoc.items():
        c, pr = p[0], p[1:]
        init = I.read(st, c, pr)
        t = ('t', 'acc', site, p, I.deep(st, init))
        if how == 'mark': t = (init[0] if init[0] != 's' else 'cat', seqitems(init) + (('loop', site, p),))
        elif how == 'seq': t = ('cat', (t,)) if init[0] in ('s', 'cat') else (init[0], (('spread', t),))
        I.write(s, c, pr, t)

class LoopRead(Exception):
    """what a loop has collected so far is read inside the loop"""

def ismark(x): return isinstance(x, tuple) and len(x) == 3 and x[0] == 'loop' and isinstance(x[2], tuple)

def marks(v, out, seen):
    if not isinstance(v, tuple) or id(v) in seen: return
    seen[id(v)] = v
    if ismark(v): out.add(v); return
    for x in v:
        if isinstance(x, tuple): marks(x, out, seen)

def widen(I, snap, arr, all_, vals, keep, havoc, site):
    """refine the assumptions about what an iteration finds; whether another round is needed"""
    new = changed(I, snap, arr, keep) - set(p for p, h in havoc.items() if h != 'mark')
    for p in new: havoc[p] = 'seq' if havoc.get(p) == 'mark' or isinstance(snap.mem.get(p[0]), tuple) and len(p) == 1 and snap.mem[p[0]][0] == 'vec' else True
    if new: return True
    app = set()
    for s in arr:
        for p, k, v in effects_of(I, snap, s): 
            if k == 'app' and p not in havoc: app.add(p)
    for p in app: havoc[p] = 'mark'
    if app: return True
    if not any(h == 'mark' for h in havoc.values()): return False
    out = set(); seen = {}
    for s in all_:
        for t, x in s.asm.items():
            if snap.asm.get(t) != x: marks(t, out, seen)
        for c, v in s.mem.items():
            if not isinstance(v, tuple): continue
            own_ = [p for p in havoc if p[0] == c and havoc[p] == 'mark']
            if not own_: marks(v, out, seen)
            else:
                l = []; sub = set(); _marks_list(v, l)
                for m in l:
                    if m[1] == site and m[2] in own_ and m not in sub: sub.add(m)
                    else: out.add(m)
    for v in vals: marks(v, out, seen)
    bad = {m[2] for m in out if m[1] == site}
    for p in bad: havoc[p] = 'seq'
    return bool(bad)

def _marks_list(v, l):
    if not isinstance(v, tuple): return
    if ismark(v): l.append(v); return
    for x in v:
        if isinstance(x, tuple): _marks_list(x, l)

def unmark(I, s, havoc, site):
    for p, how in havoc.items():
        if how != 'mark' or p[0] not in s.mem: continue
        v = I.read(s, p[0], p[1:])
        if v[0] in SEQ and any(ismark(x) for x in v[1]): I.write(s, p[0], p[1:], (v[0], tuple(x for x in v[1] if not (ismark(x) and x[1] == site and x[2] == p))))

def contributions(I, snap, arr, havoc):
    r = {}
    for s in arr:
        for p, k, v in effects_of(I, snap, s):
            if k != 'app' or havoc.get(p) == 'seq': continue
            v = [item_val(I, s, x) for x in v]
            if len(v) > 1 and (len(set(v)) < len(v) or I.read(s, p[0], p[1:])[0] in ('s', 'cat')): v = [('item', ('seq', tuple(v)))]
            for x in v: r.setdefault(p, []).append(clause_of(I, snap, s, x))
    return {p: mkC(l) for p, l in r.items()}

def item_val(I, s, x):
    if x[0] in ('spread', 'spreadne', 'plus', 'star', 'compr', 'multi'): return ('item', x)
    return I.deep(s, x)

def add_contrib(I, snap, s, contrib):
    for p, C in contrib.items():
        c, pr = p[0], p[1:]
        if c not in s.mem: continue
        v0 = I.read(snap, c, pr); v = I.read(s, c, pr)
        a, b_ = seqitems(v0), seqitems(v)
        if a is None or b_ is None: continue
        k = v[0] if v[0] != 's' else 'cat'
        I.write(s, c, pr, (k, b_[:len(a)] + (('compr', C),) + b_[len(a):]))

def define_accs(I, st, snap, arr, havoc, site):
    """the fold computed by a loop: (raw terms, function giving their meaning at a tuple of binders)"""
    ps = [p for p, h in havoc.items() if h != 'mark']
    if not ps: return None
    raw = [I.read(snap, p[0], p[1:]) for p in ps]
    raw = [t[1][0] if t[0] == 'cat' and havoc[p] == 'seq' else t[1][0][1] if havoc[p] == 'seq' else t for p, t in zip(ps, raw)]
    inits = tuple(t[4] if len(t) == 5 and t[1] == 'acc' else U for t in raw)
    sid = I.sids.setdefault(site, len(I.sids) + 1)
    cur = {t: ('t', 'bv', -sid, i) for i, t in enumerate(raw)}
    tr = set()
    for s in arr:
        if any(p[0] not in s.mem for p in ps): continue
        v = ('tup', tuple(I.deep(s, I.read(s, p[0], p[1:])) for p in ps))
        tr.add(clause_of(I, snap, s, v, cur))
    C = mkC(tr)
    return raw, lambda at: {t: ('t', 'acc', i, inits, C, at, -sid) for i, t in enumerate(raw)}

def subst_state(I, s, m):
    s.mem = {k: subst(v, m) if isinstance(v, tuple) else v for k, v in s.mem.items()}
    asm = {}
    for t, v in s.asm.items():
        u = subst(t, m)
        if u is not t and u != t: retype(I, t, u)
        asm[u] = v
    s.asm = asm

def retype(I, t, u):
    if t[0] == 't' and t[1] == 'discr' and t in I.tyof: I.tyof.setdefault(u, I.tyof[t])

def at_accs(I, snap, s, accs):
    """make the folds in the state of one iteration explicit"""
    if accs is None: return s, {}
    nb = len(snap.mem.get(GB, ()))
    s = s.copy()
    m = accs[1](s.mem.get(GB, ())[nb:])
    keepgb = s.mem.get(GB)
    subst_state(I, s, m)
    if keepgb is not None: s.mem[GB] = keepgb
    return s, m

def fixpass(I, st, fn, site):
    """fn(state) -> [(state, value|MISS)] for one generic iteration; returns (states and values, state after all iterations, snapshot)"""
    havoc = {}
    for rnd in range(12):
        s0 = st.copy()
        apply_havoc(I, s0, st, havoc, site)
        snap = s0.copy()
        try: res = fn(s0)
        except LoopRead as e:
            if e.args[0] != site: raise
            havoc[e.args[1]] = 'seq'; continue
        arr = [s for s, v in res]
        if not widen(I, snap, arr, arr, [v for s, v in res if v is not MISS], lambda c: c in snap.mem, havoc, site): break
    else: raise Incomplete('iteration does not stabilise')
    accs = define_accs(I, st, snap, [s for s, v in res], havoc, site)
    end = snap.copy()
    if accs is not None:
        r2 = []
        for s, v in res:
            s, m = at_accs(I, snap, s, accs)
            r2.append((s, subst(v, m) if isinstance(v, tuple) else v))
        res = r2
        subst_state(I, end, accs[1](('end',)))
    contrib = contributions(I, snap, [s for s, v in res], havoc)
    add_contrib(I, snap, end, contrib)
    unmark(I, end, havoc, site)
    for s, v in res: unmark(I, s, havoc, site)
    unmark(I, snap, havoc, site)
    return res, end, snap

# ---------------------------------------------------------------- one generic element of an iterator
def definite(it):
    """an iterator whose items are all known"""
    if it[0] == 'it': return all(x[0] not in ('spread', 'spreadne', 'plus', 'star', 'compr', 'multi') for x in it[1])
    if it[0] == 'itx':
        if it[1] in ('successors', 'skipt', 'taket', 'repeat'): return False
        if it[1] == 'flat': return False
        return all(definite(x) for x in it[2:] if isinstance(x, tuple) and x and x[0] in ('it', 'itx', 'itm'))
    return False

def valof(I, st, it, peek=False):
    n = 0
    while it[0] in ('ref', 'rv') and n < 20:
        it = I.read(st, it[1], it[2]) if it[0] == 'ref' else it[1]; n += 1
    if it[0] in SEQ and not peek:
        for x in it[1]:
            if ismark(x): raise LoopRead(x[1], x[2])
    return it

def instantiate(I, st, cl):
    """state with the guard of a closed clause, and its value"""
    srcs, g, v, H = cl
    s = st.copy()
    m = {}
    for i, src in enumerate(srcs):
        m[('t', 'bv', H, i)] = fresh(s, subst(src, m))
    for t, x in g:
        t2 = subst(t, m)
        if t2[0] == 't' and t2[1] == 'discr' and t2 not in I.tyof and t in I.tyof: I.tyof[t2] = I.tyof[t]
        if not put(I, s, t2, x): return None
    return s, subst(v, m)

def put(I, s, t, x):
    cur = s.asm.get(t)
    if cur is not None and cur != x:
        if cur[0] == 'i' and x[0] == 'i' or cur[0] == 'b' and x[0] == 'b': return False
        if cur[0] == 'i' and x[0] == 'not': return cur[1] not in x[1]
        if cur[0] == 'not' and x[0] == 'i' and x[1] in cur[1]: return False
        if cur[0] == 'not' and x[0] == 'not': x = ('not', tuple(sorted(set(cur[1]) | set(x[1]))))
    s.asm[t] = x
    return True

def gen_items(I, st, items, wrap=False):
    out = []
    w = (lambda x: ('rv', x)) if wrap else (lambda x: x)
    for x in items:
        if x[0] in ('spread', 'spreadne'):
            s = st.copy(); out.append((s, fresh(s, x[1])))
        elif x[0] in ('plus', 'star'): out += gen_items(I, st, x[1], wrap)
        elif x[0] == 'seq': out += gen_items(I, st, tuple(y[1] if y[0] == 'item' else y for y in x[1]), wrap)
        elif x[0] == 'compr':
            for cl in x[1][1:]:
                r = instantiate(I, st, cl)
                if r is None: continue
                s, v = r
                if v[0] == 'item': out += gen_items(I, s, (v[1],), wrap)
                else: out.append((s, w(v)))
        else: out.append((st.copy(), x))
    return out

def gen_map(I, st, items, wrap):
    """groups of a multi-map; one (key, values) per member"""
    mem = gen_items(I, st, items)
    out = []; lead = None
    for s, x in mem:
        if x[0] == 'multi':
            k = x[1]
            cls = []
            nb = len(st.mem.get(GB, ()))
            s = s.copy()
            if lead is None: lead = mkC([clause_of(I, st, s1, I.deep(s1, y[1])) for s1, y in mem if y[0] == 'multi'])
            s.asm[('t', 'leader', lead, I.deep(s, k), s.mem.get(GB, ())[nb:])] = TRUE
            for s2, y in gen_items(I, s, items):
                if y[0] != 'multi': raise Incomplete('mixed map')
                s2 = s2.copy()
                if I.assume(s2, I.simplify_bool(s2, ceq(I, y[1], k)), True): cls.append(clause_of(I, s, s2, I.deep(s2, y[2])))
            v = ('tup', (k, ('vec', (('compr', mkC(cls)),))))
        else: v = x
        if wrap and v[0] == 'tup': v = ('tup', tuple(('rv', y) for y in v[1]))
        out.append((s, v))
    return out

def ranker(I, st, l):
    """position of a generic element among everything the iterator yields"""
    nb = len(st.mem.get(GB, ()))
    C = mkC([clause_of(I, st, s, UNIT) for s, x in l if x is not MISS])
    return lambda s: ('t', 'rank', C, s.mem.get(GB, ())[nb:])

def gen(I, st, it):
    if it[0] in ('ref', 'rv'):
        w = valof(I, st, it)
        if w[0] in ('it', 'itx'): return gen(I, st, w)
        return gen(I, st, to_iter_c(I, st, it))
    if it[0] == 'it': return gen_items(I, st, it[1])
    if it[0] == 'itm': return gen_map(I, st, it[1], it[2])
    if it[0] != 'itx': return gen(I, st, to_iter_c(I, st, it))
    op = it[1]
    out = []
    if op == 'map':
        for s, x in gen(I, st, it[2]):
            if x is MISS: out.append((s, x)); continue
            out += callf(I, s, it[3], [x])
        return out
    if op == 'filter':
        for s, x in gen(I, st, it[2]):
            if x is MISS: out.append((s, x)); continue
            for s2, v in callf(I, s, it[3], [('rv', x)]):
                out += [(s3, x if t else MISS) for s3, t in fork_bool(I, s2, v)]
        return out
    if op == 'filter_map':
        for s, x in gen(I, st, it[2]):
            if x is MISS: out.append((s, x)); continue
            for s2, v in callf(I, s, it[3], [x]):
                out += [(s3, p) for s3, p in fork_opt(I, s2, v)]
        return out
    if op == 'flat':
        for s, x in gen(I, st, it[2]):
            if x is MISS: out.append((s, x)); continue
            for s2, v in (callf(I, s, it[3], [x]) if it[3] is not None else [(s, x)]):
                w = valof(I, s2, v)
                if w[0] == 't' and I.tyof.get(('t', 'discr', w)) == OPT or is_opt_term(w):
                    out += [(s3, p) for s3, p in fork_opt(I, s2, w)]
                else: out += gen(I, s2, to_iter_c(I, s2, v)) if w[0] not in ('it', 'itx', 'itm') else gen(I, s2, w)
        return out
    if op == 'chain':
        return (gen(I, st, it[2]) if it[2] is not None else []) + gen(I, st, it[3])
    if op == 'cloned': return [(s, x if x is MISS else I.deref(s, x)) for s, x in gen(I, st, it[2])]
    if op in ('peekable', 'rev', 'inspect'): return gen(I, st, it[2])
    if op == 'enumerate':
        l = gen(I, st, it[2]); rk = ranker(I, st, l)
        return [(s, x if x is MISS else ('tup', (rk(s), x))) for s, x in l]
    if op == 'zip':
        l = gen(I, st, it[2]); rk = ranker(I, st, l)
        for s, x in l:
            if x is MISS: out.append((s, x)); continue
            w = it[3]
            r = None
            if w[0] == 'it' and len(w[1]) == 1 and w[1][0][0] == 'spread':
                src = w[1][0][1]
                if src[0] == 'adt' and src[1] == 'core::ops::range::RangeFrom':
                    r = rk(s)
                    if src[3][0] != ('i', 0): r = ('t', 'bin', 'Add', src[3][0], r)
            if r is not None: out.append((s, ('tup', (x, r)))); continue
            rest = None
            if w[0] == 'itx' and w[1] == 'repeat': out.append((s, ('tup', (x, w[2])))); continue
            if w[0] == 'itx' and w[1] == 'chain' and w[3][0] == 'itx' and w[3][1] == 'repeat': w, rest = w[2], w[3][2]
            C, end = comprehend(I, s, w, site='zip')
            n = rk(s)
            for s2, short in fork_bool(I, end.copy(), ('t', 'bin', 'Lt', n, card(C))):
                if short: out.append((s2, ('tup', (x, ('t', 'at', C, n)))))
                elif rest is not None: out.append((s2, ('tup', (x, rest))))
                else: out.append((s2, MISS))
        return out
    if op in ('skip', 'take', 'skipt', 'taket'):
        l = gen(I, st, it[2]); rk = ranker(I, st, l)
        for s, x in l:
            if x is not MISS:
                s = s.copy()
                a = ('t', 'bin', 'Lt', rk(s), ('i', it[3]) if op in ('skip', 'take') else it[3])
                if op in ('skipt', 'taket'):
                    if not I.assume(s, a, op == 'taket'): continue
                elif it[3] > 0 or op == 'take':
                    if not I.assume(s, a, op == 'take'): continue
            out.append((s, x))
        return out
    if op == 'while':
        mode = it[4]
        l = gen(I, st, it[2])
        nb = len(st.mem.get(GB, ()))
        Call = mkC([clause_of(I, st, s, UNIT) for s, x in l if x is not MISS])
        fails = []; keep = []
        for s, x in l:
            if x is MISS: out.append((s, x)); continue
            for s2, v in callf(I, s, it[3], [x if mode == 'map' else ('rv', x)]):
                if mode == 'map':
                    for s3, p in fork_opt(I, s2, v):
                        if p is None: fails.append(clause_of(I, st, s3, UNIT))
                        else: keep.append((s3, p))
                else:
                    for s3, t in fork_bool(I, s2, v):
                        if not t: fails.append(clause_of(I, st, s3, UNIT))
            if mode != 'map': keep.append((s, x))
        Cf = mkC(fails)
        for s, x in keep:
            s = s.copy()
            s.asm[('t', 'before', Call, Cf, s.mem.get(GB, ())[nb:])] = b(mode == 'skip')
            out.append((s, x))
        return out
    if op == 'successors':
        s = st.copy()
        return [(s, fresh(s, ('t', 'successors', I.deep(s, it[2]), fname(it[3]))))]
    raise Incomplete('iterator ' + op)

def fname(f):
    while f[0] in ('rv',): f = f[1]
    if f[0] == 'clo': return f[2]
    if f[0] == 'fn': return f[1].p
    return 'f'

def is_opt_term(w): return w[0] == 't' and w[1] in ('firstopt', 'lastopt', 'parent', 'token', 'child', 'into_token', 'into_node')

def to_iter_c(I, st, v):
    w = valof(I, st, v)
    if w[0] in ('it', 'itx', 'itm'): return w
    byref = v[0] in ('ref', 'rv')
    if w[0] == 'map': return ('itm', w[1], byref)
    if w[0] in ('vec', 'arr') and byref:
        return ('it', tuple(x if x[0] in ('plus', 'star', 'spread', 'spreadne', 'compr', 'multi') else ('rv', x) for x in w[1]))
    if w[0] in ('vec', 'arr'): return ('it', w[1])
    return absint.to_iter(I, st, v)

def own(I, st, v):
    w = valof(I, st, v)
    if w[0] in ('it', 'itx', 'itm'): return w
    return to_iter_c(I, st, v)

def hits(I, st, it, f=None, how='all'):
    """states and values of one generic round of the iterator, with a predicate/mapper applied"""
    out = []
    for s, x in gen(I, st, it):
        if x is MISS or f is None: out.append((s, x)); continue
        for s2, v in callf(I, s, f, [('rv', x) if how == 'find' else x]):
            if how in ('find', 'any', 'all'):
                for s3, t in fork_bool(I, s2, v): out.append((s3, x if t != (how == 'all') else MISS))
            elif how == 'find_map':
                out += fork_opt(I, s2, v)
    return out

def comprehend(I, st, it, f=None, how=None, site='it'):
    """closed clauses of everything the iterator (filtered/searched with f) yields; (C, state afterwards)"""
    res, end, snap = fixpass(I, st, lambda s: hits(I, s, it, f, how), (site, fname(f) if f else ''))
    cls = [clause_of(I, snap, s, item_val(I, s, v)) for s, v in res if v is not MISS]
    return mkC(cls), end

def trivial(C): return any(not c[0] and not c[1] for c in C[1:])

def exists(I, st, C):
    """fork on 'some clause fires'"""
    if len(C) == 1: return [(st, False)]
    if trivial(C): return [(st, True)]
    return fork_bool(I, st, ('t', 'exists', C))

def optof(I, C, last=False):
    if len(C) == 1: return NONE
    if trivial(C) and len(C) == 2: return some(C[1][2])
    t = ('t', 'lastopt' if last else 'firstopt', C)
    I.tyof[('t', 'discr', t)] = OPT
    return t

CMODELS = {}
def cmodel(*names):
    def d(f):
        for n in names:
            prev = BASE.get(n)
            CMODELS[n] = f
            f.prev = prev
        return f
    return d
CIT = 'core::iter::traits::iterator::Iterator::'

def m_search_c(how):
    base = BASE[CIT + how]
    def f(I, st, a, c):
        it = own(I, st, a[0])
        if definite(it): return base(I, st, a, c)
        C, end = comprehend(I, st, it, a[1], how if how != 'position' else 'any', 'search')
        if how in ('any', 'all'): return [(s, b(v if how == 'any' else not v)) for s, v in exists(I, end, C)]
        if how == 'position':
            o = optof(I, C)
            if o == NONE: return ret(end, NONE)
            Call, _ = comprehend(I, st, it, site='search')
            return [(s, NONE if p is None else some(('t', 'pos', Call, C))) for s, p in fork_opt(I, end, o)]
        return ret(end, optof(I, C))
    return f
for _h in ('find', 'find_map', 'any', 'all', 'position'): CMODELS[CIT + _h] = m_search_c(_h)

@cmodel('core::iter::adapters::peekable::Peekable::peek')
def mc_peek(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it) or it[0] != 'itx' or it[1] != 'peekable': return BASE['core::iter::adapters::peekable::Peekable::peek'](I, st, a, c)
    C, end = comprehend(I, st, it, site='search')
    return ret(end, optof(I, C))

def as_items(C): return (('compr', C),) if len(C) > 1 else ()

@cmodel(CIT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter', 'alloc::vec::spec_from_iter::SpecFromIter::from_iter')
def mc_collect(I, st, a, c):
    it = own(I, st, a[0])
    t = I.F.ty(c.tys, c.c['ta'][-1]) if c.c.get('ta') and c.p.endswith('collect') else 'alloc::vec::Vec'
    if definite(it): return BASE[CIT + 'collect'](I, st, a, c) if c.p.endswith('collect') else [(s, ('vec', items)) for s, items in drain(I, st, it)]
    C, end = comprehend(I, st, it, site='collect')
    its = as_items(C)
    if 'HashMap' in t.split('<')[0] or 'IndexMap' in t.split('<')[0] or 'HashSet' in t.split('<')[0] or 'IndexSet' in t.split('<')[0]: return ret(end, ('map', its))
    if t.startswith('alloc::string::String'): return ret(end, ('cat', its))
    if t.startswith(OPT) or t.startswith(RES):
        return ret(end, ('t', 'collect_opt', C))
    return ret(end, ('vec', its))

def slot_of(I, st, v):
    w = valof(I, st, v, True)
    while w[0] == 'rv' or w[0] == 't' and w[1] == 'deref': w = w[1] if w[0] == 'rv' else w[2]
    return w if w[0] == 't' and w[1] == 'slot' else None

def seq_append(I, st, r, items):
    w = slot_of(I, st, r)
    if w is not None:
        mr, k = w[2], w[3]
        for x in items:
            if x[0] == 'compr':
                x = ('compr', mkC([(cl[0], cl[1], ('item', ('multi', subst_in(k), cl[2])), cl[3]) for cl in rebind(x[1])]))
                m = I.deref(st, mr)
                if not write_ref(I, st, mr, ('map', m[1] + (x,))): raise Incomplete('append to unknown map')
                continue
            m = I.deref(st, mr)
            if m[0] != 'map' or not write_ref(I, st, mr, ('map', m[1] + (('multi', k, x),))): raise Incomplete('append to unknown map')
        return
    v = I.deref(st, r)
    if v[0] in SEQ: n = (v[0], v[1] + tuple(items))
    elif v[0] == 's': n = ('cat', ((v,) if v[1] else ()) + tuple(items))
    else: n = ('vec', (('spread', v),) + tuple(items))
    if not write_ref(I, st, r, n): raise Incomplete('append to unknown sequence ' + str(r)[:300])

def subst_in(k): return k
def rebind(C): return C[1:]

@cmodel('alloc::vec::Vec::push', 'smallvec::SmallVec::push')
def mc_push(I, st, a, c):
    st = st.copy(); seq_append(I, st, a[0], (I.deep_rv(st, a[1]),)); return ret(st, UNIT)

@cmodel('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'smallvec::SmallVec::extend_from_slice')
def mc_extend(I, st, a, c):
    it = own(I, st, a[1])
    if definite(it):
        out = []
        for s, its in drain(I, st, it):
            s = s.copy(); seq_append(I, s, a[0], its); out.append((s, UNIT))
        return out
    C, end = comprehend(I, st, it, site='extend')
    end = end.copy()
    seq_append(I, end, a[0], as_items(C))
    return ret(end, UNIT)

@cmodel('alloc::vec::Vec::append')
def mc_append(I, st, a, c):
    st = st.copy(); its = I.deref(st, a[1])
    its = its[1] if its[0] == 'vec' else (('spread', its),)
    write_ref(I, st, a[1], ('vec', ())); seq_append(I, st, a[0], its); return ret(st, UNIT)

@cmodel(CIT + 'for_each', CIT + 'try_for_each')
def mc_foreach(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it) and c.p.endswith('for_each') and not c.p.endswith('try_for_each'): return BASE[CIT + 'for_each'](I, st, a, c)
    ans = set()
    def fn(s):
        out = []
        for s1, x in gen(I, s, it):
            if x is MISS: out.append((s1, UNIT)); continue
            for s2, v in callf(I, s1, a[1], [x]):
                if c.p.endswith('try_for_each'): ans.add(I.deep(s2, v))
                out.append((s2, UNIT))
        return out
    res, end, snap = fixpass(I, st, fn, ('for_each', fname(a[1])))
    if not c.p.endswith('try_for_each'): return ret(end, UNIT)
    if ans == {('adt', RES, 0, (UNIT,))} or ans == {some(UNIT)}: return ret(end, next(iter(ans)))
    raise Incomplete('try_for_each that may stop')

@cmodel(CIT + 'skip', CIT + 'take')
def mc_skip(I, st, a, c):
    n = I.deep(st, a[1])
    op = c.p.rsplit('::', 1)[-1]
    if n[0] == 'i': return BASE[CIT + op](I, st, a, c)
    return ret(st, ('itx', op + 't', own(I, st, a[0]), n))
@cmodel('core::iter::sources::repeat::repeat')
def mc_repeat(I, st, a, c): return ret(st, ('itx', 'repeat', I.deep(st, a[0])))

@cmodel('alloc::vec::Vec::drain', 'alloc::vec::Vec::split_off', 'alloc::vec::Vec::truncate')
def mc_drain(I, st, a, c):
    """the end of a list is taken away from some place on"""
    v = I.deref(st, a[0]); k = I.deep(st, a[1])
    if v[0] != 'vec': return NotImplemented
    if c.p.endswith('drain'):
        if k[0] == 'adt' and k[1].endswith('::RangeFull'): k = ('i', 0)
        elif k[0] == 'adt' and k[1].endswith('::RangeFrom'): k = k[3][0]
        else: return NotImplemented
    whole = I.deep(st, v)
    st = st.copy()
    end = () if k == ('i', 0) else (('spread', ('t', 'cut', whole, k, True)),)
    if not write_ref(I, st, a[0], ('vec', end)): raise Incomplete('list cut at an unknown place')
    if c.p.endswith('truncate'): return ret(st, UNIT)
    rest = v[1] if k == ('i', 0) else (('spread', ('t', 'cut', whole, k, False)),)
    return ret(st, ('it' if c.p.endswith('drain') else 'vec', rest))

@cmodel(CIT + 'fold')
def mc_fold(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it): return BASE[CIT + 'fold'](I, st, a, c)
    st = st.copy()
    acc = ('facc', len(I.stack), st.hc); st.hc += 1
    st.mem[acc] = a[1]
    def fn(s):
        out = []
        for s1, x in gen(I, s, it):
            if x is MISS: out.append((s1, UNIT)); continue
            s1 = s1.copy()
            cur = s1.mem[acc]
            for s2, v in callf(I, s1, a[2], [cur, x]):
                s2 = s2.copy(); s2.mem[acc] = v; out.append((s2, UNIT))
        return out
    res, end, snap = fixpass(I, st, fn, ('fold', fname(a[2])))
    v = end.mem.pop(acc); end.hc = st.hc - 1
    return ret(end, v)

@cmodel(CIT + 'count')
def mc_count(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it): return BASE[CIT + 'count'](I, st, a, c)
    C, end = comprehend(I, st, it, site='count')
    return ret(end, card(C))
def card(C):
    if len(C) == 1: return ('i', 0)
    return ('t', 'card', C)

@cmodel(CIT + 'last')
def mc_last(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it): return BASE[CIT + 'last'](I, st, a, c)
    C, end = comprehend(I, st, it, site='last')
    return ret(end, optof(I, C, True))

@cmodel(CIT + 'nth')
def mc_nth(I, st, a, c):
    it = own(I, st, a[0])
    if definite(it): return BASE[CIT + 'nth'](I, st, a, c)
    C, end = comprehend(I, st, it, site='nth')
    if a[1] == ('i', 0): return ret(end, optof(I, C))
    t = ('t', 'nthopt', C, I.deep(st, a[1])); I.tyof[('t', 'discr', t)] = OPT
    return ret(end, t)

@cmodel(CIT + 'min_by_key', CIT + 'max_by_key', CIT + 'min', CIT + 'max', CIT + 'sum', CIT + 'reduce', CIT + 'min_by', CIT + 'max_by')
def mc_agg(I, st, a, c):
    it = own(I, st, a[0])
    C, end = comprehend(I, st, it, site='agg')
    op = c.p.rsplit('::', 1)[1]
    t = ('t', op, C) + tuple(fname(x) if x[0] in ('clo', 'fn') else I.deep(st, x) for x in a[1:])
    if op != 'sum': I.tyof[('t', 'discr', t)] = OPT
    return ret(end, t)

@cmodel(CIT + 'rev')
def mc_rev(I, st, a, c):
    v = valof(I, st, a[0])
    if v[0] == 'it': return ret(st, ('it', tuple(revitem(x) for x in reversed(v[1]))))
    if v[0] == 'itx' and v[1] in ('map', 'filter', 'filter_map', 'cloned'):
        r = mc_rev(I, st, [v[2]], c)[0][1]
        return ret(st, v[:2] + (r,) + v[3:])
    return ret(st, ('itx', 'rev', v))
def revitem(x):
    if x[0] in ('spread', 'spreadne'):
        src = x[1]
        return (x[0], src[2] if src[0] == 't' and src[1] == 'rev' else ('t', 'rev', src))
    if x[0] in ('compr', 'plus', 'star', 'multi'): return ('spread', ('t', 'rev', ('vec', (x,))))
    return x
@cmodel('alloc::vec::Vec::reverse', 'core::slice::<impl [T]>::reverse')
def mc_reverse(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] != 'vec' or all(x[0] not in ('spread', 'spreadne', 'compr', 'plus', 'star', 'multi') for x in v[1]): return NotImplemented
    v = I.deep(st, v)
    h = heights(v, {}) + 1
    st = st.copy()
    if not write_ref(I, st, a[0], ('vec', (('compr', ('C', ((('t', 'rev', v),), (), ('t', 'bv', h, 0), h))),))): raise Incomplete('reverse of unknown sequence')
    return ret(st, UNIT)
@cmodel('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def mc_join(I, st, a, c): return ret(st, ('t', 'joined', I.deep(st, a[0]), I.deep(st, a[1]) if len(a) > 1 else ('s', '')))

@cmodel(CIT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def mc_next(I, st, a, c):
    r = a[0]
    while r[0] == 'ref' and I.read(st, r[1], r[2])[0] == 'ref': r = I.read(st, r[1], r[2])
    v = valof(I, st, r)
    bd = I.F.bodies.get(c.sym) if c.sym else None
    if v[0] not in ('it', 'itx', 'itm', 't', 'vec', 'map'): return NotImplemented
    back = c.p.endswith('next_back')
    it = to_iter_c(I, st, v) if v[0] not in ('it', 'itx', 'itm') else v
    if definite(it) and not back: return BASE[CIT + 'next'](I, st, a, c)
    inloop = I.loopstack and r[0] == 'ref' and r[1] in I.loopstack[-1][1].mem and I.loopstack[-1][0] <= len(I.stack)
    if inloop:
        out = [(s, some(x)) for s, x in gen(I, st, it) if x is not MISS]
        out.append((st.copy(), NONE))
        return out
    C, end = comprehend(I, st, it, site='next')
    end = end.copy()
    if r[0] == 'ref': write_ref(I, end, r, ('it', (('spread', ('t', 'tail', C)),)))
    return ret(end, optof(I, C, back))

@cmodel('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'smallvec::SmallVec::is_empty', 'core::slice::is_empty', 'std::collections::hash::map::HashMap::is_empty',
        'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty')
def mc_isempty(I, st, a, c):
    v = valof(I, st, a[0])
    if v[0] in SEQ + ('arr',):
        its = v[1]
        if v[0] == 'cat':
            if any(x[0] == 's' and x[1] for x in its): return ret(st, FALSE)
        elif any(x[0] not in ('spread', 'compr', 'star') for x in its): return ret(st, FALSE)
        if not its: return ret(st, TRUE)
        if len(its) == 1 and its[0][0] == 'compr' and v[0] != 'cat': return [(s, b(not e)) for s, e in exists(I, st, its[0][1])]
        return ret(st, ('t', 'is_empty', I.deep(st, v)))
    if v[0] == 's': return ret(st, b(not v[1]))
    return ret(st, ('t', 'is_empty', I.deep(st, v)))

@cmodel('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'smallvec::SmallVec::len', 'core::slice::len', 'std::collections::hash::map::HashMap::len')
def mc_len(I, st, a, c):
    v = valof(I, st, a[0])
    if v[0] in SEQ + ('arr',):
        if not any(x[0] in ('plus', 'star', 'spread', 'spreadne', 'compr') for x in v[1]): return ret(st, ('i', len(v[1])))
        if len(v[1]) == 1 and v[1][0][0] == 'compr': return ret(st, card(v[1][0][1]))
    return ret(st, ('t', 'len', I.deep(st, v)))

@cmodel('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def mc_first(I, st, a, c):
    v = valof(I, st, a[0])
    if v[0] in ('vec', 'arr') and any(x[0] == 'compr' for x in v[1]):
        cls = []
        it = to_iter_c(I, st, ('rv', v))
        C, end = comprehend(I, st, it, site='first')
        return ret(end, optof(I, C, c.p.endswith('last')))
    return BASE['core::slice::<impl [T]>::first'](I, st, a, c)

@cmodel('core::slice::<impl [T]>::contains')
def mc_contains(I, st, a, c):
    v = valof(I, st, a[0])
    if v[0] in ('vec', 'arr') and any(x[0] in ('compr', 'spread') for x in v[1]):
        x = I.deep(st, a[1])
        def fn(s):
            out = []
            for s1, y in gen(I, s, ('it', v[1])):
                for s2, t in fork_bool(I, s1, I.simplify_bool(s1, ceq(I, I.deep(s1, y), x))): out.append((s2, UNIT if t else MISS))
            return out
        res, end, snap = fixpass(I, st, fn, ('contains', ''))
        C = mkC([clause_of(I, snap, s, v) for s, v in res if v is not MISS])
        return [(s, b(e)) for s, e in exists(I, end, C)]
    return BASE['core::slice::<impl [T]>::contains'](I, st, a, c)

@cmodel('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'smallvec::SmallVec::iter', 'alloc::vec::Vec::iter', 'core::option::Option::iter',
        'std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::into_iter', 'core::slice::<impl [T]>::iter_mut')
def mc_intoiter(I, st, a, c):
    w = valof(I, st, a[0])
    if w[0] in ('it', 'itx', 'itm'): return ret(st, a[0] if a[0][0] == 'ref' else w)
    if w[0] == 't' and (c.rp and 'Option' in c.rp or c.p.startswith('core::option') or is_opt_term(w)):
        return [(s, ('it', () if p is None else (('rv', p) if c.p.endswith('iter') and not c.p.endswith('into_iter') else p,))) for s, p in fork_opt(I, st, w)]
    return ret(st, to_iter_c(I, st, a[0]))

@cmodel('indexmap::map::IndexMap::keys', 'indexmap::map::IndexMap::into_keys', 'std::collections::hash::map::HashMap::keys', 'std::collections::hash::map::HashMap::into_keys')
def mc_keys(I, st, a, c):
    w = valof(I, st, a[0])
    return ret(st, ('itx', 'map', ('itm', w[1], False) if w[0] == 'map' else to_iter_c(I, st, a[0]), ('t', 'proj0')))

@cmodel('std::collections::hash::map::HashMap::into_values', 'std::collections::hash::map::HashMap::values', 'indexmap::map::IndexMap::values', 'indexmap::map::IndexMap::into_values')
def mc_values(I, st, a, c):
    w = valof(I, st, a[0])
    return ret(st, ('itx', 'map', ('itm', w[1], False) if w[0] == 'map' else to_iter_c(I, st, a[0]), ('t', 'proj1')))

@cmodel('std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity', 'std::collections::hash::map::HashMap::with_capacity_and_hasher', 'std::collections::hash::map::HashMap::with_hasher')
def mc_mapnew(I, st, a, c): return ret(st, ('map', ()))

@cmodel('core::default::Default::default')
def mc_default(I, st, a, c):
    if c.rp and ('HashMap' in c.rp or 'IndexMap' in c.rp): return ret(st, ('map', ()))
    return BASE['core::default::Default::default'](I, st, a, c)

@cmodel('std::collections::hash::map::HashMap::entry')
def mc_entry(I, st, a, c): return ret(st, ('t', 'slot', a[0], I.deep(st, a[1])))
@cmodel('std::collections::hash::map::Entry::or_insert_with', 'std::collections::hash::map::Entry::or_default', 'std::collections::hash::map::Entry::or_insert')
def mc_orins(I, st, a, c): return ret(st, a[0])
@cmodel('std::collections::hash::map::HashMap::insert', 'indexmap::map::IndexMap::insert')
def mc_mapinsert(I, st, a, c):
    st = st.copy(); v = I.deref(st, a[0])
    if v[0] == 'map': write_ref(I, st, a[0], ('map', v[1] + (('tup', (I.deep_rv(st, a[1]), I.deep_rv(st, a[2]))),)))
    return ret(st, ('t', 'oldvalue'))

# strings
@cmodel('alloc::string::String::new', 'alloc::string::String::with_capacity')
def mc_strnew(I, st, a, c): return ret(st, ('s', ''))
@cmodel('alloc::string::String::push_str', 'alloc::string::String::push')
def mc_pushstr(I, st, a, c):
    st = st.copy(); v = I.deref(st, a[0]); x = I.deep(st, a[1])
    if x[0] == 'ch': x = ('s', chr(x[1]))
    p = v[1] if v[0] == 'cat' else ((v,) if v != ('s', '') else ())
    q = x[1] if x[0] == 'cat' else ((x,) if x != ('s', '') else ())
    if not write_ref(I, st, a[0], ('cat', p + q)): raise Incomplete('push_str to unknown string')
    return ret(st, UNIT)
@cmodel('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def mc_addassign(I, st, a, c): return mc_pushstr(I, st, a, c)
@cmodel('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def mc_add(I, st, a, c):
    v = I.deep(st, a[0]); x = I.deep(st, a[1])
    parts = tuple(y for z in (v, x) for y in (z[1] if z[0] == 'cat' else (z,) if z != ('s', '') else ()))
    return ret(st, ('cat', parts))
@cmodel('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Formatter::write_char', 'core::fmt::Write::write_fmt', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char')
def mc_write(I, st, a, c):
    """writing into a string cannot fail"""
    v = I.deref(st, a[0])
    if v[0] not in ('s', 'cat', 'acc') and not (v[0] == 't' and v[1] in ('acc', 'bv')): return NotImplemented
    return [(s, ('adt', RES, 0, (UNIT,))) for s, r in mc_pushstr(I, st, a, c)]
@cmodel('alloc::string::String::insert_str', 'alloc::string::String::insert')
def mc_insertstr(I, st, a, c):
    if I.deep(st, a[1]) != ('i', 0): return NotImplemented
    st = st.copy(); v = I.deref(st, a[0]); x = I.deep(st, a[2])
    if x[0] == 'ch': x = ('s', chr(x[1]))
    p = v[1] if v[0] == 'cat' else ((v,) if v != ('s', '') else ())
    q = x[1] if x[0] == 'cat' else ((x,) if x != ('s', '') else ())
    if not write_ref(I, st, a[0], ('cat', q + p)): raise Incomplete('insertion into unknown string')
    return ret(st, UNIT)
@cmodel('alloc::string::ToString::to_string')
def mc_tostring(I, st, a, c):
    v = I.deep(st, a[0])
    if v[0] in ('s', 'cat'): return ret(st, v)
    if v[0] == 'ch': return ret(st, ('s', chr(v[1])))
    return ret(st, ('t', 'str', v))
@cmodel('alloc::slice::<impl [T]>::sort_by_key', 'alloc::slice::<impl [T]>::sort', 'alloc::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort_unstable_by_key')
def mc_sort(I, st, a, c): return ret(st, UNIT)

# equality
def ceq(I, x, y):
    if x[0] == 'rv': x = x[1]
    if y[0] == 'rv': y = y[1]
    if x == y and x[0] != 'u': return TRUE
    if is_const(x) and is_const(y): return b(x == y)
    for p, q in ((x, y), (y, x)):
        if p[0] == 'adt' and q[0] == 't':
            a = I.F.adts.get(p[1])
            if a and a['enum']:
                d = ('t', 'discr', q)
                I.tyof.setdefault(d, p[1])
                r = ('t', 'bin', 'Eq', ('i', a['v'][p[2]]['d']), d)
                for i, f in enumerate(p[3]):
                    r = conj(r, ceq(I, f, ('t', 'fld', ('t', 'as', q, p[2]), i)))
                return r
            if a and not a['enum'] and p[3]:
                r = TRUE
                for i, f in enumerate(p[3]): r = conj(r, ceq(I, f, ('t', 'fld', q, i)))
                return r
    if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1]:
        if x[2] != y[2]: return FALSE
        r = TRUE
        for p, q in zip(x[3], y[3]): r = conj(r, ceq(I, p, q))
        return r
    if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
        r = TRUE
        for p, q in zip(x[1], y[1]): r = conj(r, ceq(I, p, q))
        return r
    if rkey(x) > rkey(y): x, y = y, x
    return ('t', 'bin', 'Eq', x, y)
def conj(a, b_):
    if a == FALSE or b_ == FALSE: return FALSE
    if a == TRUE: return b_
    if b_ == TRUE: return a
    return ('t', 'bin', 'BitAnd', a, b_)

@cmodel('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def mc_eq(I, st, a, c):
    x = I.deep(st, a[0]); y = I.deep(st, a[1])
    neg = c.p.endswith('::ne')
    bd = I.F.bodies.get(c.sym) if c.sym else None
    if bd is None and c.rp: 
        l = I.F.by_path.get(c.c.get('rp') or '', [])
        bd = l[0] if len(l) == 1 else None
    if not neg and bd is not None and bd.crate.startswith('wat_') and not bd.exp and not (is_const(x) and is_const(y)): return I.run(bd, a, st)
    v = custom_eq(I, st, x, y, c)
    if v is None: v = ceq(I, x, y)
    out = []
    v = I.simplify_bool(st, v)
    return ret(st, I.nott(v) if neg else v)

def custom_eq(I, st, x, y, c):
    """Option<&T> == Option<&T> for a T with a hand-written equality"""
    ta = c.c.get('ta', [])
    if not ta: return None
    t = I.F.ty(c.tys, ta[0]).lstrip('&')
    if not t.startswith(OPT + '<'): 
        eq = user_eq(I, t)
        return None if eq is None else eq_via(I, st, eq, x, y)
    inner = t[len(OPT) + 1:-1].lstrip('&')
    eq = user_eq(I, inner)
    if eq is None: return None
    def sp(v):
        if v[0] == 'adt': return (TRUE if v[2] == 1 else FALSE, v[3][0] if v[2] == 1 else None)
        d = ('t', 'discr', v); I.tyof.setdefault(d, OPT)
        return (('t', 'bin', 'Eq', ('i', 1), d), ('t', 'fld', ('t', 'as', v, 1), 0))
    (dx, px), (dy, py) = sp(x), sp(y)
    both = conj(dx, dy)
    neither = conj(I.nott(dx), I.nott(dy))
    r = both
    if both != FALSE and px is not None and py is not None: r = conj(both, eq_via(I, st, eq, px, py))
    if neither == FALSE: return r
    if r == FALSE: return neither
    return ('t', 'bin', 'BitOr', r, neither)
def user_eq(I, t):
    t = norm(t)
    c = I.__dict__.setdefault('_usereq', {})
    if t not in c:
        l = [b_ for b_ in I.F.bodies.values() if b_.trait == 'core::cmp::PartialEq' and b_.method == 'eq' and not b_.exp and b_.selfty and norm(b_.selfty) == t and b_.crate.startswith('wat_')]
        c[t] = l[0] if l else None
    return c[t]
def eq_via(I, st, bd, x, y):
    """a boolean term for a user-written equality (its paths joined)"""
    x = x[1] if x[0] == 'rv' else x; y = y[1] if y[0] == 'rv' else y
    r = FALSE
    for s, v in I.run(bd, [('rv', x), ('rv', y)], st):
        g = TRUE
        for t, val in diff_asm(st, s):
            if val[0] == 'b': g = conj(g, t if val[1] else I.nott(t))
            elif val[0] == 'i': g = conj(g, ('t', 'bin', 'Eq', ('i', val[1]), t))
            else:
                for k in val[1]: g = conj(g, I.nott(('t', 'bin', 'Eq', ('i', k), t)))
        g = conj(g, v)
        if g == FALSE: continue
        r = g if r == FALSE else ('t', 'bin', 'BitOr', r, g)
        if r == TRUE: break
    return r

# rowan: short names
ROW = {}
for _p, _n in {
    'SyntaxNode::kind': 'kind', 'SyntaxToken::kind': 'kind', 'SyntaxNode::parent': 'parent', 'SyntaxToken::parent': 'parent', 'SyntaxNode::children': 'children', 'SyntaxNode::children_with_tokens': 'elements',
    'SyntaxNode::ancestors': 'ancestors', 'SyntaxNode::descendants': 'descendants', 'SyntaxNode::descendants_with_tokens': 'descendants_with_tokens', 'SyntaxNode::text_range': 'range', 'SyntaxToken::text_range': 'range',
    'SyntaxToken::text': 'text', 'SyntaxNode::text': 'text', 'SyntaxNode::green': 'green', 'SyntaxNode::new_root': 'newroot', 'SyntaxToken::parent_ancestors': 'parent_ancestors',
    '<impl rowan::utility_types::NodeOrToken<rowan::api::SyntaxNode<L>, rowan::api::SyntaxToken<L>>>::kind': 'kind',
    '<impl rowan::utility_types::NodeOrToken<rowan::api::SyntaxNode<L>, rowan::api::SyntaxToken<L>>>::text_range': 'range',
    }.items(): ROW['rowan::api::' + _p] = _n
ROW.update({'rowan::ast::SyntaxNodePtr::new': 'ptr', 'rowan::ast::SyntaxNodePtr::text_range': 'range', 'rowan::ast::SyntaxNodePtr::kind': 'kind', 'rowan::ast::support::token': 'token',
            'rowan::utility_types::NodeOrToken::into_token': 'into_token', 'rowan::utility_types::NodeOrToken::into_node': 'into_node', 'rowan::utility_types::NodeOrToken::as_token': 'into_token', 'rowan::utility_types::NodeOrToken::as_node': 'into_node'})
OPTOPS = {'parent', 'token', 'into_token', 'into_node', 'child'}
def _row(n):
    def f(I, st, a, c):
        t = ('t', n) + tuple(I.deep(st, x) for x in a)
        if n in OPTOPS: I.tyof[('t', 'discr', t)] = OPT
        if n == 'kind': I.tyof[('t', 'discr', t)] = 'wat_syntax::kind::SyntaxKind'
        return ret(st, t)
    return f
for _p, _n in ROW.items(): CMODELS[_p] = _row(_n)
@cmodel('rowan::ast::SyntaxNodePtr::to_node')
def mc_tonode(I, st, a, c):
    p = I.deep(st, a[0])
    if p[0] == 't' and p[1] == 'ptr': return ret(st, p[2])
    return ret(st, ('t', 'node', p))
def _cast_ty(I, c): return I.F.ty(c.tys, c.c['ta'][-1]) if c.c.get('ta') else ''
@cmodel('rowan::ast::support::child')
def mc_child(I, st, a, c):
    t = ('t', 'child', I.deep(st, a[0]), norm(_cast_ty(I, c))); I.tyof[('t', 'discr', t)] = OPT
    return ret(st, t)
@cmodel('rowan::ast::support::children')
def mc_children(I, st, a, c): return ret(st, ('t', 'castchildren', I.deep(st, a[0]), norm(_cast_ty(I, c))))
@cmodel('rowan::ast::AstNode::syntax')
def mc_syntax(I, st, a, c): return ret(st, ('rv', ('t', 'syntax', I.deep(st, a[0]))) if I.deep(st, a[0])[0] == 't' else ('rv', I.deep(st, a[0])[3][0]))
@cmodel('rowan::ast::AstNode::cast')
def mc_cast(I, st, a, c):
    ty = norm((c.c.get('rp') or '').split(' as ')[0].lstrip('<'))
    t = ('t', 'cast', ty, I.deep(st, a[0])); I.tyof[('t', 'discr', t)] = OPT
    return ret(st, t)

# salsa queries
QUERIES = {'wat_service::files::FilesCtx::': ('uri', 'source', 'line_index', 'parser_result', 'root', 'lookup_uri'), 'wat_service::idx::IdentsCtx::': ('ident', 'lookup_ident'),
           'wat_service::binder::SymbolTablesCtx::': ('symbol_table',),
           'wat_service::types_analyzer::TypesAnalyzerCtx::': ('extract_type', 'extract_global_type', 'extract_sig', 'get_func_sig', 'render_func_header')}
def _q(n):
    def f(I, st, a, c): return ret(st, ('t', 'q', n) + tuple(I.deep(st, x) for x in a[1:]))
    return f
for _p, _l in QUERIES.items():
    for _n in _l: CMODELS[_p + _n] = _q(_n)

# positions
@cmodel('lsp_types::Position::new')
def mc_posnew(I, st, a, c):
    f = I.F.adts['lsp_types::Position']['v'][0]['f']
    v = {'line': I.deep(st, a[0]), 'character': I.deep(st, a[1])}
    return ret(st, ('adt', 'lsp_types::Position', 0, tuple(v[x] for x in f)))
@cmodel('lsp_types::Range::new')
def mc_rangenew(I, st, a, c):
    f = I.F.adts['lsp_types::Range']['v'][0]['f']
    v = {'start': I.deep(st, a[0]), 'end': I.deep(st, a[1])}
    return ret(st, ('adt', 'lsp_types::Range', 0, tuple(v[x] for x in f)))
# protocol values built by a constructor function: the fields in the order of its arguments, the others empty
def _lspnew(ty, names):
    def f(I, st, a, c):
        d = I.F.adts['lsp_types::' + ty]['v'][0]
        v = {n: I.deep(st, x) for n, x in zip(names, a)}
        return ret(st, ('adt', 'lsp_types::' + ty, 0, tuple(v[n] if n in v else default_ty(I, t) for n, t in zip(d['f'], d['ft']))))
    return f
for _t, _n in {'Location': ['uri', 'range'], 'TextEdit': ['range', 'new_text'], 'TextDocumentIdentifier': ['uri'], 'PublishDiagnosticsParams': ['uri', 'diagnostics', 'version'],
               'Diagnostic': ['range', 'severity', 'code', 'source', 'message', 'related_information', 'tags'], 'TextDocumentPositionParams': ['text_document', 'position']}.items():
    CMODELS['lsp_types::' + _t + '::new'] = _lspnew(_t, _n)
CMODELS['lsp_types::Diagnostic::new_simple'] = _lspnew('Diagnostic', ['range', 'message'])
def _wsedit(I, st, a, c):
    d = I.F.adts['lsp_types::WorkspaceEdit']['v'][0]
    return ret(st, ('adt', 'lsp_types::WorkspaceEdit', 0, tuple(some(I.deep(st, a[0])) if n == 'changes' else NONE for n in d['f'])))
CMODELS['lsp_types::WorkspaceEdit::new'] = _wsedit
for _p, _n in {'text_size::range::TextRange::start': 'start', 'text_size::range::TextRange::end': 'end', 'text_size::range::TextRange::len': 'rlen', 'line_index::LineIndex::line_col': 'line_col'}.items(): CMODELS[_p] = _row(_n)

@cmodel('text_size::range::TextRange::new')
def mc_trange(I, st, a, c):
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    if x[0] == y[0] == 't' and x[1] == 'start' and y[1] == 'end' and x[2:] == y[2:] and len(x) == 3: return ret(st, x[2])
    return ret(st, ('adt', 'text_size::range::TextRange', 0, (x, y)))
def _rend(i, old):
    def f(I, st, a, c):
        v = I.deep(st, a[0])
        while v[0] == 'rv': v = v[1]
        if v[0] == 'adt' and v[1] == 'text_size::range::TextRange': return ret(st, v[3][i])
        return old(I, st, a, c)
    return f
for _i, _n in enumerate(('start', 'end')): CMODELS['text_size::range::TextRange::' + _n] = _rend(_i, CMODELS['text_size::range::TextRange::' + _n])
@cmodel('lsp_types::semantic_tokens::SemanticTokenType::as_str')
def mc_tokstr(I, st, a, c):
    v = I.deep(st, a[0])
    while v[0] == 'rv': v = v[1]
    return ret(st, ('t', 'str', I.proj(st, v, 0)))

# formatted text: the template of core::fmt::Arguments is decoded into literal pieces and arguments
def fmtarg(v):
    if v[0] in ('s', 'cat'): return v
    if v[0] == 'rv': return fmtarg(v[1])
    return ('t', 'str', v)
@cmodel('core::fmt::rt::Argument::new_display')
def mc_disp(I, st, a, c): return ret(st, fmtarg(I.deep(st, a[0])))
@cmodel('core::fmt::rt::Argument::new_debug')
def mc_dbg(I, st, a, c): return ret(st, ('t', 'dbg', I.deep(st, a[0])))
@cmodel('core::fmt::Arguments::new')
def mc_fmtnew(I, st, a, c):
    t = I.deep(st, a[0]); args = I.deep(st, a[1])
    if t[0] != 'arr' or args[0] != 'arr' or not all(x[0] == 'i' for x in t[1]): return NotImplemented
    by = bytes(x[1] for x in t[1]); i = 0; out = []; k = 0
    while i < len(by):
        n = by[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(('s', by[i:i + n].decode())); i += n
        elif n == 0x80:
            l = by[i] | by[i + 1] << 8; i += 2; out.append(('s', by[i:i + l].decode())); i += l
        elif n >= 0xC0:
            fl = None
            if n & 1: fl = by[i:i + 4]; i += 4
            if n & 2: fl = (fl, by[i:i + 2]); i += 2
            if n & 4: fl = (fl, by[i:i + 2]); i += 2
            if n & 8: k = by[i] | by[i + 1] << 8; i += 2
            x = args[1][k]; k += 1
            if fl is not None: x = ('t', 'fmt', str(fl), x)
            out += list(x[1]) if x[0] == 'cat' else [x]
        else: return NotImplemented
    return ret(st, mkcat(out))
def mkcat(items):
    out = []
    for x in items:
        if x[0] == 's' and not x[1]: continue
        if x[0] == 's' and out and out[-1][0] == 's': out[-1] = ('s', out[-1][1] + x[1])
        else: out.append(x)
    if not out: return ('s', '')
    if len(out) == 1 and out[0][0] == 's': return out[0]
    return ('cat', tuple(out))
@cmodel('core::fmt::Arguments::from_str')
def mc_fmtstr(I, st, a, c): return ret(st, I.deep(st, a[0]))
@cmodel('alloc::fmt::format')
def mc_format(I, st, a, c):
    v = I.deep(st, a[0])
    return ret(st, v) if v[0] in ('s', 'cat') else NotImplemented

def _sub(how):
    """unsigned arithmetic with a defined result below zero"""
    def m(I, st, a, c):
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        out = []
        for s, below in fork_bool(I, st, ('t', 'bin', 'Lt', x, y)):
            d = ('t', 'bin', 'Sub', x, y)
            if x[0] == 'i' and y[0] == 'i': d = ('i', x[1] - y[1])
            if how == 'checked': out.append((s, NONE if below else some(d)))
            elif how == 'saturating': out.append((s, ('i', 0) if below else d))
            else: out.append((s, ('t', 'bin', 'Sub', y, x) if below else d))
        return out
    return m
for _n in ('usize', 'u32', 'u64', 'u16'):
    for _h, _m in (('checked_sub', 'checked'), ('saturating_sub', 'saturating'), ('abs_diff', 'diff')): CMODELS['core::num::<impl %s>::%s' % (_n, _h)] = _sub(_m)

def mc_tscmp(I, st, a, c, partial=False):
    """order of two text positions"""
    x, y = I.deep(st, a[0]), I.deep(st, a[1])
    while x[0] == 'rv': x = x[1]
    while y[0] == 'rv': y = y[1]
    out = []
    for s, lt in fork_bool(I, st, ('t', 'bin', 'Lt', x, y)):
        if lt: out.append((s, 0)); continue
        for s2, le in fork_bool(I, s, ('t', 'bin', 'Le', x, y)): out.append((s2, 1 if le else 2))
    r = []
    for s, k in out:
        v = ('adt', 'core::cmp::Ordering', k, ())
        r.append((s, some(v) if partial else v))
    return r
CMODELS['<text_size::size::TextSize as core::cmp::Ord>::cmp'] = mc_tscmp
CMODELS['<text_size::size::TextSize as core::cmp::PartialOrd>::partial_cmp'] = lambda I, st, a, c: mc_tscmp(I, st, a, c, True)
