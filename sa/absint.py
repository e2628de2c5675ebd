"""Abstract interpreter over MIR.

Values are hashable tuples:
  ('i',n) ('b',bool) ('ch',n) ('s',str) ('tup',fields) ('arr',fields) ('adt',path,variant,fields)
  ('vec',items)   a growable sequence; items may contain ('plus',seq) ('star',seq) ('spread',x)
  ('it',items)    an iterator that will still yield items (same item language)
  ('itx',op,...)  an iterator adaptor over another iterator value
  ('fn',callee)   a function item, callee = FnRef
  ('clo',key,path,captures)
  ('ref',cell,proj) ('rv',value)   references to a place / to a value
  ('t',op,...)    an uninterpreted term (Top with identity)
  ('u',)          moved-out / uninitialised
A State maps cells to values and keeps the assumptions made about uninterpreted terms at branches.
The exploration keeps, per program point, the set of abstract states already seen (dead locals erased), so
loops run to a fixpoint: sequences grown in a loop collapse to ('plus',..) groups, opaque iterators have one
summary element.
"""
import time
import re, sys
from facts import succs

sys.setrecursionlimit(20000)

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
UNIT = ('tup', ())
U = ('u',)
TRUE, FALSE = ('b', True), ('b', False)
NONE = ('adt', OPT, 0, ())

def some(v): return ('adt', OPT, 1, (v,))
def ok(v): return ('adt', RES, 0, (v,))
def err(v): return ('adt', RES, 1, (v,))
def b(x): return TRUE if x else FALSE

class Incomplete(Exception):
    pass

_norm_cache = {}
def norm(p):
    """strip generic arguments from a path"""
    r = _norm_cache.get(p)
    if r is None:
        out = []
        d = 0
        i = 0
        s = p
        # keep leading '<' impl paths intact except for inner generics
        while i < len(s):
            if s.startswith('::<', i) and not s.startswith('::<impl', i):
                j = i + 3; d = 1
                while d and j < len(s):
                    if s[j] == '<': d += 1
                    elif s[j] == '>' and s[j-1] != '-': d -= 1
                    j += 1
                i = j
            else:
                out.append(s[i]); i += 1
        r = ''.join(out)
        _norm_cache[p] = r
    return r

class FnRef:
    """resolved callee, interned per (path, symbol, type args)"""
    _pool = {}
    def __new__(cls, c, tys):
        k = (c['p'], c.get('s'), c.get('rp'), tuple(c.get('ca', ())), tuple(str(tys[a]) for a in c.get('ta', ())))
        o = cls._pool.get(k)
        if o is None:
            o = object.__new__(cls)
            o.p = norm(c['p']); o.c = c; o.sym = c.get('s'); o.tys = tys
            o.rp = norm(c.get('rp') or ''); o.ctor = c.get('ctor'); o.cr = c['cr']; o.k = k
            cls._pool[k] = o
        return o
    def __repr__(self): return 'fn ' + self.p

class State:
    __slots__ = ('mem', 'asm', 'hc', 'trace')
    def __init__(self):
        self.mem = {}; self.asm = {}; self.hc = 0; self.trace = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.asm = dict(self.asm); s.hc = self.hc; s.trace = self.trace
        return s
    def freeze(self):
        return (frozenset(self.mem.items()), frozenset(self.asm.items()))

def is_const(v):
    k = v[0]
    if k in ('i', 'b', 'ch', 's', 'fn'): return True
    if k in ('tup', 'arr'): return all(is_const(x) for x in v[1])
    if k == 'adt': return all(is_const(x) for x in v[3])
    if k == 'rv': return is_const(v[1])
    if k == 'vec': return all(is_const(x) for x in v[1])
    return False

def seq_push(items, x):
    items = items + (x,)
    return collapse(items)

def _coll(x): return x

# Only items for which this predicate holds take part in collapsing of repeated groups.
def collapse(items):
    changed = True
    while changed:
        changed = False
        n = len(items)
        for w in range(1, min(6, n // 1) + 1):
            if n >= w + 1 and items[n - w - 1][0] == 'plus' and items[n - w - 1][1] == items[n - w:]:
                items = items[:n - w]; changed = True; break
            if n >= w + 1 and items[n - w - 1][0] == 'star' and items[n - w - 1][1] == items[n - w:]:
                items = items[:n - w - 1] + (('plus', items[n - w:]),); changed = True; break
            if n >= 2 * w and items[n - w:] == items[n - 2 * w:n - w] and all(nonconst_item(x) for x in items[n - w:]):
                items = items[:n - 2 * w] + (('plus', items[n - w:]),); changed = True; break
        if not changed and n >= 2 and items[-1][0] in ('plus', 'star') and items[-2][0] in ('plus', 'star') and items[-1][1] == items[-2][1]:
            k = 'plus' if 'plus' in (items[-1][0], items[-2][0]) else 'star'
            items = items[:-2] + ((k, items[-1][1]),); changed = True
    return items

def nonconst_item(x):
    return not is_const(x)

class Interp:
    on_join = None
    deadline = None
    def __init__(self, facts, models=None, max_steps=400000, max_depth=60):
        self.F = facts
        self.models = dict(BASE)
        if models: self.models.update(models)
        self.inline_ok = lambda body: True
        self.max_steps = max_steps
        self.steps = 0
        self.max_depth = max_depth
        self.stack = []
        self.analysed = set()
        self.calls_seen = 0
        self.curmut = (); self.mutcache = {}
        self.on_call = None
        self.purge_on_next = True
        self._live = {}
        self.unknown_models = {}
        self.sitestack = []
        self.tyof = {}

    # ------------------------------------------------------------ places
    def read(self, st, cell, proj):
        v = st.mem.get(cell, U)
        for e in proj: v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = v[0]
        if e == '*':
            if k == 'ref': return self.read(st, v[1], v[2])
            if k == 'rv': return v[1]
            if k == 't': return v if v[1] == 'addr' and False else ('t', 'deref', v) if v[1] not in TRANSPARENT else v
            return v
        if isinstance(e, int):
            if k == 'tup' or k == 'arr': return v[1][e] if e < len(v[1]) else U
            if k == 'adt': return v[3][e] if e < len(v[3]) else U
            if k == 'clo': return v[3][e] if e < len(v[3]) else U
            if k == 't':
                if v[1] == 'as' and v[2][0] == 't' and v[2][1] == 'optG' and v[3] == 1: return ('vec', (('spread', ('t', 'G*', v[2][2])),))
                return ('t', 'fld', v, e)
            if k in ('rv', 'ref'): return self.proj(st, self.proj(st, v, '*'), e)
            return ('t', 'fld', v, e)
        if e[0] == 'd':
            if k == 'adt': return v
            if k == 't': return ('t', 'as', v, e[1])
            return v
        if e[0] == 'ci':
            off, fe = e[1], e[3]
            if k in ('arr', 'vec', 'tup') and not any(x[0] in ('plus', 'star', 'spread') for x in v[1]):
                i = len(v[1]) - off if fe else off
                if 0 <= i < len(v[1]): return v[1][i]
            return ('t', 'idx', v, ('i', -off if fe else off))
        if e[0] == 'i':
            iv = e[1]
            if k in ('arr', 'vec', 'tup') and iv[0] == 'i' and not any(x[0] in ('plus', 'star', 'spread') for x in v[1]):
                if 0 <= iv[1] < len(v[1]): return v[1][iv[1]]
            return ('t', 'idx', v, iv)
        if e[0] == 'ss':
            fr, to, fe = e[1], e[2], e[3]
            if k in ('arr', 'vec', 'tup') and not any(x[0] in ('plus', 'star', 'spread') for x in v[1]):
                return (k, v[1][fr:len(v[1]) - to if fe else to])
            return ('t', 'sub', v, ('i', fr), ('i', to))
        raise Incomplete('proj %r' % (e,))

    def write(self, st, cell, proj, val):
        if not proj:
            st.mem[cell] = val
            return
        st.mem[cell] = self._upd(st, st.mem.get(cell, U), proj, val)

    def _upd(self, st, v, proj, val):
        if not proj: return val
        e, rest = proj[0], proj[1:]
        k = v[0]
        if e == '*':
            if k == 'ref':
                self.write(st, v[1], v[2] + rest, val)
                return v
            if k == 'rv':
                return ('rv', self._upd(st, v[1], rest, val))
            if not rest: return val
            return self._upd(st, v, rest, val)
        if isinstance(e, int):
            if k in ('tup', 'arr'):
                f = list(v[1])
                while len(f) <= e: f.append(U)
                f[e] = self._upd(st, f[e], rest, val)
                return (k, tuple(f))
            if k == 'adt':
                f = list(v[3])
                while len(f) <= e: f.append(U)
                f[e] = self._upd(st, f[e], rest, val)
                return ('adt', v[1], v[2], tuple(f))
            if k == 'clo':
                f = list(v[3]); f[e] = self._upd(st, f[e], rest, val)
                return ('clo', v[1], v[2], tuple(f))
            if k == 'u':
                f = [U] * (e + 1); f[e] = self._upd(st, U, rest, val)
                return ('tup', tuple(f))
            return ('t', 'with', v, e, self._upd(st, ('t', 'fld', v, e), rest, val))
        if e[0] == 'd':
            return self._upd(st, v, rest, val)
        if e[0] in ('i', 'ci'):
            iv = e[1] if e[0] == 'i' else ('i', e[1])
            if k in ('arr', 'vec', 'tup') and iv[0] == 'i' and 0 <= iv[1] < len(v[1]):
                f = list(v[1]); f[iv[1]] = self._upd(st, f[iv[1]], rest, val)
                return (k, tuple(f))
            return ('t', 'upd', v, iv)
        raise Incomplete('upd %r' % (e,))

    def place(self, st, fr, p):
        """resolve index locals; returns (cell, proj) with derefs followed eagerly where possible"""
        cell = (fr, p[0])
        proj = ()
        for e in p[1:]:
            if isinstance(e, list):
                if e[0] == 'i':
                    e = ('i', st.mem.get((fr, e[1]), U))
                else:
                    e = tuple(e)
            if e == '*':
                v = self.read(st, cell, proj)
                if v[0] == 'ref':
                    cell, proj = v[1], v[2]
                    continue
            proj = proj + (e,)
        return cell, proj

    def deref(self, st, v):
        n = 0
        while v[0] in ('ref', 'rv') and n < 20:
            v = self.read(st, v[1], v[2]) if v[0] == 'ref' else v[1]
            n += 1
        return v

    def deep(self, st, v, d=0):
        """replace references by what they refer to"""
        if d > 40: return ('t', 'deep')
        k = v[0]
        if k == 'ref': return self.deep(st, self.read(st, v[1], v[2]), d + 1)
        if k == 'rv': return self.deep(st, v[1], d + 1)
        if k in ('tup', 'arr'): return (k, tuple(self.deep(st, x, d + 1) for x in v[1]))
        if k == 'adt': return (k, v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        if k in ('vec', 'it'): return (k, tuple(self.deep(st, x, d + 1) if x and isinstance(x[0], str) and x[0] not in ('plus', 'star', 'spread') else x for x in v[1]))
        if k == 'clo': return ('clo', v[1], v[2], tuple(self.deep(st, x, d + 1) for x in v[3]))
        return v

    # ------------------------------------------------------------ operands
    def operand(self, st, body, fr, o):
        if o[0] == 'c': return self.const(st, body, o[1])
        cell, proj = self.place(st, fr, o[1])
        v = self.read(st, cell, proj)
        if o[0] == 'm' and not proj and v[0] not in ('i', 'b', 'ch', 's', 'ref', 'rv', 'fn'):
            st.mem[cell] = U
        return v

    def const(self, st, body, c):
        k = c['k']
        if k == 'int' : return ('i', c['v'])
        if k == 'bool': return b(c['v'])
        if k == 'char': return ('ch', c['v'])
        if k == 'str': return ('rv', ('s', c['v']))
        if k == 'fn': return ('fn', FnRef(body.tys[c['t']]['c'], body.tys))
        if k == 'prom':
            pb = body.prom[c['i']]
            return self.const_body(st, pb)
        if k == 'const':
            cb = self.F.bodies.get('const:' + c['p'])
            if cb: return self.const_body(st, cb)
            return ('t', 'const', c['p'])
        if k == 'static':
            return ('rv', ('t', 'static', norm(c['p'])))
        if k == 'zst':
            t = body.tys[c['t']]
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'adt': return ('adt', norm(t['p']), 0, ())
            if t['k'] == 'closure': return ('t', 'zst', t['p'])
            if t['k'] == 'array': return ('arr', ())
            return UNIT
        if k == 'bytes':
            t = body.tys[c['t']]
            arr = ('arr', tuple(('i', x) for x in c['v']))
            return ('rv', arr) if t['k'] in ('ref', 'ptr') else arr
        if k == 'agg':
            fs = tuple(self.const(st, body, x) for x in c['f'])
            t = body.tys[c['t']]
            if t['k'] == 'adt': return ('adt', t['p'], c['vi'] or 0, fs)
            if t['k'] == 'tuple': return ('tup', fs)
            return ('arr', fs)
        if k == 'scalar':
            t = body.tys[c['t']]
            if t['k'] == 'adt':
                a = self.F.adts.get(t['p'])
                if a and a['enum'] and not any(v['f'] for v in a['v']):
                    for i, v in enumerate(a['v']):
                        if v['d'] == c['v']: return ('adt', t['p'], i, ())
                if a and not a['enum']:
                    return ('t', 'scalar', t['p'], c['v'])
            return ('i', c['v'])
        return ('t', 'constval', k, str(body.tys[c['t']])[:200])

    def const_body(self, st, pb):
        cache = self.__dict__.setdefault('_constcache', {})
        if pb.key in cache: return cache[pb.key]
        s2 = State()
        rs = self.run(pb, (), s2)
        if len(rs) != 1: v = ('t', 'const', pb.path)
        else:
            v = self.deep_rv(rs[0][0], rs[0][1])
        cache[pb.key] = v
        return v

    def deep_rv(self, st, v, d=0):
        """like deep, but keeps one reference level as ('rv',..)"""
        k = v[0]
        if d > 40: return v
        if k == 'ref': return ('rv', self.deep_rv(st, self.read(st, v[1], v[2]), d + 1))
        if k == 'rv': return ('rv', self.deep_rv(st, v[1], d + 1))
        if k in ('tup', 'arr', 'vec'): return (k, tuple(self.deep_rv(st, x, d + 1) for x in v[1]))
        if k == 'adt': return (k, v[1], v[2], tuple(self.deep_rv(st, x, d + 1) for x in v[3]))
        if k == 'clo': return (k, v[1], v[2], tuple(self.deep_rv(st, x, d + 1) for x in v[3]))
        return v

    # ------------------------------------------------------------ terms
    def lookup(self, st, t):
        """value assumed for an uninterpreted term, if any"""
        return st.asm.get(t)

    def discr(self, st, v):
        v = self.deref(st, v)
        if v[0] == 'adt':
            a = self.F.adts.get(v[1])
            if a and a['enum']: return ('i', a['v'][v[2]]['d'])
            return ('i', v[2])
        if v[0] == 'b': return ('i', int(v[1]))
        return ('t', 'discr', v)

    def binop(self, op, x, y):
        if op in ('Ne',):
            r = self.binop('Eq', x, y)
            return b(not r[1]) if r[0] == 'b' else ('t', 'not', r)
        if op in ('Gt', 'Ge'):
            return self.binop({'Gt': 'Lt', 'Ge': 'Le'}[op], y, x)
        if x[0] in ('i', 'ch', 'b') and y[0] in ('i', 'ch', 'b'):
            p, q = x[1], y[1]
            if op == 'Eq': return b(p == q)
            if op == 'Lt': return b(p < q)
            if op == 'Le': return b(p <= q)
            if x[0] == 'b':
                if op == 'BitAnd': return b(p and q)
                if op == 'BitOr': return b(p or q)
                if op == 'BitXor': return b(p != q)
            f = {'Add': lambda: p + q, 'Sub': lambda: p - q, 'Mul': lambda: p * q, 'BitAnd': lambda: p & q, 'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q,
                 'Shl': lambda: p << q, 'Shr': lambda: p >> q, 'Div': lambda: p // q if q else None, 'Rem': lambda: p % q if q else None}
            o2 = op.replace('Unchecked', '').replace('WithOverflow', '')
            if o2 in f:
                r = f[o2]()
                if r is not None:
                    if op.endswith('WithOverflow'): return ('tup', (('i', r), FALSE))
                    return ('i', r)
        if x[0] == 'b' or y[0] == 'b':
            c, o = (x, y) if x[0] == 'b' else (y, x)
            if op == 'BitAnd': return o if c[1] else FALSE
            if op == 'BitOr': return TRUE if c[1] else o
            if op == 'Eq': return o if c[1] else self.nott(o)
            if op == 'BitXor': return self.nott(o) if c[1] else o
        if op == 'Eq':
            if x == y and x[0] != 'u': return TRUE
            if repr(x) > repr(y): x, y = y, x
        if op.endswith('WithOverflow'):
            return ('tup', (('t', 'bin', op[:-12], x, y), FALSE))
        return ('t', 'bin', op, x, y)

    def nott(self, x):
        if x[0] == 'b': return b(not x[1])
        if x[0] == 't' and x[1] == 'not': return x[2]
        return ('t', 'not', x)

    def simplify_bool(self, st, t):
        """evaluate a boolean/integer term under the assumptions"""
        if t[0] != 't': return t
        a = st.asm.get(t)
        if a is not None and a[0] != 'not': return a
        if t[1] == 'not':
            r = self.simplify_bool(st, t[2])
            return b(not r[1]) if r[0] == 'b' else ('t', 'not', r)
        if t[1] == 'bin':
            x = self.simplify_bool(st, t[3]); y = self.simplify_bool(st, t[4])
            if x is not t[3] or y is not t[4]: return self.binop(t[2], x, y)
        return t

    # ------------------------------------------------------------ execution
    def live_out(self, body):
        r = self._live.get(body.key)
        if r is not None: return r
        n = len(body.blocks)
        borrowed = set()
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        def rd(o, u, d):
            if o[0] in ('p', 'm'): rp(o[1], u, d)
        def rp(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d: u.add(e[1])
        for i, blk in enumerate(body.blocks):
            u, d = use[i], dfn[i]
            for s in blk['s']:
                if s[0] == '=':
                    r = s[2]; k = r[0]
                    if k in ('use', 'rep'): rd(r[1], u, d)
                    elif k == 'cast': rd(r[2], u, d)
                    elif k == 'un': rd(r[2], u, d)
                    elif k == 'ref':
                        rp(r[1], u, d)
                        if '*' not in r[1][1:]: borrowed.add(r[1][0])
                    elif k == 'bin': rd(r[2], u, d); rd(r[3], u, d)
                    elif k == 'discr': rp(r[1], u, d)
                    elif k == 'agg':
                        for o in r[2]: rd(o, u, d)
                    p = s[1]
                    if len(p) == 1: d.add(p[0])
                    else: rp(p, u, d)
                elif s[0] == 'sd': rp(s[1], u, d)
            t = blk['t']
            if t[0] == 'sw': rd(t[1], u, d)
            elif t[0] == 'call':
                rd(t[1], u, d)
                for o in t[2]: rd(o, u, d)
                if len(t[3]) == 1: d.add(t[3][0])
                else: rp(t[3], u, d)
            elif t[0] == 'assert': rd(t[1], u, d)
            elif t[0] == 'ret':
                if 0 not in d: u.add(0)
        li = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succs(body.blocks[i]['t']): o |= li[s]
                nw = use[i] | (o - dfn[i])
                if nw != li[i]: li[i] = nw; ch = True
        r = (li, borrowed)
        self._live[body.key] = r
        return r

    def run(self, body, args, st):
        """all (state, return value) outcomes of body(args) from st"""
        if len(self.stack) >= self.max_depth: raise Incomplete('call depth in ' + body.path)
        fr = len(self.stack) + 1
        self.stack.append(body)
        self.analysed.add(body.path)
        try:
            st = st.copy()
            for c in [c for c in st.mem if c[0] == fr]: del st.mem[c]
            for i, a in enumerate(args): st.mem[(fr, i + 1)] = a
            li, borrowed = self.live_out(body)
            seen = set()
            results = []
            rseen = set()
            work = [(0, st)]
            while work:
                bi, st = work.pop()
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps: raise Incomplete('step budget in ' + body.path)
                    if self.deadline is not None and self.steps & 63 == 0 and time.time() > self.deadline: raise Incomplete('time budget in ' + body.path)
                    if bi in body.joins:
                        lv = li[bi]
                        for c in [c for c in st.mem if c[0] == fr and c[1] != 'loop' and c[1] not in lv and c[1] not in borrowed]: del st.mem[c]
                        if self.on_join is not None: self.on_join(st, body, fr, bi)
                        k = (bi, st.freeze())
                        if k in seen: break
                        seen.add(k)
                    blk = body.blocks[bi]
                    for s in blk['s']: self.stmt(st, body, fr, s)
                    nxt = self.term(st, body, fr, blk['t'])
                    # nxt: list of (block|'ret'|None, state)
                    cont = None
                    for t, s2 in nxt:
                        if t == 'ret':
                            v = s2.mem.get((fr, 0), UNIT)
                            if v == U: v = UNIT
                            v = self.escape(s2, v, fr)
                            for c in [c for c in s2.mem if c[0] == fr]: del s2.mem[c]
                            kk = (s2.freeze(), v)
                            if kk not in rseen:
                                rseen.add(kk); results.append((s2, v))
                        elif t is None: pass
                        elif cont is None: cont = (t, s2)
                        else: work.append((t, s2))
                    if cont is None: break
                    bi, st = cont
            return results
        finally:
            self.stack.pop()

    def escape(self, st, v, fr):
        """references to the dying frame become value references"""
        k = v[0]
        if k == 'ref':
            if v[1][0] == fr: return ('rv', self.escape(st, self.read(st, v[1], v[2]), fr))
            return v
        if k == 'rv': return ('rv', self.escape(st, v[1], fr))
        if k in ('tup', 'arr', 'vec', 'it'): return (k, tuple(self.escape(st, x, fr) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1]))
        if k == 'adt': return (k, v[1], v[2], tuple(self.escape(st, x, fr) for x in v[3]))
        if k == 'clo': return (k, v[1], v[2], tuple(self.escape(st, x, fr) for x in v[3]))
        if k == 'itx': return tuple(self.escape(st, x, fr) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v)
        return v

    def stmt(self, st, body, fr, s):
        if s[0] == '=':
            v = self.rvalue(st, body, fr, s[2])
            cell, proj = self.place(st, fr, s[1])
            self.write(st, cell, proj, v)
        elif s[0] == 'sd':
            cell, proj = self.place(st, fr, s[1])
            v = self.read(st, cell, proj)
            if v[0] == 'adt': self.write(st, cell, proj, ('adt', v[1], s[2], v[3]))

    def signed8(self, body, *ops):
        for o in ops:
            if o[0] in ('c',): continue
            p = o[1]
            if isinstance(p, (list, tuple)) and len(p) >= 1 and isinstance(p[0], int):
                l = body.locals[p[0]]
                if self.F.ty(body.tys, l[0] if isinstance(l, (list, tuple)) else l) == 'i8': return True
        return False

    def rvalue(self, st, body, fr, r):
        k = r[0]
        if k == 'use': return self.operand(st, body, fr, r[1])
        if k == 'ref':
            cell, proj = self.place(st, fr, r[1])
            if '*' in proj:
                # reference through an opaque pointer
                return ('rv', self.read(st, cell, proj))
            if cell not in st.mem and proj: return ('rv', ('t', 'undef'))
            v = self.read(st, cell, proj) if proj else None
            if proj and not r[2] and v[0] == 't': return ('rv', v)
            return ('ref', cell, proj)
        if k == 'agg':
            ops = tuple(self.operand(st, body, fr, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'tuple': return ('tup', ops)
            if kk[0] == 'array': return ('arr', ops)
            if kk[0] == 'adt': return ('adt', kk[1], kk[2], ops)
            if kk[0] == 'closure': return ('clo', kk[1], kk[2], ops)
            return ('t', 'agg', ops)
        if k == 'discr':
            cell, proj = self.place(st, fr, r[1])
            v = self.read(st, cell, proj)
            d = self.discr(st, v)
            if d[0] == 't' and d[1] == 'discr':
                t = body.tys[r[2]]
                if t['k'] == 'adt': self.tyof[d] = t['p']
            return self.simplify_bool(st, d)
        if k == 'bin':
            x = self.operand(st, body, fr, r[2]); y = self.operand(st, body, fr, r[3])
            x, y = self.simplify_bool(st, x), self.simplify_bool(st, y)
            if r[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp') and x[0] == y[0] == 'i' and max(x[1], y[1]) > 127 and self.signed8(body, r[2], r[3]):
                x, y = [('i', z[1] - 256 if z[1] > 127 else z[1]) for z in (x, y)]
            return self.binop(r[1], x, y)
        if k == 'un':
            x = self.operand(st, body, fr, r[2])
            if r[1] == 'Not':
                if x[0] == 'i': return ('t', 'un', 'Not', x)
                return self.nott(self.simplify_bool(st, x))
            if r[1] == 'Neg' and x[0] == 'i': return ('i', -x[1])
            if r[1] == 'PtrMetadata':
                x = self.deref(st, x)
                if x[0] in ('arr', 'vec') and not any(y[0] in ('plus', 'star', 'spread') for y in x[1]): return ('i', len(x[1]))
                return ('t', 'len', x)
            return ('t', 'un', r[1], x)
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and r[2][0] in ('c', 'm', 'p') and r[2][1][-1] == 0:
                # pointer behind a box: the box itself is modelled as the reference
                return self.operand(st, body, fr, [r[2][0], r[2][1][:-1]])
            x = self.operand(st, body, fr, r[2])
            if x[0] == 'adt' and not x[3] and 'Int' in r[1]: return self.discr(st, x)
            if x[0] == 'ch' and 'Int' in r[1]:
                return ('i', x[1])
            if x[0] == 'i' and body.tys[r[3]].get('s') == 'char': return ('ch', x[1])
            if x[0] == 'b' and 'Int' in r[1]: return ('i', int(x[1]))
            if 'IntToInt' in r[1] and x[0] in ('t', 'i'):
                # a cast that may cut digits off
                to = WIDTH.get(body.tys[r[3]].get('s'), 99)
                fr_ = WIDTH.get(body.tys[body.locals[r[2][1][0]]].get('s'), 0) if r[2][0] in ('c', 'm', 'p') and isinstance(r[2][1], list) and len(r[2][1]) == 1 and isinstance(r[2][1][0], int) else 0
                if to < 32 and to < fr_: return ('i', x[1] % (1 << to)) if x[0] == 'i' else ('t', 'narrow', to, x)
            if 'Transmute' in r[1]:
                t = body.tys[r[3]]
                if x[0] == 'i' and t['k'] == 'adt':
                    a = self.F.adts.get(t['p'])
                    if a and a['enum'] and not any(v['f'] for v in a['v']):
                        for i, v in enumerate(a['v']):
                            if v['d'] == x[1]: return ('adt', t['p'], i, ())
                        return ('t', 'badtransmute', t['p'], x)
                if x[0] == 'adt' and not x[3] and t['k'] == 'o': return self.discr(st, x)
            return x
        if k == 'rep':
            x = self.operand(st, body, fr, r[1])
            if r[2] <= 64: return ('arr', (x,) * r[2])
            return ('t', 'repeat', x, r[2])
        return ('t', 'rv', str(r[1])[:100])

    def term(self, st, body, fr, t):
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'ret': return [('ret', st)]
        if k == 'drop': return [(t[2], st)]
        if k == 'sw': return self.switch(st, body, fr, t)
        if k == 'assert': return [(t[3], st)]
        if k == 'call':
            f = self.operand(st, body, fr, t[1])
            args = [self.operand(st, body, fr, a) for a in t[2]]
            if self.on_call: self.on_call(self, st, body, f, args, t)
            self.sitestack.append(id(t))
            self.curmut = self.mutargs(body, t)
            try: outs = self.call(st, f, args, body)
            finally: self.sitestack.pop()
            res = []
            for s2, v in outs:
                if t[4] is None: continue
                cell, proj = self.place(s2, fr, t[3])
                self.write(s2, cell, proj, v)
                res.append((t[4], s2))
            return res
        return [(None, st)]

    def switch(self, st, body, fr, t):
        v = self.operand(st, body, fr, t[1])
        v = self.simplify_bool(st, v)
        if v[0] in ('i', 'ch', 'b'):
            n = int(v[1])
            for x, tgt in t[2]:
                if x == n: return [(tgt, st)]
            return [(t[3], st)]
        neg = False
        while v[0] == 't' and v[1] == 'not':
            neg = not neg; v = v[2]
        isbool = len(t[2]) == 1 and t[2][0][0] == 0 and not (v[0] == 't' and v[1] == 'discr')
        res = []
        cur = st.asm.get(v)
        excluded = set(cur[1]) if cur is not None and cur[0] == 'not' else set()
        if isbool:
            for val, tgt in ((False, t[2][0][1]), (True, t[3])):
                s2 = st.copy()
                if self.assume(s2, v, val != neg): res.append((tgt, s2))
            return res
        dom = None
        if v[0] == 't' and v[1] == 'discr':
            p = self.tyof.get(v)
            a = self.F.adts.get(p) if p else None
            if a and a['enum']: dom = [x['d'] for x in a['v']]
        vals = []
        for x, tgt in t[2]:
            vals.append(x)
            if x in excluded: continue
            if dom is not None and x not in dom: continue
            s2 = st.copy(); s2.asm[v] = ('i', x)
            if self.consistent(s2, v): res.append((tgt, s2))
        rest = None
        if dom is not None:
            rest = [d for d in dom if d not in vals and d not in excluded]
            if not rest: return res
        s2 = st.copy()
        if rest is not None and len(rest) == 1: s2.asm[v] = ('i', rest[0])
        else: s2.asm[v] = ('not', tuple(sorted(excluded | set(vals))))
        if self.consistent(s2, v): res.append((t[3], s2))
        return res

    def consistent(self, st, v): return True

    def assume(self, st, t, val):
        st.asm[t] = b(val)
        return self.consistent(st, t)

    # ------------------------------------------------------------ calls
    def mutargs(self, body, t):
        """which arguments of a call are mutable references"""
        r = self.mutcache.get(id(t))
        if r is None:
            out = []
            for i, a in enumerate(t[2]):
                l = a[1][0] if a[0] != 'c' and len(a[1]) == 1 else None
                ty = body.tys[body.locals[l]] if l is not None else None
                if ty is not None and ty['k'] == 'ref' and ty.get('m'): out.append(i)
            r = self.mutcache[id(t)] = (tuple(out), t)
        return r[0]

    def call(self, st, f, args, body=None):
        mut, self.curmut = self.curmut, ()
        self.calls_seen += 1
        f = self.deref(st, f)
        if f[0] == 'clo':
            return self.call_closure(st, f, args, None)
        if f[0] != 'fn':
            return self.opaque(st, ('dyncall',) + ((f,) if f[0] == 't' else ()), args)
        c = f[1]
        m = self.models.get(c.p)
        if m is None and c.rp: m = self.models.get(c.rp)
        if m is None:
            for rx, mm in PREFIX:
                if c.p.startswith(rx): m = mm; break
        if m is not None:
            r = m(self, st, args, c)
            if r is not NotImplemented: return r
        if c.ctor:
            return [(st, ('adt', c.ctor[0], c.ctor[1], tuple(args)))]
        bd = self.F.bodies.get(c.sym) if c.sym else None
        if bd is not None and self.inline_ok(bd) and all(x.key != bd.key for x in self.stack):
            return self.run(bd, args, st)
        return self.opaque(st, ('call', c.rp or c.p), args, mut)

    def opaque(self, st, op, args, mut=()):
        """unknown function: a pure term of its arguments; what it may change through &mut arguments is unknown afterwards"""
        da = tuple(self.deep(st, a) for a in args)
        r = ('t',) + op + da
        for i in mut:
            if args[i][0] == 'ref':
                st = st.copy()
                self.write(st, args[i][1], args[i][2], self.mutated(i, r))
        return [(st, r)]

    def mutated(self, i, r): return ('t', 'mutated', i, r)

    def call_closure(self, st, f, args, how):
        """f: closure value (or a reference to one); args already untupled"""
        fv = f
        ref = None
        while fv[0] in ('ref', 'rv'):
            ref = fv
            fv = self.read(st, fv[1], fv[2]) if fv[0] == 'ref' else fv[1]
        if fv[0] == 'fn': return self.call(st, fv, args)
        if fv[0] != 'clo': return self.opaque(st, ('dyncall', fv), args)
        bd = self.F.bodies.get(fv[1])
        if bd is None: return self.opaque(st, ('clo', fv[2]), args)
        if any(x.key == bd.key for x in self.stack) and sum(x.key == bd.key for x in self.stack) > 2:
            return self.opaque(st, ('rec', fv[2]), args)
        selft = bd.tys[bd.locals[1]] if bd.n >= 1 else None
        s0 = fv
        tmp = None
        if selft and selft['k'] == 'ref':
            if ref is not None and ref[0] == 'ref': s0 = ref
            else:
                tmp = ('clo', len(self.stack), st.hc); st.hc += 1
                st.mem[tmp] = fv
                s0 = ('ref', tmp, ())
        res = self.run(bd, [s0] + list(args), st)
        if tmp is not None:
            for s2, _ in res: s2.mem.pop(tmp, None)
            for s2, _ in res: s2.hc = st.hc - 1
            st.hc -= 1
        return res

TRANSPARENT = set()

# ================================================================= library models
BASE = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: BASE[n] = f
        return f
    return d

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i32': 32, 'i64': 64, 'isize': 64, 'u128': 128}

def ret(st, v): return [(st, v)]

def fork_bool(I, st, t):
    """split on an uninterpreted boolean"""
    t = I.simplify_bool(st, t)
    if t[0] == 'b': return [(st, t[1])]
    neg = False
    while t[0] == 't' and t[1] == 'not': neg = not neg; t = t[2]
    out = []
    for v in (True, False):
        s2 = st.copy()
        if I.assume(s2, t, v): out.append((s2, v != neg))
    return out

def fork_opt(I, st, v):
    """split an Option value: list of (state, None | payload)"""
    v = I.deref(st, v)
    if v[0] == 'adt': return [(st, v[3][0] if v[2] == 1 else None)]
    d = ('t', 'discr', v)
    a = I.simplify_bool(st, d)
    pl = I.proj(st, I.proj(st, v, ('d', 1)), 0)
    if a[0] == 'i': return [(st, pl if a[1] == 1 else None)]
    s1 = st.copy(); s1.asm[d] = ('i', 1)
    s0 = st.copy(); s0.asm[d] = ('i', 0)
    return [(s1, pl), (s0, None)]

def fork_res(I, st, v):
    v = I.deref(st, v)
    if v[0] == 'adt': return [(st, v[2], v[3][0])]
    d = ('t', 'discr', v)
    a = I.simplify_bool(st, d)
    if a[0] == 'i': return [(st, a[1], ('t', 'fld', ('t', 'as', v, a[1]), 0))]
    out = []
    for i in (0, 1):
        s = st.copy(); s.asm[d] = ('i', i); out.append((s, i, ('t', 'fld', ('t', 'as', v, i), 0)))
    return out

# ---- identity-like
@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::iter::traits::collect::IntoIterator::into_iter_identity',
       'core::hint::must_use', 'core::convert::identity', 'core::ops::deref::Deref::deref_v')
def m_clone(I, st, a, c):
    v = I.deref(st, a[0])
    return ret(st, v)

@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow',
       'alloc::string::String::as_str', 'alloc::vec::Vec::as_slice', 'core::convert::AsMut::as_mut', 'smallvec::SmallVec::as_slice', 'alloc::vec::Vec::as_mut_slice')
def m_deref(I, st, a, c):
    bd = I.F.bodies.get(c.sym) if c.sym else None
    if bd is not None and bd.crate.startswith('wat_'): return NotImplemented
    v = a[0]
    # &Box/&Rc/&Vec/&String -> & inner ; wrappers are transparent
    inner = I.deref1(st, v) if False else None
    if c.rp and 'LazyLock' in c.rp or c.p.endswith('deref') and 'LazyLock' in (c.rp or ''):
        return ret(st, ('rv', I.deep(st, v)))
    x = v
    if x[0] == 'ref':
        y = I.read(st, x[1], x[2])
        if y[0] in ('ref', 'rv'): return ret(st, y)
    if x[0] == 'rv' and x[1][0] in ('ref', 'rv'): return ret(st, x[1])
    return ret(st, x)

@model('core::convert::From::from', 'core::convert::Into::into')
def m_into(I, st, a, c):
    bd = I.F.bodies.get(c.sym) if c.sym else None
    if bd is not None and bd.crate.startswith('wat_'): return NotImplemented
    if c.p.endswith('into'):
        # blanket Into: find From impl in workspace through type arguments
        ta = c.c.get('ta', [])
        if len(ta) == 2:
            src = I.F.ty(c.tys, ta[0]); dst = I.F.ty(c.tys, ta[1])
            if src == dst: return ret(st, a[0])
            for bb in I.F.bodies.values():
                if bb.trait == 'core::convert::From' and bb.method == 'from' and bb.selfty and bb.crate.startswith('wat_') and norm(bb.selfty).split('<')[0] == dst.split('<')[0]:
                    at = I.F.ty(bb.tys, bb.locals[1])
                    if at == src: return I.run(bb, a, st)
    ta = c.c.get('ta', [])
    if len(ta) == 2:
        x, y = I.F.ty(c.tys, ta[0]), I.F.ty(c.tys, ta[1])
        src, dst = (x, y) if c.p.endswith('into') else (y, x)
        ad = I.F.adts.get(dst)
        if dst.startswith('lsp_types::') and ad and ad['enum'] and src != dst:
            # wrapping conversions of the protocol types: the variant which holds the source type
            l = [i for i, v in enumerate(ad['v']) if [norm(t) for t in v.get('ft', ())] == [norm(src)]]
            if len(l) == 1: return ret(st, ('adt', dst, l[0], (I.deep(st, a[0]),)))
            return NotImplemented
    v = a[0]
    return ret(st, v if v[0] not in ('ref', 'rv') else I.deref(st, v))

@model('core::convert::TryInto::try_into')
def m_try_into(I, st, a, c):
    return NotImplemented

@model('alloc::rc::Rc::new', 'alloc::rcs::rc::Rc::new', 'alloc::rcs::arc::Arc::new', 'alloc::sync::Arc::new', 'alloc::boxed::Box::new')
def m_box(I, st, a, c): return ret(st, a[0])

@model('alloc::boxed::Box::new_uninit')
def m_newuninit(I, st, a, c):
    cell = ('h', len(I.stack), st.hc); st.hc += 1
    st.mem[cell] = U
    return ret(st, ('ref', cell, ()))

@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(I, st, a, c):
    v = a[0]
    arr = I.deref(st, v)
    # unwrap MaybeUninit/ManuallyDrop layers produced by field writes
    n = 0
    while arr[0] in ('tup', 'adt') and n < 6:
        f = arr[1] if arr[0] == 'tup' else arr[3]
        f = [x for x in f if x != U]
        if len(f) != 1: break
        if arr[0] == 'tup' and False: break
        arr = f[0]; n += 1
    if v[0] == 'ref': st.mem.pop(v[1], None); st.hc = max(0, st.hc - 1)
    if arr[0] == 'arr': return ret(st, ('vec', arr[1]))
    return ret(st, ('t', 'boxvec', arr))

@model('core::mem::take')
def m_take(I, st, a, c):
    r = a[0]; v = I.deref(st, r)
    if v[0] == 'vec': d = ('vec', ())
    elif v[0] == 'adt' and v[1] == OPT: d = NONE
    elif v[0] == 'b': d = FALSE
    else: d = ('t', 'default')
    write_ref(I, st, r, d)
    return ret(st, v)

@model('core::mem::replace')
def m_replace(I, st, a, c):
    v = I.deref(st, a[0]); write_ref(I, st, a[0], a[1]); return ret(st, v)

@model('core::mem::swap')
def m_swap(I, st, a, c):
    x = I.deref(st, a[0]); y = I.deref(st, a[1])
    write_ref(I, st, a[0], y); write_ref(I, st, a[1], x)
    return ret(st, UNIT)

@model('core::mem::drop', 'alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit')
def m_nop(I, st, a, c): return ret(st, UNIT)

def write_ref(I, st, r, v):
    n = 0
    while r[0] == 'ref' and n < 20:
        t = I.read(st, r[1], r[2])
        if t[0] == 'ref': r = t; n += 1; continue
        I.write(st, r[1], r[2], v); return True
    return False

# ---- closures
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def m_callfn(I, st, a, c):
    args = a[1]
    args = args[1] if args[0] == 'tup' else (args,)
    f = I.deref(st, a[0])
    if f[0] == 'fn': return I.call(st, f, list(args))
    return I.call_closure(st, a[0], args, None)

def callf(I, st, f, args):
    g = I.deref(st, f)
    if g[0] == 'fn': return I.call(st, g, list(args))
    if g in (('t', 'proj0'), ('t', 'proj1')):
        x = I.deref(st, args[0]); i = int(g[1][-1])
        return [(st, x[1][i] if x[0] == 'tup' else ('t', 'fld', x, i))]
    return I.call_closure(st, f, list(args), None)

# ---- equality
def val_eq(I, x, y):
    if x == y and x[0] != 'u' : return TRUE
    if x[0] == 'rv': x = x[1]
    if y[0] == 'rv': y = y[1]
    if is_const(x) and is_const(y): return b(x == y)
    if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1]:
        if x[2] != y[2]: return FALSE
        r = TRUE
        for p, q in zip(x[3], y[3]): r = I.binop('BitAnd', r, val_eq(I, p, q)) if r != TRUE else val_eq(I, p, q)
        return r
    if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
        r = TRUE
        for p, q in zip(x[1], y[1]):
            e = val_eq(I, p, q)
            if e == FALSE: return FALSE
            r = e if r == TRUE else (r if e == TRUE else ('t', 'bin', 'BitAnd', r, e))
        return r
    # Option/enum constant against an opaque value: compare by discriminant when the variant has no fields
    if repr(x) > repr(y): x, y = y, x
    return ('t', 'bin', 'Eq', x, y)

@model('core::cmp::PartialEq::eq')
def m_eq(I, st, a, c):
    x = I.deep(st, a[0]); y = I.deep(st, a[1])
    bd = I.F.bodies.get(c.sym) if c.sym else None
    if bd is not None and bd.crate.startswith('wat_') and not bd.exp and not (is_const(x) and is_const(y)): return NotImplemented
    return ret(st, I.simplify_bool(st, val_eq(I, x, y)))

@model('core::cmp::PartialEq::ne')
def m_ne(I, st, a, c):
    return ret(st, I.nott(I.simplify_bool(st, val_eq(I, I.deep(st, a[0]), I.deep(st, a[1])))))

# ---- Try
@model('core::ops::try_trait::Try::branch')
def m_branch(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'adt' and v[1] == RES or c.rp and 'Result' in c.rp:
        return [(s, ('adt', CF, 0, (p,)) if k == 0 else ('adt', CF, 1, (err(p),))) for s, k, p in fork_res(I, st, v)]
    return [(s, ('adt', CF, 0, (p,)) if p is not None else ('adt', CF, 1, (NONE,))) for s, p in fork_opt(I, st, v)]

@model('core::ops::try_trait::FromResidual::from_residual')
def m_residual(I, st, a, c):
    v = a[0]
    if v[0] == 'adt' and v[1] == RES: return ret(st, v)
    if v[0] == 'adt' and v[1] == OPT: return ret(st, NONE)
    return ret(st, v)

# ---- Option / Result
def optm(name):
    return model('core::option::Option::' + name)
@optm('is_some')
def _(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'adt': return ret(st, b(v[2] == 1))
    return [(s, b(p is not None)) for s, p in fork_opt(I, st, v)]
@optm('is_none')
def _(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'adt': return ret(st, b(v[2] == 0))
    return [(s, b(p is None)) for s, p in fork_opt(I, st, v)]
@model('core::option::Option::as_ref', 'core::option::Option::as_deref', 'core::option::Option::as_mut', 'core::option::Option::as_deref_mut')
def _(I, st, a, c):
    r = a[0]
    v = I.deref(st, r)
    if v[0] == 'adt':
        if v[2] == 0: return ret(st, NONE)
        p = v[3][0]
        if r[0] == 'ref':
            rr = r
            while True:
                t = I.read(st, rr[1], rr[2])
                if t[0] == 'ref': rr = t
                else: break
            if p[0] in ('ref', 'rv') : return ret(st, some(p if 'deref' in c.p else ('ref', rr[1], rr[2] + (('d', 1), 0))))
            return ret(st, some(('ref', rr[1], rr[2] + (('d', 1), 0))))
        return ret(st, some(p if p[0] in ('ref', 'rv') else ('rv', p)))
    return [(s, some(('rv', p)) if p is not None else NONE) for s, p in fork_opt(I, st, v)]
@model('core::option::Option::cloned', 'core::option::Option::copied')
def _(I, st, a, c):
    return [(s, some(I.deref(s, p)) if p is not None else NONE) for s, p in fork_opt(I, st, a[0])]
@optm('map')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, NONE))
        else: out += [(s2, some(v)) for s2, v in callf(I, s, a[1], [p])]
    return out
@optm('and_then')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, NONE))
        else: out += callf(I, s, a[1], [p])
    return out
@optm('and')
def _(I, st, a, c): return [(s, NONE if p is None else a[1]) for s, p in fork_opt(I, st, a[0])]
@optm('filter')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, NONE)); continue
        for s2, v in callf(I, s, a[1], [('rv', p)]):
            for s3, t in fork_bool(I, s2, v): out.append((s3, some(p) if t else NONE))
    return out
@model('core::option::Option::is_some_and', 'core::option::Option::is_none_or')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, b('none_or' in c.p)))
        else: out += callf(I, s, a[1], [p])
    return out
@optm('or')
def _(I, st, a, c): return [(s, some(p) if p is not None else a[1]) for s, p in fork_opt(I, st, a[0])]
@optm('or_else')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is not None: out.append((s, some(p)))
        else: out += callf(I, s, a[1], [])
    return out
@model('core::option::Option::unwrap', 'core::option::Option::expect')
def _(I, st, a, c):
    return [(s, p) for s, p in fork_opt(I, st, a[0]) if p is not None]
@optm('unwrap_or')
def _(I, st, a, c): return [(s, p if p is not None else a[1]) for s, p in fork_opt(I, st, a[0])]
@optm('unwrap_or_default')
def _(I, st, a, c):
    return [(s, p if p is not None else default_of(I, c, 0)) for s, p in fork_opt(I, st, a[0])]
def default_of(I, c, i):
    return default_ty(I, I.F.ty(c.tys, c.c['ta'][i]) if c.c.get('ta') else '')
def default_ty(I, t):
    if t == 'bool': return FALSE
    if t.startswith('alloc::vec::Vec') or t.startswith('smallvec'): return ('vec', ())
    if t.startswith(OPT): return NONE
    if re.match(r'^[ui](8|16|32|64|size)$', t): return ('i', 0)
    if t == 'alloc::string::String': return ('s', '')
    a = I.F.adts.get(t) if t.startswith('lsp_types::') else None
    if a and not a['enum'] and a['v'][0]['f']: return ('adt', t, 0, tuple(default_ty(I, x) for x in a['v'][0]['ft']))
    if t in ('u32', 'usize'): return ('i', 0)
    return ('t', 'default', t)
@optm('unwrap_or_else')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is not None: out.append((s, p))
        else: out += callf(I, s, a[1], [])
    return out
@optm('map_or')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, a[1]))
        else: out += callf(I, s, a[2], [p])
    return out
@optm('map_or_else')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out += callf(I, s, a[1], [])
        else: out += callf(I, s, a[2], [p])
    return out
@optm('ok_or')
def _(I, st, a, c): return [(s, ok(p) if p is not None else err(a[1])) for s, p in fork_opt(I, st, a[0])]
@optm('ok_or_else')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is not None: out.append((s, ok(p)))
        else: out += [(s2, err(v)) for s2, v in callf(I, s, a[1], [])]
    return out
@optm('zip')
def _(I, st, a, c):
    out = []
    for s, p in fork_opt(I, st, a[0]):
        if p is None: out.append((s, NONE)); continue
        for s2, q in fork_opt(I, s, a[1]):
            out.append((s2, NONE if q is None else some(('tup', (p, q)))))
    return out
@optm('take')
def _(I, st, a, c):
    v = I.deref(st, a[0]); write_ref(I, st, a[0], NONE); return ret(st, v)
@optm('insert')
def _(I, st, a, c):
    write_ref(I, st, a[0], some(a[1])); return ret(st, ('rv', a[1]))
@optm('flatten')
def _(I, st, a, c): return [(s, NONE if p is None else p) for s, p in fork_opt(I, st, a[0])]
@model('core::option::Option::into_iter')
def _(I, st, a, c): return [(s, ('it', () if p is None else (p,))) for s, p in fork_opt(I, st, a[0])]

def resm(*n): return model(*['core::result::Result::' + x for x in n])
@resm('map')
def _(I, st, a, c):
    out = []
    for s, k, p in fork_res(I, st, a[0]):
        if k: out.append((s, err(p)))
        else: out += [(s2, ok(v)) for s2, v in callf(I, s, a[1], [p])]
    return out
@resm('map_err')
def _(I, st, a, c):
    out = []
    for s, k, p in fork_res(I, st, a[0]):
        if not k: out.append((s, ok(p)))
        else: out += [(s2, err(v)) for s2, v in callf(I, s, a[1], [p])]
    return out
@resm('and_then')
def _(I, st, a, c):
    out = []
    for s, k, p in fork_res(I, st, a[0]):
        if k: out.append((s, err(p)))
        else: out += callf(I, s, a[1], [p])
    return out
@resm('ok')
def _(I, st, a, c): return [(s, NONE if k else some(p)) for s, k, p in fork_res(I, st, a[0])]
@resm('err')
def _(I, st, a, c): return [(s, some(p) if k else NONE) for s, k, p in fork_res(I, st, a[0])]
@resm('is_ok')
def _(I, st, a, c): return [(s, b(not k)) for s, k, p in fork_res(I, st, a[0])]
@resm('is_err')
def _(I, st, a, c): return [(s, b(bool(k))) for s, k, p in fork_res(I, st, a[0])]
@resm('unwrap', 'expect')
def _(I, st, a, c): return [(s, p) for s, k, p in fork_res(I, st, a[0]) if not k]
@resm('unwrap_or')
def _(I, st, a, c): return [(s, a[1] if k else p) for s, k, p in fork_res(I, st, a[0])]
@resm('unwrap_or_default')
def _(I, st, a, c): return [(s, default_of(I, c, 0) if k else p) for s, k, p in fork_res(I, st, a[0])]
@resm('unwrap_or_else')
def _(I, st, a, c):
    out = []
    for s, k, p in fork_res(I, st, a[0]):
        if not k: out.append((s, p))
        else: out += callf(I, s, a[1], [p])
    return out
@model('core::bool::<impl bool>::then', 'core::bool::bool::then')
def m_then(I, st, a, c):
    out = []
    for s, t in fork_bool(I, st, a[0]):
        if t: out += [(s2, some(v)) for s2, v in callf(I, s, a[1], [])]
        else: out.append((s, NONE))
    return out
@model('core::bool::<impl bool>::then_some', 'core::bool::bool::then_some')
def m_then_some(I, st, a, c):
    return [(s, some(a[1]) if t else NONE) for s, t in fork_bool(I, st, a[0])]

# ---- Vec
@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'smallvec::SmallVec::new', 'smallvec::SmallVec::with_capacity')
def m_vecnew(I, st, a, c): return ret(st, ('vec', ()))
@model('core::default::Default::default')
def m_default(I, st, a, c):
    ta = c.c.get('ta')
    if ta:
        bd = I.F.bodies.get(c.sym) if c.sym else None
        if bd is not None: return NotImplemented
        v = default_of(I, c, 0)
        return ret(st, v)
    return NotImplemented

def items_of(I, st, v):
    v = I.deref(st, v)
    if v[0] in ('vec', 'arr', 'it'): return v[1]
    if v[0] == 'tup': return v[1]
    if v[0] == 'adt' and v[1] == OPT: return () if v[2] == 0 else (v[3][0],)
    return (('spread', v),)

@model('alloc::vec::Vec::push', 'smallvec::SmallVec::push')
def m_push(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'vec': n = ('vec', seq_push(v[1], I.deep_rv(st, a[1])))
    else: n = ('vec', collapse((('spread', v), I.deep_rv(st, a[1]))))
    if not write_ref(I, st, a[0], n): raise Incomplete('push to unknown vec')
    return ret(st, UNIT)

def vec_extend(I, st, r, items):
    v = I.deref(st, r)
    cur = v[1] if v[0] == 'vec' else (('spread', v),)
    for x in items: cur = seq_push(cur, x)
    if not write_ref(I, st, r, ('vec', cur)): raise Incomplete('extend of unknown vec')

@model('alloc::vec::Vec::append', 'smallvec::SmallVec::append')
def m_append(I, st, a, c):
    its = items_of(I, st, a[1])
    write_ref(I, st, a[1], ('vec', ()))
    vec_extend(I, st, a[0], its)
    return ret(st, UNIT)

@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::spec_extend::SpecExtend::spec_extend', 'smallvec::SmallVec::extend_from_slice')
def m_extend(I, st, a, c):
    out = []
    for s, its in drain(I, st, to_iter(I, st, a[1])):
        if I.deref(s, a[0])[0] == 's' or (I.deref(s, a[0])[0] == 't'):
            write_ref(I, s, a[0], ('t', 'extend', I.deep(s, a[0])) + its)
        else: vec_extend(I, s, a[0], its)
        out.append((s, UNIT))
    return out

@model('alloc::vec::Vec::insert')
def m_insert(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'vec' and a[1][0] == 'i' and a[1][1] <= len(v[1]) and not any(x[0] in ('plus', 'star', 'spread') for x in v[1][:a[1][1]]):
        i = a[1][1]
        write_ref(I, st, a[0], ('vec', v[1][:i] + (a[2],) + v[1][i:]))
        return ret(st, UNIT)
    raise Incomplete('Vec::insert')

@model('alloc::vec::Vec::pop')
def m_pop(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'vec':
        if not v[1]: return ret(st, NONE)
        x = v[1][-1]
        if x[0] not in ('plus', 'star', 'spread'):
            write_ref(I, st, a[0], ('vec', v[1][:-1])); return ret(st, some(x))
    write_ref(I, st, a[0], ('t', 'popped', I.deep(st, a[0])))
    return ret(st, ('t', 'pop', v))
@model('alloc::vec::Vec::clear', 'alloc::vec::Vec::truncate')
def m_clear(I, st, a, c):
    if len(a) == 1 or a[1] == ('i', 0): write_ref(I, st, a[0], ('vec', ()))
    else: write_ref(I, st, a[0], ('t', 'truncate', I.deep(st, a[0]), I.deep(st, a[1])))
    return ret(st, UNIT)
@model('alloc::vec::Vec::reverse', 'core::slice::<impl [T]>::reverse')
def m_rev(I, st, a, c):
    v = I.deref(st, a[0])
    write_ref(I, st, a[0], ('vec', tuple(reversed(v[1]))) if v[0] == 'vec' else ('t', 'rev', v))
    return ret(st, UNIT)

def emptiness(items):
    """True / False / None(unknown)"""
    if not items: return True
    if any(x[0] not in ('star', 'spread') for x in items): return False
    return None

@model('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty', 'smallvec::SmallVec::is_empty', 'core::slice::is_empty')
def m_isempty(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] in ('vec', 'arr'):
        e = emptiness(v[1])
        if e is not None: return ret(st, b(e))
        # split: either everything is empty (refine the vector), or not
        s1 = st.copy(); write_ref(I, s1, a[0], ('vec', ()))
        s2 = st.copy()
        ne = tuple(('spreadne',) + x[1:] if x[0] == 'spread' and len(v[1]) == 1 else x for x in v[1])
        if len(v[1]) == 1: write_ref(I, s2, a[0], ('vec', ne))
        return [(s1, TRUE), (s2, FALSE)]
    return ret(st, ('t', 'is_empty', I.deep(st, v)))

@model('alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'smallvec::SmallVec::len', 'core::slice::len')
def m_len(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] in ('vec', 'arr') and not any(x[0] in ('plus', 'star', 'spread', 'spreadne') for x in v[1]): return ret(st, ('i', len(v[1])))
    return ret(st, ('t', 'len', I.deep(st, v)))

@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_first(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] in ('vec', 'arr'):
        if not v[1]: return ret(st, NONE)
        x = v[1][0 if c.p.endswith('first') else -1]
        if x[0] == 'plus': x = x[1][0 if c.p.endswith('first') else -1]
        if x[0] not in ('star', 'spread', 'spreadne'): return ret(st, some(('rv', x)))
    return ret(st, ('t', c.p.split('::')[-1], I.deep(st, v)))

@model('core::slice::<impl [T]>::get')
def m_get(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] in ('vec', 'arr') and a[1][0] == 'i' and not any(x[0] in ('plus', 'star', 'spread', 'spreadne') for x in v[1]):
        return ret(st, some(('rv', v[1][a[1][1]])) if a[1][1] < len(v[1]) else NONE)
    return ret(st, ('t', 'get', I.deep(st, v), I.deep(st, a[1])))

@model('core::slice::<impl [T]>::contains')
def m_contains(I, st, a, c):
    v = I.deref(st, a[0]); x = I.deep(st, a[1])
    if v[0] in ('vec', 'arr') and not any(y[0] in ('plus', 'star', 'spread', 'spreadne') for y in v[1]):
        r = FALSE
        for y in v[1]:
            e = I.simplify_bool(st, val_eq(I, I.deep(st, y), x))
            r = I.binop('BitOr', r, e)
            if r == TRUE: break
        return ret(st, r)
    return ret(st, ('t', 'contains', I.deep(st, v), x))

# ---- iterators
IT = 'core::iter::traits::iterator::Iterator::'

def to_iter(I, st, v):
    """iterator over an iterable value (owned or by reference)"""
    r = v
    byref = v[0] in ('ref', 'rv')
    w = I.deref(st, v)
    if w[0] in ('it', 'itx'):
        # `&mut iter`: keep the reference so that progress is shared
        return v if v[0] == 'ref' else w
    if w[0] in ('vec', 'arr'):
        if byref: return ('it', tuple(x if x[0] in ('plus', 'star', 'spread', 'spreadne') else ('rv', x) for x in w[1]))
        return ('it', w[1])
    if w[0] == 'adt' and w[1] == OPT: return ('it', () if w[2] == 0 else (w[3][0],))
    if w[0] == 'adt' and w[1] == 'core::ops::range::Range':
        lo, hi = w[3]
        if lo[0] == 'i' and hi[0] == 'i' and hi[1] - lo[1] <= 4096: return ('it', tuple(('i', x) for x in range(lo[1], hi[1])))
    if w[0] == 'adt' and w[1] == 'core::ops::range::RangeInclusive':
        lo, hi = w[3][0], w[3][1]
        if lo[0] == 'i' and hi[0] == 'i' and hi[1] - lo[1] <= 4096: return ('it', tuple(('i', x) for x in range(lo[1], hi[1] + 1)))
    if w[0] == 't' and w[1] == 'optG': return ('itx', 'opt', w, byref)
    return ('it', (('spread', I.deep(st, w)),))

def next_val(I, st, it):
    """one step of an iterator *value*: list of (state, item or None, iterator afterwards)"""
    if it[0] == 'ref':
        v = I.read(st, it[1], it[2])
        out = []
        for s, x, nv in next_val(I, st, v):
            I.write(s, it[1], it[2], nv); out.append((s, x, it))
        return out
    if it[0] == 'rv': return next_val(I, st, it[1])
    if it[0] == 'it':
        items = it[1]
        if not items: return [(st, None, it)]
        x = items[0]; rest = items[1:]
        if x[0] == 'plus':
            return next_val(I, st, ('it', x[1] + x[1] + (('star', x[1]),) + rest))
        if x[0] == 'star':
            out = next_val(I, st.copy(), ('it', rest))
            inner = x[1]
            if all(y[0] in ('spread', 'star') for y in inner): inner = tuple(('spreadne',) + y[1:] if y[0] == 'spread' else y for y in inner)
            out += next_val(I, st.copy(), ('it', inner + (x,) + rest))
            return out
        if x[0] in ('spread', 'spreadne'):
            src = x[1]
            if src[0] == 't' and src[1] == 'G*': return [(st, ('t', 'G', src[2]), ('it', rest))]
            el = ('t', 'elem', src)
            s1 = st.copy(); purge(s1, el)
            out = [(s1, el, ('it', (('spread', src),) + rest))]
            if x[0] == 'spread': out += next_val(I, st.copy(), ('it', rest))
            return out
        return [(st, x, ('it', rest))]
    if it[0] == 'itx':
        return ITX[it[1]](I, st, it)
    if it[0] in ('t', 'vec', 'arr', 'adt'):
        return next_val(I, st, to_iter(I, st, it))
    raise Incomplete('next on %r' % (it[0],))

def purge(st, el):
    """forget assumptions about the summary element"""
    def mentions(t):
        if t == el: return True
        return isinstance(t, tuple) and any(mentions(x) for x in t if isinstance(x, tuple))
    for k in [k for k in st.asm if mentions(k)]: del st.asm[k]

ITX = {}
def itx(n):
    def d(f): ITX[n] = f; return f
    return d

@itx('map')
def _(I, st, it):
    out = []
    for s, x, n in next_val(I, st, it[2]):
        if x is None: out.append((s, None, ('itx', 'map', n, it[3])))
        else:
            cell, s = hold(I, s, it[3])
            for s2, v in callf(I, s, ('ref', cell, ()), [x]):
                f = unhold(I, s2, cell)
                out.append((s2, v, ('itx', 'map', n, f)))
    return out

def hold(I, st, f):
    cell = ('f', len(I.stack), st.hc); st.hc += 1
    st.mem[cell] = f
    return cell, st
def unhold(I, st, cell):
    st.hc -= 1
    return st.mem.pop(cell)

def iterate(I, st, it, step):
    """fixpoint over an iterator: step(state, item) -> list of (state, stop?, value). yields (state, value, iterator)"""
    cell = ('iter', len(I.stack), st.hc); st = st.copy(); st.hc += 1
    st.mem[cell] = it
    out = []
    seen = set()
    work = [st]
    while work:
        s = work.pop()
        k = s.freeze()
        if k in seen: continue
        seen.add(k)
        I.steps += 1
        if I.steps > I.max_steps: raise Incomplete('iterator budget')
        for s2, x, n in next_val(I, s, s.mem[cell]):
            s2 = s2.copy()
            s2.mem[cell] = n
            if x is None:
                s3 = s2.copy(); nn = s3.mem.pop(cell); s3.hc = st.hc - 1
                out.append((s3, None, nn))
            else:
                for s3, stop, v in step(s2, x):
                    if stop:
                        s4 = s3.copy(); nn = s4.mem.pop(cell); s4.hc = st.hc - 1
                        out.append((s4, (v,), nn))
                    else: work.append(s3)
    return out

@itx('filter')
def _(I, st, it):
    def step(s, x):
        res = []
        for s2, v in callf(I, s, it[3], [('rv', x)]):
            for s3, t in fork_bool(I, s2, v): res.append((s3, t, x))
        return res
    return [(s, v[0] if v else None, ('itx', 'filter', n, it[3])) for s, v, n in iterate(I, st, it[2], step)]

@itx('filter_map')
def _(I, st, it):
    def step(s, x):
        res = []
        for s2, v in callf(I, s, it[3], [x]):
            for s3, p in fork_opt(I, s2, v): res.append((s3, p is not None, p))
        return res
    return [(s, v[0] if v else None, ('itx', 'filter_map', n, it[3])) for s, v, n in iterate(I, st, it[2], step)]

@itx('flat')
def _(I, st, it):
    # ('itx','flat', outer, f|None, current|None)
    out = []
    work = [(st, it[2], it[4])]
    seen = set()
    while work:
        s, outer, cur = work.pop()
        k = (s.freeze(), outer, cur)
        if k in seen: continue
        seen.add(k)
        if cur is not None:
            for s2, x, n in next_val(I, s, cur):
                if x is not None: out.append((s2, x, ('itx', 'flat', outer, it[3], n)))
                else: work.append((s2, outer, None))
            continue
        for s2, x, n in next_val(I, s, outer):
            if x is None: out.append((s2, None, ('itx', 'flat', n, it[3], None)))
            elif it[3] is None:
                w = I.deref(s2, x)
                if w[0] == 't' and True:
                    work.append((s2, n, to_iter(I, s2, x)))
                else: work.append((s2, n, to_iter(I, s2, x)))
            else:
                for s3, v in callf(I, s2, it[3], [x]): work.append((s3, n, to_iter(I, s3, v)))
    return out

@itx('opt')
def _(I, st, it): return [(s, p if p is None or not it[3] else ('rv', p), ('it', ())) for s, p in fork_opt(I, st, it[2])]

@itx('chain')
def _(I, st, it):
    out = []
    if it[2] is None: return [(s, x, ('itx', 'chain', None, n)) for s, x, n in next_val(I, st, it[3])]
    for s, x, n in next_val(I, st, it[2]):
        if x is not None: out.append((s, x, ('itx', 'chain', n, it[3])))
        else: out += [(s2, y, ('itx', 'chain', None, n2)) for s2, y, n2 in next_val(I, s, it[3])]
    return out

@itx('cloned')
def _(I, st, it): return [(s, None if x is None else I.deref(s, x), ('itx', 'cloned', n)) for s, x, n in next_val(I, st, it[2])]

@itx('enumerate')
def _(I, st, it):
    out = []
    for s, x, n in next_val(I, st, it[2]):
        i = it[3]
        if x is None: out.append((s, None, ('itx', 'enumerate', n, i))); continue
        summ = x[0] == 't' or n[0] == 'it' and n[1] and n[1][0][0] in ('star', 'spread')
        iv = ('t', 'count') if summ or i[0] == 't' else i
        out.append((s, ('tup', (iv, x)), ('itx', 'enumerate', n, ('t', 'count') if iv[0] == 't' else ('i', i[1] + 1))))
    return out

@itx('skip')
def _(I, st, it):
    n = it[3]
    states = [(st, it[2])]
    for _ in range(n):
        nx = []
        for s, cur in states:
            for s2, x, m in next_val(I, s, cur): nx.append((s2, m))
        states = nx
    out = []
    for s, cur in states: out += [(s2, x, ('itx', 'skip', m, 0)) for s2, x, m in next_val(I, s, cur)]
    return out

@itx('take')
def _(I, st, it):
    if it[3] <= 0: return [(st, None, it)]
    return [(s, x, ('itx', 'take', n, it[3] - 1)) for s, x, n in next_val(I, st, it[2])]

@itx('while')
def _(I, st, it):
    # ('itx','while',inner,f,mode,state) mode: take / skip / map ; state: done flag
    mode, done = it[4], it[5]
    if mode == 'skip':
        if done: return [(s, x, it[:2] + (n,) + it[3:]) for s, x, n in next_val(I, st, it[2])]
        def step(s, x):
            res = []
            for s2, v in callf(I, s, it[3], [('rv', x)]):
                for s3, t in fork_bool(I, s2, v): res.append((s3, not t, x))
            return res
        return [(s, v[0] if v else None, ('itx', 'while', n, it[3], mode, True)) for s, v, n in iterate(I, st, it[2], step)]
    if done: return [(st, None, it)]
    out = []
    for s, x, n in next_val(I, st, it[2]):
        if x is None: out.append((s, None, ('itx', 'while', n, it[3], mode, True))); continue
        if mode == 'take':
            for s2, v in callf(I, s, it[3], [('rv', x)]):
                for s3, t in fork_bool(I, s2, v): out.append((s3, x if t else None, ('itx', 'while', n, it[3], mode, not t)))
        else:
            for s2, v in callf(I, s, it[3], [x]):
                for s3, p in fork_opt(I, s2, v): out.append((s3, p, ('itx', 'while', n, it[3], mode, p is None)))
    return out

@itx('peekable')
def _(I, st, it):
    if it[3] is not None:
        p = it[3][0]
        return [(st, p, ('itx', 'peekable', it[2], None))]
    return [(s, x, ('itx', 'peekable', n, None)) for s, x, n in next_val(I, st, it[2])]

@itx('zip')
def _(I, st, it):
    out = []
    for s, x, n in next_val(I, st, it[2]):
        if x is None: out.append((s, None, ('itx', 'zip', n, it[3]))); continue
        for s2, y, m in next_val(I, s, it[3]):
            out.append((s2, None if y is None else ('tup', (x, y)), ('itx', 'zip', n, m)))
    return out

@itx('successors')
def _(I, st, it):
    cur = it[2]
    out = []
    for s, p in fork_opt(I, st, cur):
        if p is None: out.append((s, None, ('itx', 'successors', NONE, it[3]))); continue
        for s2, v in callf(I, s, it[3], [('rv', p)]): out.append((s2, p, ('itx', 'successors', v, it[3])))
    return out

def itm(*names): return model(*[IT + n for n in names])

@itm('next')
def m_next(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] not in ('it', 'itx', 't', 'vec', 'adt'): return NotImplemented
    r = a[0]
    while r[0] == 'ref' and I.read(st, r[1], r[2])[0] == 'ref': r = I.read(st, r[1], r[2])
    out = []
    for s, x, n in next_val(I, st, v):
        if r[0] == 'ref': I.write(s, r[1], r[2], n)
        out.append((s, NONE if x is None else some(x)))
    return out
BASE['core::iter::traits::double_ended::DoubleEndedIterator::next_back'] = lambda I, st, a, c: ret(st, ('t', 'next_back', I.deep(st, a[0])))

def owned_iter(I, st, v):
    if v[0] == 'ref':
        w = I.deref(st, v)
        if w[0] in ('it', 'itx', 't'): return v
    return to_iter(I, st, v) if v[0] not in ('it', 'itx') else v

@model('core::iter::traits::collect::IntoIterator::into_iter', 'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'smallvec::SmallVec::iter',
       'alloc::vec::Vec::iter', 'core::option::Option::iter')
def m_intoiter(I, st, a, c):
    w = I.deref(st, a[0])
    if w[0] == 't' and (c.rp and 'option::Option' in c.rp or c.p.startswith('core::option')): return ret(st, ('itx', 'opt', w, a[0][0] in ('ref', 'rv')))
    return ret(st, owned_iter(I, st, a[0]))
@model('alloc::vec::Vec::drain', 'smallvec::SmallVec::drain')
def m_drain(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'vec' and a[1] == ('adt', 'core::ops::range::RangeFull', 0, ()):
        write_ref(I, st, a[0], ('vec', ())); return ret(st, ('it', v[1]))
    raise Incomplete('drain')

@itm('map')
def _(I, st, a, c): return ret(st, ('itx', 'map', owned_iter(I, st, a[0]), a[1]))
@itm('filter')
def _(I, st, a, c): return ret(st, ('itx', 'filter', owned_iter(I, st, a[0]), a[1]))
@itm('filter_map')
def _(I, st, a, c): return ret(st, ('itx', 'filter_map', owned_iter(I, st, a[0]), a[1]))
@itm('flat_map')
def _(I, st, a, c): return ret(st, ('itx', 'flat', owned_iter(I, st, a[0]), a[1], None))
@itm('flatten')
def _(I, st, a, c): return ret(st, ('itx', 'flat', owned_iter(I, st, a[0]), None, None))
@itm('chain')
def _(I, st, a, c): return ret(st, ('itx', 'chain', owned_iter(I, st, a[0]), owned_iter(I, st, a[1])))
@itm('cloned', 'copied')
def _(I, st, a, c): return ret(st, ('itx', 'cloned', owned_iter(I, st, a[0])))
@itm('enumerate')
def _(I, st, a, c): return ret(st, ('itx', 'enumerate', owned_iter(I, st, a[0]), ('i', 0)))
@itm('skip')
def _(I, st, a, c):
    if a[1][0] != 'i': return ret(st, ('it', (('spread', ('t', 'skip', I.deep(st, a[0]), I.deep(st, a[1]))),)))
    return ret(st, ('itx', 'skip', owned_iter(I, st, a[0]), a[1][1]))
@itm('take')
def _(I, st, a, c):
    if a[1][0] != 'i': return ret(st, ('it', (('spread', ('t', 'take', I.deep(st, a[0]), I.deep(st, a[1]))),)))
    return ret(st, ('itx', 'take', owned_iter(I, st, a[0]), a[1][1]))
@itm('take_while')
def _(I, st, a, c): return ret(st, ('itx', 'while', owned_iter(I, st, a[0]), a[1], 'take', False))
@itm('skip_while')
def _(I, st, a, c): return ret(st, ('itx', 'while', owned_iter(I, st, a[0]), a[1], 'skip', False))
@itm('map_while')
def _(I, st, a, c): return ret(st, ('itx', 'while', owned_iter(I, st, a[0]), a[1], 'map', False))
@itm('peekable')
def _(I, st, a, c): return ret(st, ('itx', 'peekable', owned_iter(I, st, a[0]), None))
@itm('zip')
def _(I, st, a, c): return ret(st, ('itx', 'zip', owned_iter(I, st, a[0]), owned_iter(I, st, a[1])))
@itm('by_ref')
def _(I, st, a, c): return ret(st, a[0])
@itm('fuse')
def _(I, st, a, c): return ret(st, a[0])
@itm('rev')
def _(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] == 'it': return ret(st, ('it', tuple(reversed(v[1]))))
    return ret(st, ('it', (('spread', ('t', 'rev', I.deep(st, v))),)))
@model('core::iter::sources::once::once')
def _(I, st, a, c): return ret(st, ('it', (a[0],)))
@model('core::iter::sources::empty::empty')
def _(I, st, a, c): return ret(st, ('it', ()))
@model('core::iter::sources::successors::successors')
def _(I, st, a, c): return ret(st, ('itx', 'successors', a[0], a[1]))
@model('core::iter::adapters::peekable::Peekable::peek')
def m_peek(I, st, a, c):
    r = a[0]
    while r[0] == 'ref' and I.read(st, r[1], r[2])[0] == 'ref': r = I.read(st, r[1], r[2])
    v = I.deref(st, r)
    if v[0] == 'itx' and v[1] == 'peekable':
        if v[3] is not None:
            p = v[3][0]
            return ret(st, NONE if p is None else some(('rv', p)))
        out = []
        for s, x, n in next_val(I, st, v[2]):
            if r[0] == 'ref': I.write(s, r[1], r[2], ('itx', 'peekable', n, (x,)))
            out.append((s, NONE if x is None else some(('rv', x))))
        return out
    return ret(st, ('t', 'peek', I.deep(st, v)))

def flat_struct(I, st, items):
    """flatten a sequence of sequences without enumerating repetition groups"""
    out = ()
    for x in items:
        if x[0] in ('plus', 'star'):
            f = flat_struct(I, st, x[1])
            if f is None: return None
            if f: out += ((x[0], f),)
        elif x[0] in ('spread', 'spreadne'): return None
        else:
            w = I.deref(st, x)
            if w[0] in ('vec', 'arr'): out += w[1]
            elif w[0] == 'adt' and w[1] == OPT: out += () if w[2] == 0 else (w[3][0],)
            else: return None
    return out

def drain(I, st, it):
    """run an iterator to its end collecting its items"""
    if it[0] == 'it': return [(st, tuple(I.deep_rv(st, x) if x[0] not in ('plus', 'star', 'spread', 'spreadne') else x for x in it[1]))]
    if it[0] == 'itx' and it[1] == 'flat' and it[3] is None and it[4] is None and it[2][0] == 'it':
        f = flat_struct(I, st, it[2][1])
        if f is not None: return [(st, f)]
    acc = ('acc', len(I.stack), st.hc)
    st = st.copy(); st.hc += 1
    st.mem[acc] = ('vec', ())
    def step(s, x):
        s = s.copy()
        s.mem[acc] = ('vec', seq_push(s.mem[acc][1], I.deep_rv(s, x)))
        return [(s, False, None)]
    out = []
    for s, v, n in iterate(I, st, it, step):
        items = s.mem.pop(acc)[1]
        s.hc -= 1
        out.append((s, items))
    return out

@itm('collect')
def m_collect(I, st, a, c):
    out = []
    for s, items in drain(I, st, owned_iter(I, st, a[0])):
        t = I.F.ty(c.tys, c.c['ta'][-1]) if c.c.get('ta') else ''
        if t.startswith('alloc::vec::Vec') or t.startswith('smallvec') or t.startswith('alloc::boxed::Box<['): out.append((s, ('vec', items)))
        elif t.startswith(OPT): out.append((s, ('t', 'collect_opt', items)))
        elif t.startswith(RES): out.append((s, ('t', 'collect_res', items)))
        else: out.append((s, ('t', 'collect', t.split('<')[0], ('vec', items))))
    return out
@model('alloc::vec::spec_from_iter::SpecFromIter::from_iter', 'core::iter::traits::collect::FromIterator::from_iter')
def _(I, st, a, c): return [(s, ('vec', items)) for s, items in drain(I, st, owned_iter(I, st, a[0]))]

@itm('for_each')
def _(I, st, a, c):
    cell, st = hold(I, st.copy(), a[1])
    def step(s, x): return [(s2, False, None) for s2, v in callf(I, s, ('ref', cell, ()), [x])]
    out = []
    for s, v, n in iterate(I, st, owned_iter(I, st, a[0]), step):
        unhold(I, s, cell); out.append((s, UNIT))
    return out

@itm('fold')
def _(I, st, a, c):
    cell, st = hold(I, st.copy(), a[2])
    acc = ('facc', len(I.stack), st.hc); st.hc += 1
    st.mem[acc] = a[1]
    def step(s, x):
        cur = s.mem[acc]
        s = s.copy(); s.mem[acc] = U
        res = []
        for s2, v in callf(I, s, ('ref', cell, ()), [cur, x]):
            s2.mem[acc] = v; res.append((s2, False, None))
        return res
    out = []
    for s, v, n in iterate(I, st, owned_iter(I, st, a[0]), step):
        r = s.mem.pop(acc); s.hc -= 1; unhold(I, s, cell)
        out.append((s, r))
    return out

def search(I, st, a, f, on):
    cell, st = hold(I, st.copy(), f)
    def step(s, x):
        res = []
        for s2, v in callf(I, s, ('ref', cell, ()), [x if on != 'find' else ('rv', x)]):
            if on == 'find_map':
                for s3, p in fork_opt(I, s2, v): res.append((s3, p is not None, p))
            else:
                for s3, t in fork_bool(I, s2, v):
                    if on == 'all': res.append((s3, not t, x))
                    else: res.append((s3, t, x))
        return res
    out = []
    for s, v, n in iterate(I, st, owned_iter(I, st, a), step):
        unhold(I, s, cell)
        if a[0] == 'ref' and n[0] != 'ref': write_ref(I, s, a, n)
        out.append((s, v))
    return out
@itm('find')
def _(I, st, a, c): return [(s, NONE if v is None else some(v[0])) for s, v in search(I, st, a[0], a[1], 'find')]
@itm('find_map')
def _(I, st, a, c): return [(s, NONE if v is None else some(v[0])) for s, v in search(I, st, a[0], a[1], 'find_map')]
@itm('any')
def _(I, st, a, c): return [(s, b(v is not None)) for s, v in search(I, st, a[0], a[1], 'any')]
@itm('all')
def _(I, st, a, c): return [(s, b(v is None)) for s, v in search(I, st, a[0], a[1], 'all')]
@itm('position')
def _(I, st, a, c): return [(s, NONE if v is None else some(('t', 'position', I.deep(s, v[0])))) for s, v in search(I, st, a[0], a[1], 'any')]
@itm('nth')
def _(I, st, a, c):
    if a[1][0] != 'i': return ret(st, ('t', 'nth', I.deep(st, a[0]), I.deep(st, a[1])))
    states = [(st, owned_iter(I, st, a[0]))]
    out = []
    for k in range(a[1][1] + 1):
        nx = []
        for s, cur in states:
            for s2, x, m in next_val(I, s, cur):
                if x is None: out.append((s2, NONE))
                elif k == a[1][1]: out.append((s2, some(x)))
                else: nx.append((s2, m))
        states = nx
    return out
@itm('last')
def _(I, st, a, c):
    out = []
    for s, items in drain(I, st, owned_iter(I, st, a[0])):
        if not items: out.append((s, NONE)); continue
        x = items[-1]
        if x[0] == 'plus': x = x[1][-1]
        out.append((s, some(x)))
    return out
@itm('count')
def _(I, st, a, c):
    out = []
    for s, items in drain(I, st, owned_iter(I, st, a[0])):
        if any(x[0] in ('plus', 'star', 'spread', 'spreadne') or x[0] == 't' for x in items): out.append((s, ('t', 'count', ('vec', items))))
        else: out.append((s, ('i', len(items))))
    return out

# ---- char predicates
import unicodedata as _ud
CHARP = {
    'is_ascii': lambda n: n < 128, 'is_ascii_alphanumeric': lambda n: n < 128 and chr(n).isalnum(), 'is_ascii_alphabetic': lambda n: n < 128 and chr(n).isalpha(),
    'is_ascii_digit': lambda n: 48 <= n <= 57, 'is_ascii_hexdigit': lambda n: n < 128 and chr(n) in '0123456789abcdefABCDEF',
    'is_ascii_lowercase': lambda n: 97 <= n <= 122, 'is_ascii_uppercase': lambda n: 65 <= n <= 90,
    'is_ascii_punctuation': lambda n: 33 <= n <= 47 or 58 <= n <= 64 or 91 <= n <= 96 or 123 <= n <= 126,
    'is_ascii_whitespace': lambda n: n in (9, 10, 12, 13, 32), 'is_ascii_control': lambda n: n < 32 or n == 127, 'is_ascii_graphic': lambda n: 33 <= n <= 126,
    'is_whitespace': lambda n: n in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) or 0x2000 <= n <= 0x200a,
    'is_alphabetic': lambda n: chr(n).isalpha(), 'is_numeric': lambda n: chr(n).isnumeric(), 'is_alphanumeric': lambda n: chr(n).isalnum(),
    'is_control': lambda n: _ud.category(chr(n)) == 'Cc', 'is_lowercase': lambda n: chr(n).islower(), 'is_uppercase': lambda n: chr(n).isupper(),
}
def _charp(name, f):
    def m(I, st, a, c):
        v = I.deref(st, a[0])
        if v[0] in ('ch', 'i'): return ret(st, b(f(v[1])))
        return ret(st, ('t', 'charp', name, v))
    return m
for _n, _f in CHARP.items():
    for _p in ('core::char::methods::<impl char>::', 'core::num::<impl u8>::'): BASE[_p + _n] = _charp(_n, _f)
def _aschar(name):
    def m(I, st, a, c):
        v = I.deref(st, a[0])
        f = {'is_hex_digit': CHARP['is_ascii_hexdigit'], 'is_dec_digit': CHARP['is_ascii_digit'], 'is_alpha': CHARP['is_ascii_alphabetic'], 'is_alphanum': CHARP['is_ascii_alphanumeric'],
             'is_oct_digit': lambda n: 48 <= n <= 55, 'is_space': lambda n: n in (32, 9), 'is_newline': lambda n: n == 10}[name]
        if v[0] == 'ch': return ret(st, b(f(v[1])))
        return ret(st, ('t', 'charp', name, v))
    return m
for _n in ('is_hex_digit', 'is_dec_digit', 'is_alpha', 'is_alphanum', 'is_oct_digit', 'is_space', 'is_newline'): BASE['winnow::stream::AsChar::' + _n] = _aschar(_n)
