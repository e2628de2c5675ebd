"""Decision tables for comprehension summaries.

A summary (comp.py) is a closed formula over an abstract collection.  To compare it with a specification, both are
tabulated: every quantity the formula inspects (kind of a symbol, presence of a name, equality of two names ...) is a
column whose value is enumerated, collections are enumerated up to a small number of generic members.  No part of the
program is executed: only the formulas extracted from it are tabulated.
"""
from absint import *

ORDERING = 'core::cmp::Ordering'
class Prune(Exception): pass
class Stuck(Exception): pass
class Variant(Stuck): pass     # part of a value that is of another variant: the condition it stands under is false

class Choices:
    """depth-first enumeration of all assignments to lazily discovered columns"""
    def __init__(self, limit=200000):
        self.trail = []; self.limit = limit; self.leaves = 0; self.pinned = {}
    def rows(self, fn):
        self.trail = []
        while True:
            self.pos = 0
            self.asg = dict(self.pinned)
            try: r = fn()
            except Prune: r = None
            del self.trail[self.pos:]
            self.leaves += 1
            if r is not None: yield r, self.asg
            if self.leaves > self.limit: raise Incomplete('table larger than %d rows' % self.limit)
            while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]: self.trail.pop()
            if not self.trail: return
            self.trail[-1][0] += 1
    def choose(self, key, options):
        if key in self.asg: return self.asg[key]
        if len(options) == 0: raise Prune
        if len(options) == 1: v = options[0]
        else:
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
            else:
                e = [0, len(options)]; self.trail.append(e)
            self.pos += 1
            v = options[e[0]]
        self.asg[key] = v
        return v

_trees = {}
class Tree:
    """paths/clauses [(guard dict, payload)] as a lazily built decision tree"""
    __slots__ = ('items', 'atom', 'kids', 'keep')
    def __init__(self, items):
        self.items = items; self.atom = None; self.kids = {}; self.keep = None
        if any(g for g, p in items):
            cnt = {}
            for g, p in items:
                for t in g: cnt[t] = cnt.get(t, 0) + 1
            self.atom = max(cnt, key=lambda t: (cnt[t], -cost(t)))
    def sub(self, v):
        k = self.kids.get(v)
        if k is None:
            l = []
            for g, p in self.items:
                w = g.get(self.atom)
                if w is not None and not match(w, v): continue
                l.append(({t: x for t, x in g.items() if t != self.atom} if w is not None else g, p))
            k = self.kids[v] = Tree(l)
        return k

def match(w, v):
    if w[0] == 'not': return v[0] != 'i' or v[1] not in w[1]
    return w == v

_cost = {}
def cost(t):
    c = _cost.get(t)
    if c is None: c = _cost[t] = len(repr(t))
    return c

class Intern:
    """unique objects for equal terms, after a substitution"""
    def __init__(self, m): self.m = m; self.tab = {}; self.byid = {}
    def __call__(self, t):
        if not isinstance(t, tuple): return t
        r = self.byid.get(id(t))
        if r is not None: return r[0]
        r = self.m.get(t)
        if r is None:
            r = tuple(self(x) if isinstance(x, tuple) else x for x in t)
            r = self.tab.setdefault(r, r)
        self.byid[id(t)] = (r, t)
        return r

UNKNOWN = ('call', 'dyncall', 'clo', 'rec')

def unknowns(v, out):
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == 't' and v[1] in UNKNOWN: out.add(str(v[1:3])[:150])
        for x in v: unknowns(x, out)
    return out

def leaves(t, names):
    return isinstance(t, tuple) and (len(t) > 1 and t[0] == 't' and t[1] in names or any(leaves(x, names) for x in t))

class Ev:
    def free(self, t):
        r = self.fv.get(id(t))
        if r is not None: return r[0]
        out = set()
        if len(t) == 4 and t[0] == 't' and t[1] == 'bv': out.add((t[2], t[3]))
        elif t and t[0] == 'C':
            for cl in t[1:]:
                s = set()
                for x in cl[0]: s |= set(self.free(x))
                for a, v in cl[1]: s |= set(self.free(a))
                s |= set(self.free(cl[2]))
                out |= {v for v in s if v[0] != cl[3]}
        elif len(t) == 7 and t[0] == 't' and t[1] == 'acc':
            for x in t[3:6]: out |= set(self.free(x))
            out = {v for v in out if v[0] != t[6]}
        else:
            for x in t:
                if isinstance(x, tuple): out |= set(self.free(x))
        r = tuple(sorted(out))
        self.fv[id(t)] = (r, t)
        return r
    def __init__(self, I, ch):
        self.fv = {}; self.ops = {}
        self.I = I; self.F = I.F; self.ch = ch
        self.fldhook = {}; self.srchook = {}; self.ophook = {}
        self.maxlen = 2; self.world = None
        self.kinds = None
        self.sid = {}

    def reset(self): self.memo = {}; self.accmemo = {}; self.ncls = {}

    # ---- evaluation of a set of disjoint paths [(asm, value)]
    def paths(self, tree, env={}):
        hit = []
        self.walk(tree, env, hit)
        if len(hit) != 1: raise Stuck('%d paths match' % len(hit))
        return self.ev(hit[0], env)
    def walk(self, tree, env, hit):
        while tree.atom is not None and tree.items:
            try: v = self.ev(tree.atom, env)
            except Variant as e: tree = self.without(tree, env, e); continue
            tree = tree.sub(v if v[0] != 't' else b(self.truth(v)))
        for g, p in tree.items: hit.append(p)
    def without(self, tree, env, e):
        """the alternatives left when the other conditions that have a value are decided first"""
        items = tree.items
        for t in sorted({t for g, p in items for t in g if t != tree.atom}, key=cost):
            try: v = self.ev(t, env)
            except Variant: continue
            if v[0] == 't': v = b(self.truth(v))
            items = [({k: x for k, x in g.items() if k != t}, p) for g, p in items if t not in g or match(g[t], v)]
            if not any(tree.atom in g for g, p in items): return Tree(items)
        # a run that decided on a part of this value had a value of the other variant
        items = [x for x in items if tree.atom not in x[0]]
        if items: return Tree(items)
        raise e

    def walk1(self, tree, env, cover):
        """the payload of a set of exclusive alternatives that cover everything (the paths of one iteration)"""
        while tree.atom is not None and tree.items:
            if tree.keep is None: tree.keep = all(p == tree.items[0][1] for g, p in tree.items)
            if cover and tree.keep and len(tree.items) > 1: return tree.items[0][1]
            v = self.ev(tree.atom, env)
            tree = tree.sub(v if v[0] != 't' else b(self.truth(v)))
        if not tree.items: return None
        if len(tree.items) > 1: raise Stuck('fold with several transitions')
        return tree.items[0][1]

    # ---- comprehension
    def tree(self, C):
        t = _trees.get(id(C))
        if t is None:
            groups = {}
            for cl in C[1:]: groups.setdefault((cl[0], cl[3]), []).append((dict(cl[1]), cl[2]))
            t = _trees[id(C)] = ([(k, Tree(v)) for k, v in groups.items()], C)
        return t[0]
    def values(self, C, env):
        """(binder ids, value) of every firing clause, in element order"""
        groups = self.tree(C)
        # share the outermost source when all groups iterate over the same one
        out = []
        if len(groups) > 1 and all(k[0] for k, t in groups):
            s0 = [self.ev(k[0][0], env) for k, t in groups]
            if all(x == s0[0] for x in s0):
                for el in self.bsrc(s0[0]):
                    for (srcs, H), t in groups:
                        e = dict(env); e[(H, 0)] = el
                        self.bind(srcs, H, 1, e, t, out, (el,))
                return out
        for (srcs, H), t in groups: self.bind(srcs, H, 0, dict(env), t, out, ())
        return out
    def bind(self, srcs, H, i, env, tree, out, ids):
        if i == len(srcs):
            hit = []
            self.walk(tree, env, hit)
            for v in hit: self.flat(v, env, out, ids)
            return
        try: l = self.bsrc(self.ev(srcs[i], env))
        except Variant as ex:
            if not tree.items: return
            # no alternative whose conditions hold uses these elements
            w = Tree([({**g, ('t', 'never'): TRUE}, p) for g, p in tree.items]); w.atom = ('t', 'never')
            w = self.without(w, env, ex)
            if w.items: raise
            return
        for el in l:
            e = dict(env); e[(H, i)] = el
            self.bind(srcs, H, i + 1, e, tree, out, ids + (el,))
    def flat(self, v, env, out, ids):
        if v[0] in ('item', 'compr', 'spread', 'spreadne'):
            x = v[1] if v[0] == 'item' else v
            if x[0] == 'compr': out += [(ids + j, w) for j, w in self.values(x[1], env)]
            elif x[0] in ('spread', 'spreadne'): out += [(ids + (el,), el) for el in self.src(self.ev(x[1], env))]
            elif x[0] == 'multi': out.append((ids, ('multi', self.ev(x[1], env), self.ev(x[2], env))))
            elif x[0] == 'seq':
                for y in x[1]: self.flat(y, env, out, ids)
            else: raise Stuck('item ' + x[0])
        else: out.append((ids, self.ev(v, env)))
    def items(self, its, env):
        out = []
        for x in its:
            if x[0] == 'compr': out += [w for j, w in self.values(x[1], env)]
            elif x[0] in ('spread', 'spreadne'): out += self.src(self.ev(x[1], env))
            elif x[0] == 'multi': out.append(('multi', self.ev(x[1], env), self.ev(x[2], env)))
            elif x[0] in ('plus', 'star'): raise Stuck(x[0])
            else: out.append(self.ev(x, env))
        return out
    def src(self, v):
        if v[0] in ('vec', 'arr'): return list(v[1])
        if v[0] == 'map' and not any(x[0] == 'multi' for x in v[1]): return list(v[1])
        if v[0] in ('map', 'itm'): return self.grouped(v[1])
        if v[0] == 'adt' and v[1] == OPT: return list(v[3])
        if v[0] == 't':
            h = self.srchook.get(v[1])
            if h:
                r = h(self, v)
                if r is not None: return r
            if v[1] == 'rev': return list(reversed(self.src(v[2])))
        if v[0] == 'adt' and v[1] == 'core::ops::range::RangeFrom': return [('i', v[3][0][1] + k) for k in range(6)]
        self.opaque(v)
        n = self.ch.choose(('len', v), list(range(self.maxlen + 1)))
        return [('t', 'elt', v, i) for i in range(n)]

    def bsrc(self, v):
        """elements to bind: equal ones are told apart by their position"""
        l = self.src(v)
        return l if len(l) < 2 or len(set(l)) == len(l) else [('@', i, x) for i, x in enumerate(l)]
    def ids(self, ts, env):
        out = []
        for y in ts:
            v = env.get((y[2], y[3])) if y[0] == 't' and y[1] == 'bv' else None
            out.append(v if v is not None else self.ev(y, env))
        return tuple(out)
    def grouped(self, its):
        """entries of a map of collections, in order of first insertion"""
        out = []
        for x in its:
            if x[0] != 'multi': out.append((x[1][0], None, x)); continue
            for k, l, e in out:
                if l is not None and self.eq(k, x[1]): l.append(x[2]); break
            else: out.append((x[1], [x[2]], None))
        return [e if l is None else ('tup', (k, ('vec', tuple(l)))) for k, l, e in out]
    # ---- terms
    def ev(self, t, env):
        k = t[0]
        if k in ('i', 'b', 's', 'ch', 'u', 'fn', 'clo'): return t
        if k == 'rv': return self.ev(t[1], env)
        if k == 'adt': return ('adt', t[1], t[2], tuple(self.ev(x, env) for x in t[3]))
        if k == 'tup' or k == 'arr': return (k, tuple(self.ev(x, env) for x in t[1]))
        if k == 'cat':
            out = []
            for x in self.items(t[1], env):
                if x[0] == 'cat': out += x[1]
                elif x != ('s', ''): out.append(x)
            return (k, tuple(out))
        if k in ('vec', 'map', 'it'): return (k, tuple(self.items(t[1], env)))
        if k == 'itm': return (k, tuple(self.items(t[1], env)))
        if k != 't': raise Stuck('value ' + str(k))
        op = t[1]
        if op == 'n' or op == 'tk': return t
        if op == 'bv':
            v = env.get((t[2], t[3]))
            if v is None: raise Variant('unbound variable')
            return v[2] if v[0] == '@' else v
        fv = self.fv.get(id(t))
        fv = fv[0] if fv is not None else self.free(t)
        key = (id(t), tuple([env.get(v) for v in fv])) if fv else id(t)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self.ev1(t, op, env)
        return r
    def ev1(self, t, op, env):
        f = self.ops.get(op, 0)
        if f == 0: f = self.ops[op] = getattr(self, 'op_' + op, None)
        if f is not None: return f(t, env)
        g = ('t', op) + tuple(self.ev(x, env) if isinstance(x, tuple) and x else x for x in t[2:])
        if op == 'call' and len(g) == 5 and g[3][0] == g[4][0] == 'i':
            n = g[2].rsplit('::', 1)[-1]
            if n in ('integer_min', 'min'): return min(g[3], g[4])
            if n in ('integer_max', 'max'): return max(g[3], g[4])
        h = self.ophook.get(op)
        if h is not None:
            r = h(self, g)
            if r is not None: return r
        return g
    def op_mutated(self, t, env): raise Stuck('value changed by ' + str(t[3])[:120])
    def op_deref(self, t, env): return self.ev(t[2], env)
    def op_fld(self, t, env): return self.fld(self.ev(t[2], env), t[3])
    def fld(self, v, i):
        if v[0] == 'adt': return v[3][i]
        if v[0] == 'tup': return v[1][i]
        if v[0] == 't':
            h = self.fldhook.get(v[1])
            if h is not None:
                r = h(self, v, i)
                if r is not None: return r
        return ('t', 'fld', v, i)
    def op_as(self, t, env):
        v = self.ev(t[2], env)
        if v[0] == 'adt':
            if v[2] != t[3]: raise Variant('variant')
            return v
        return ('t', 'as', v, t[3])
    def op_discr(self, t, env):
        v = self.ev(t[2], env)
        return ('i', self.discr(v, self.I.tyof.get(t)))
    def discr(self, v, ty=None):
        if v[0] == 'adt':
            a = self.F.adts.get(v[1])
            return a['v'][v[2]]['d'] if a and a['enum'] else v[2]
        if v[0] == 'b': return int(v[1])
        if v[0] == 'i': return v[1]
        h = self.ophook.get('discr')
        if h is not None:
            r = h(self, v)
            if r is not None: return r
        if v[0] == 't' and v[1] == 'kind':
            return self.ch.choose(('discr', v), self.kinds)
        self.opaque(v)
        ty = ty or self.I.tyof.get(('t', 'discr', v))
        a = self.F.adts.get(ty)
        if a and a['enum']: return self.ch.choose(('discr', v), [x['d'] for x in a['v']])
        return self.ch.choose(('discr', v), [0, 1])
    def op_not(self, t, env): return b(not self.truth(self.ev(t[2], env)))
    okcalls = ()
    def opaque(self, v):
        """a decision on the result of a function the analysis knows nothing about is no fact about the program"""
        if v[0] == 't' and v[1] in UNKNOWN and not (v[1] == 'call' and v[2] in self.okcalls): raise Stuck('decision on the result of ' + str(v[1:])[:200])
        if self.closed and leaves(v, self.closed): raise Stuck('decision on ' + str(v[1:])[:200])
    closed = ()     # leaves about which everything is given: what the evaluation cannot derive about them is not free to choose
    def truth(self, v):
        if v[0] == 'b': return v[1]
        self.opaque(v)
        return self.ch.choose(('bool', v), [False, True])
    def op_narrow(self, t, env):
        x = self.ev(t[3], env)
        return ('i', x[1] % (1 << t[2])) if x[0] == 'i' else ('t', 'narrow', t[2], x)
    def op_bin(self, t, env):
        o = t[2]
        x = self.ev(t[3], env)
        if o in ('BitAnd', 'BitOr') and (x[0] == 'b' or x[0] == 't'):
            p = self.truth(x)
            if o == 'BitAnd' and not p: return FALSE
            if o == 'BitOr' and p: return TRUE
            return b(self.truth(self.ev(t[4], env)))
        y = self.ev(t[4], env)
        if o in ('Eq', 'Ne'): return b(self.eq(x, y) == (o == 'Eq'))
        if x[0] == 'i' and y[0] == 'i':
            m, n = x[1], y[1]
            if m == 255 and t[3][1] == 'discr': m = -1    # Ordering::Less
            if n == 255 and t[4][1] == 'discr': n = -1
            if o == 'Add': return ('i', m + n)
            if o == 'Sub': return ('i', m - n)
            if o == 'Mul': return ('i', m * n)
            if o == 'Cmp': return ('adt', ORDERING, (m > n) - (m < n) + 1, ())
            if o in ('Div', 'Rem'):
                if n == 0 or m < 0 or n < 0: raise Stuck('division')
                return ('i', m // n if o == 'Div' else m % n)
            return b({'Lt': m < n, 'Le': m <= n, 'Gt': m > n, 'Ge': m >= n}[o])
        if o in ('Add', 'Sub', 'Mul'): return ('t', 'bin', o, x, y)
        if o == 'Cmp': return ('adt', ORDERING, 0 if self.order('Lt', x, y) else 1 if self.order('Le', x, y) else 2, ())
        return b(self.order(o, x, y))
    def order(self, o, x, y):
        if x == y: return o in ('Le', 'Ge')
        h = self.ophook.get('order')
        c = h(self, x, y) if h is not None else None
        if c is not None: return {'Lt': c < 0, 'Le': c <= 0, 'Gt': c > 0, 'Ge': c >= 0}[o]
        if repr(x) > repr(y): x, y, o = y, x, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[o]
        self.opaque(x); self.opaque(y)
        c = self.ch.choose(('cmp', x, y), [-1, 0, 1])
        return {'Lt': c < 0, 'Le': c <= 0, 'Gt': c > 0, 'Ge': c >= 0}[o]
    def eq(self, x, y):
        if x == y: return True
        if x[0] == 't' or y[0] == 't':
            h = self.ophook.get('eq')
            if h is not None:
                r = h(self, x, y)
                if r is not None: return r
            for p, q in ((x, y), (y, x)):
                if p[0] == 't' and q[0] == 'adt':
                    a = self.F.adts.get(q[1])
                    if a and a['enum']:
                        if self.discr(p, q[1]) != self.discr(q): return False
                        return all(self.eq(self.fld(('t', 'as', p, q[2]), i), z) for i, z in enumerate(q[3]))
                    return all(self.eq(self.fld(p, i), z) for i, z in enumerate(q[3]))
            if x[0] == 't' and y[0] == 't' and (x[1] in ('kind',) or y[1] in ('kind',)): return self.discr(x) == self.discr(y)
            for p, q in ((x, y), (y, x)):
                if p[0] == 't' and q[0] in ('i', 's', 'ch') and not (self.consts and ('cls', p) in self.ch.asg): return self.isconst(p, q)
            return self.cls(x) == self.cls(y)
        if {x[0], y[0]} == {'ch', 'i'}: return x[1] == y[1]
        if x[0] != y[0]: return False
        if x[0] == 'adt':
            return x[1] == y[1] and x[2] == y[2] and all(self.eq(p, q) for p, q in zip(x[3], y[3]))
        if x[0] in ('tup', 'arr'): return len(x[1]) == len(y[1]) and all(self.eq(p, q) for p, q in zip(x[1], y[1]))
        return False
    def isconst(self, p, q):
        """may the opaque value p be the constant q"""
        self.opaque(p)
        if q in self.consts.get(self.sort(p), ()): return self.cls(p) == q
        k = ('const', p)
        d = self.ch.asg.get(k)
        if d is not None and d[0]: return d[1] == q
        if self.ch.choose(('is', p, q), [False, True]):
            self.ch.asg[k] = (True, q)
            return True
        return False
    def sort(self, v): return 'any'
    consts = {}
    def cls(self, v):
        """equality class of an opaque value: one of the constants it may equal, or one of the classes already in use"""
        if v[0] != 't': return v
        self.opaque(v)
        k = ('cls', v)
        if k in self.ch.asg: return self.ch.asg[k]
        s = self.sort(v)
        used = self.ncls.setdefault(s, [])
        opts = list(self.consts.get(s, ())) + used + [('#', s, len(used))]
        r = self.ch.choose(k, opts)
        if r == ('#', s, len(used)): used.append(r)
        return r
    def op_exists(self, t, env): return b(bool(self.values(t[2], env)))
    def op_card(self, t, env): return ('i', len(self.values(t[2], env)))
    def op_firstopt(self, t, env):
        l = self.values(t[2], env)
        return some(l[0][1]) if l else NONE
    def op_lastopt(self, t, env):
        l = self.values(t[2], env)
        return some(l[-1][1]) if l else NONE
    def op_nthopt(self, t, env):
        l = self.values(t[2], env); n = self.ev(t[3], env)
        if n[0] != 'i': raise Stuck('nth')
        return some(l[n[1]][1]) if n[1] < len(l) else NONE
    def op_at(self, t, env):
        l = self.values(t[2], env); n = self.ev(t[3], env)
        if n[0] != 'i' or n[1] >= len(l): raise Stuck('no such element')
        return l[n[1]][1]
    def op_cut(self, t, env):
        v = self.ev(t[2], env); n = self.ev(t[3], env)
        if v[0] != 'vec' or n[0] != 'i': raise Stuck('part of a list')
        return ('vec', v[1][:n[1]] if t[4] else v[1][n[1]:])
    def op_joined(self, t, env):
        """strings put together with a separator"""
        v = self.ev(t[2], env); sep = self.ev(t[3], env)
        if v[0] != 'vec' or sep[0] != 's': raise Stuck('joined')
        out = []
        for i, x in enumerate(v[1]):
            if i and sep[1]: out.append(sep)
            out += x[1] if x[0] == 'cat' else [x] if x != ('s', '') else []
        return ('cat', tuple(out)) if out else ('s', '')
    def op_len(self, t, env):
        v = self.ev(t[2], env)
        if v[0] in ('vec', 'map'): return ('i', len(v[1]))
        if v[0] == 's': return ('i', len(v[1].encode()))
        return self.hooked('len', ('t', 'len', v))
    def op_is_empty(self, t, env):
        v = self.ev(t[2], env)
        if v[0] in ('vec', 'map'): return b(not v[1])
        if v[0] == 's': return b(not v[1])
        if v[0] == 'cat':
            if not v[1]: return TRUE
            if any(x[0] == 's' and x[1] for x in v[1]): return FALSE
        return self.hooked('is_empty', ('t', 'is_empty', v))
    def hooked(self, op, g):
        h = self.ophook.get(op)
        r = h(self, g) if h is not None else None
        return g if r is None else r
    def op_rank(self, t, env):
        if len(t) < 4: raise Stuck('rank')
        x = self.ids(t[3], env)
        if self.world is not None: self.world.infold += 1
        try: l = self.values(t[2], env)
        finally:
            if self.world is not None: self.world.infold -= 1
        for i, (ids, w) in enumerate(l):
            if ids == x: return ('i', i)
        raise Stuck('rank of a missing element')
    def op_pos(self, t, env):
        l = [i for i, w in self.values(t[2], env)]; h = self.values(t[3], env)
        return ('i', l.index(h[0][0]))
    def op_leader(self, t, env):
        k = self.ev(t[3], env)
        me = self.ids(t[4], env)
        for ids, w in self.values(t[2], env):
            if w[0] == 'multi': w = w[1]
            elif w[0] == 'tup' and not (k[0] == 'tup' and len(k[1]) == len(w[1]) and w[1][0][0] != 'tup'): w = w[1][0]      # (key, value)
            if self.eq(w, k): return b(ids == me)
        raise Stuck('group without members')
    def op_before(self, t, env):
        """is there a member of the second collection not after this element of the first"""
        x = self.ids(t[4], env)
        if self.world is not None: self.world.infold += 1
        try:
            allv = [ids for ids, w in self.values(t[2], env)]; f = {ids for ids, w in self.values(t[3], env)}
        finally:
            if self.world is not None: self.world.infold -= 1
        for ids in allv:
            if ids in f: return TRUE
            if ids == x: return FALSE
        raise Stuck('position of a missing element')
    def op_tail(self, t, env):
        l = self.values(t[2], env)
        return ('vec', tuple(w for i, w in l[1:]))
    def bindings(self, C, env):
        groups = self.tree(C)
        out = []
        if len(groups) > 1 and all(k[0] for k, t in groups):
            s0 = [self.ev(k[0][0], env) for k, t in groups]
            if all(x == s0[0] for x in s0):
                for el in self.bsrc(s0[0]):
                    for (srcs, H), t in groups:
                        e = dict(env); e[(H, 0)] = el
                        self.bind0(srcs, H, 1, e, t, out, (el,))
                return out
        for (srcs, H), t in groups: self.bind0(srcs, H, 0, dict(env), t, out, ())
        return out
    def bind0(self, srcs, H, i, env, tree, out, ids):
        if i == len(srcs): out.append((ids, env, tree)); return
        for el in self.bsrc(self.ev(srcs[i], env)):
            e = dict(env); e[(H, i)] = el
            self.bind0(srcs, H, i + 1, e, tree, out, ids + (el,))
    def op_acc(self, t, env):
        i, inits, C, at, sid = t[2:]
        if at == ('exit',): raise Stuck('loop-carried value at an early exit')
        stop = None if at == ('end',) else self.ids(at, env)
        cur = tuple(self.ev(x, env) for x in inits)
        if self.world is not None: self.world.infold += 1
        try: bs = self.bindings(C, env)
        finally:
            if self.world is not None: self.world.infold -= 1
        one = len(self.tree(C)) == 1
        if stop is not None and len({(x[0], id(x[2])) for x in bs if x[0] == stop[:len(x[0])]}) < sum(1 for x in bs if x[0] == stop[:len(x[0])]): raise Stuck('elements that cannot be told apart')
        for ids, e, tree in bs:
            if stop is not None and ids == stop[:len(ids)]: return cur[i]
            for k, v in enumerate(cur): e[(sid, k)] = v
            hit = self.walk1(tree, e, one)
            if hit is None: continue
            cur = tuple(self.ev(x, e) for x in hit[1])
        if stop is not None: raise Stuck('fold without this iteration')
        return cur[i]
