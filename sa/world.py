"""Explicit syntax trees: formulas over a tree are evaluated on each of a list of trees.
A node is (KIND, [children]), a token (KIND, 'text'); elements are numbered in document order as ('t', 'el', n)."""
from tab import *
import astk, strcol

GREEN = 'rowan::green::'

class World:
    def __init__(self, F, E, trees, roots=()):
        self.F = F; self.E = E; self.trees = trees; self.roots = set(roots)
        self.names = [v['n'] for v in F.adts[KIND]['v']]
        self.nd = {v['n']: v['d'] for v in F.adts[KIND]['v']}
        self.ak = astk.kinds(F)
        self.flat = [self.number(t) for t in trees]
        strcol.install(E, ['unused'])
        self.hooks()
        E.closed = set(E.closed) | {'el'}
    def number(self, t):
        """[(kind, text or None, parent, [children])]"""
        out = []
        def go(t, p):
            i = len(out); out.append(None)
            tok = isinstance(t[1], str)
            out[i] = (t[0], t[1] if tok else None, p, [] if tok else [])
            if not tok:
                for c in t[1]: out[i][3].append(go(c, i))
            return i
        go(t, None)
        return out
    @property
    def no(self): return self.E.ch.choose('tree', range(len(self.trees)))
    @property
    def tree(self): return self.flat[self.no]
    def kind(self, el): return self.tree[el[2]][0]
    def istoken(self, el): return self.tree[el[2]][1] is not None
    def kids(self, el): return [('t', 'el', i) for i in self.tree[el[2]][3]]
    def nodes(self, el): return [c for c in self.kids(el) if not self.istoken(c)]
    def parent(self, el):
        p = self.tree[el[2]][2]
        return None if p is None else ('t', 'el', p)
    def desc(self, el):
        out = [el]
        for c in self.kids(el): out += self.desc(c)
        return out
    def anc(self, el):
        out = []
        while el is not None: out.append(el); el = self.parent(el)
        return out
    def text(self, el):
        t = self.tree[el[2]][1]
        return t if t is not None else ''.join(self.text(c) for c in self.kids(el))
    def typed(self, ty, el):
        """the element as a value of an AST type, None if it cannot be one"""
        ty = ty.split('<')[0] if ty not in self.ak else ty
        if ty not in self.ak: raise Stuck('AST type ' + ty)
        if self.istoken(el): return None
        v = astk.casts(self.F, ty).get(self.kind(el))
        def put(v): return el if v == ('t', 'N') else tuple(put(x) for x in v) if isinstance(v, tuple) else v
        return put(v) if v is not None else None
    def hooks(self):
        E = self.E
        def isel(v): return isinstance(v, tuple) and v[:2] == ('t', 'el')
        def strip(v):
            while isinstance(v, tuple) and v[0] == 'adt' and len(v[3]) == 1 and (v[1] in self.ak or v[1].startswith(('rowan::', 'wat_syntax::'))): v = v[3][0]
            return v
        def wrap(d, op, h):
            old = d.get(op)
            def f(*a):
                r = h(*a)
                return r if r is not None or old is None else old(*a)
            d[op] = f
        O = lambda op, h: wrap(E.ophook, op, h)
        def opt(l): return some(l[0]) if l else NONE
        def one(op, f):
            def h(E, g):
                x = strip(g[2])
                if isel(x): return f(x)
            O(op, h)
        one('newroot', lambda x: x if x[2] == 0 or x in self.roots else x)
        one('green', lambda x: x); one('syntax', lambda x: x)
        one('node', lambda x: x); one('ptr', lambda x: x)
        one('kind', lambda x: ('adt', KIND, self.names.index(self.kind(x)), ()))
        one('text', lambda x: ('s', self.text(x)))
        one('parent', lambda x: opt([p for p in [self.parent(x)] if p]))
        one('into_token', lambda x: some(x) if self.istoken(x) else NONE)
        one('into_node', lambda x: NONE if self.istoken(x) else some(x))
        def tok(E, g):
            x = strip(g[2])
            if isel(x):
                if g[3][0] != 'adt': raise Stuck('token of kind ' + str(g[3])[:80])
                return opt([c for c in self.kids(x) if self.istoken(c) and self.kind(c) == self.names[g[3][2]]])
        O('token', tok)
        def child(E, g):
            x = strip(g[2])
            if isel(x): return opt([t for c in self.nodes(x) for t in [self.typed(g[3], c)] if t])
        O('child', child)
        def cast(E, g):
            x = strip(g[3])
            if isel(x):
                t = self.typed(g[2], x)
                return some(t) if t else NONE
        O('cast', cast)
        def src(op, f):
            def h(E, v):
                x = strip(v[2])
                if isel(x): return f(x, v)
            wrap(E.srchook, op, h)
        src('castchildren', lambda x, v: [t for c in self.nodes(x) for t in [self.typed(v[3], c)] if t])
        src('children', lambda x, v: self.nodes(x)); src('elements', lambda x, v: self.kids(x))
        src('descendants', lambda x, v: [c for c in self.desc(x) if not self.istoken(c)]); src('descendants_with_tokens', lambda x, v: self.desc(x))
        src('ancestors', lambda x, v: self.anc(x)); src('parent_ancestors', lambda x, v: self.anc(x)[1:])
        def call(E, g):
            a = [strip(x) for x in g[3:] if isinstance(x, tuple)]
            if not a or not isel(a[0]): return None
            f = g[2]; x = a[0]; n = f.rsplit('::', 1)[-1]
            if n == 'kind': return ('tup', (('i', self.nd[self.kind(x)]),)) if f.startswith(GREEN) else ('adt', KIND, self.names.index(self.kind(x)), ())
            if n == 'text': return ('s', self.text(x))
            if n == 'to_string': return ('s', self.text(x))
            if n in ('to_owned', 'clone', 'deref', 'into', 'from', 'borrow', 'as_ref'): return x
            sib = lambda: self.kids(self.parent(x)) if self.parent(x) else [x]
            if n == 'first_token':
                t = [c for c in self.desc(x) if self.istoken(c)]; return opt(t)
            if n == 'last_token':
                t = [c for c in self.desc(x) if self.istoken(c)]; return opt(t[-1:])
            if n in ('first_child', 'first_child_or_token'): return opt(self.nodes(x) if n == 'first_child' else self.kids(x))
            if n in ('last_child', 'last_child_or_token'): return opt((self.nodes(x) if n == 'last_child' else self.kids(x))[-1:])
            if n in ('next_sibling', 'next_sibling_or_token'):
                l = [c for c in sib() if c[2] > x[2] and (n != 'next_sibling' or not self.istoken(c))]; return opt(l)
            if n in ('prev_sibling', 'prev_sibling_or_token'):
                l = [c for c in sib() if c[2] < x[2] and (n != 'prev_sibling' or not self.istoken(c))]; return opt(l[-1:])
            if n in ('next_token', 'prev_token') and self.istoken(x):
                l = [c for c in self.desc(('t', 'el', 0)) if self.istoken(c)]; i = l.index(x)
                return opt(l[i + 1:] if n == 'next_token' else l[:i][-1:])
        O('call', call)
        def scall(E, v):
            a = [strip(x) for x in v[3:] if isinstance(x, tuple)]
            if not a or not isel(a[0]): return None
            n = v[2].rsplit('::', 1)[-1]; x = a[0]
            if n == 'children' and v[2].startswith(GREEN): return self.kids(x)
            if n in ('children_with_tokens',): return self.kids(x)
            if n in ('siblings', 'siblings_with_tokens') and len(v) > 4 and v[4][0] == 'adt':
                l = self.kids(self.parent(x)) if self.parent(x) else [x]
                if n == 'siblings': l = [c for c in l if not self.istoken(c)]
                return [c for c in l if c[2] >= x[2]] if v[4][2] == 0 else [c for c in reversed(l) if c[2] <= x[2]]
        wrap(E.srchook, 'call', scall)
        O('discr', lambda E, v: int(self.istoken(v)) if isel(v) else None)
        wrap(E.fldhook, 'as', lambda E, v, i: v[2] if isel(v[2]) and i == 0 else None)
        # the struct around a node
        wrap(E.fldhook, 'el', lambda E, v, i: v if i == 0 else None)
    def elnum(self, el): return el[2]
    def show(self):
        def go(i):
            k, t, p, c = self.tree[i]
            return '%s:%s' % (k, t) if t is not None else '%s(%s)' % (k, ' '.join(go(j) for j in c))
        return go(0)

def run(F, I, paths, trees, spec, norm=lambda E, v: v, short={}, setup=None, seconds=150, limit=200000, plain=False):
    """(rows, [(tree, got, want)]) of a summary over explicit trees; ROOT stands for the root element"""
    T = Table(F, I, paths, None, limit=limit, seconds=seconds, short=short)
    W = World(F, T.E, trees)
    T.E.ophook['ROOT'] = lambda E, g: ('t', 'el', 0)
    if setup: setup(T.E, W)
    bad = T.run(lambda E: spec(W), norm)
    out = []
    for d, got, want in bad:
        import re
        m = re.search(r'tree=(\d+)', d)
        n = int(m.group(1)) if m else 0
        W.E.ch.asg = {'tree': n}
        out.append(((W.text(('t', 'el', 0)) if plain else W.show()) + ('' if d == 'tree=%d' % n else ' [' + d + ']'), got, want))
    return T.rows, out
