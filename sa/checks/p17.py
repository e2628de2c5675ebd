"""P17: call hierarchy: items, incoming and outgoing calls follow the calls of the document."""
from tab import *
import cursor, strcol, checks.p09 as p09

LSPR = 'wat_service::helpers::lsp_range_to_rowan_range'

def asked(I, st, a, c):
    t = ('t', 'asked', I.deep(st, a[0]), I.deep(st, a[1])); I.tyof[('t', 'discr', t)] = OPT
    return ret(st, t)

def item(N, S, uri, u, k):
    E = S.E
    name = S.name(k)[3][0] if S.name(k) != NONE else (S.num(k)[3][0] if S.num(k) != NONE else ('s', ''))
    li = Q('line_index', uri)
    sel = location(N, E, S, li, u, S.nodeof(k))[3][N.F.adts['lsp_types::Location']['v'][0]['f'].index('range')]
    return ('tup', (name, u, N.range(li, ('t', 'range', S.nodeof(k))), sel, ('t', 'sym', k)))

def rditem(F, S, v):
    """an item of an answer in the form of the specification"""
    f = F.adts[v[1]]['v'][0]['f']; g = dict(zip(f, v[3]))
    n = g['name']
    while n[0] == 't' and n[1] in ('q', 'str', 'lookup', 'call', 'fmt') and n[1] != 'sym': n = n[-1]
    d = g['detail']
    who = set()
    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[:2] == ('t', 'sym'): who.add(t); return
            if len(t) == 3 and t[:2] == ('t', 'symnode'): who.add(('t', 'sym', t[2])); return
            if len(t) == 3 and t[:2] == ('t', 'idx'): who.add(('t', 'sym', t[2])); return
            for x in t: walk(x)
    walk(d)
    if len(who) > 1: raise Stuck('detail')
    return ('tup', (n, g['uri'], g['range'], g['selection_range'], who.pop() if who else ('s', 'no detail')))

class World:
    """functions that contain references; the instruction around a reference"""
    def __init__(self, S):
        self.S = S; E = S.E; self.E = E; F = S.F
        self.names = [v['n'] for v in F.adts[KIND]['v']]
        strcol.install(E, ['unused'])
        for op, h in (('parent', self.parent), ('kind', self.kind), ('text', self.text), ('into_token', self.into_token), ('into_node', self.into_node), ('token', self.token)): self.wrap(op, h)
        for s, h in (('ancestors', self.ancestors), ('descendants', self.descendants), ('children', self.children), ('elements', self.elements)): self.wrapsrc(s, h)
        old = E.ophook['discr']
        def d(E, v):
            if v[0] == 't' and v[1] in ('iname', 'plainname'): return 1
            if v[0] == 't' and v[1] in ('symnode', 'plainnode'): return 0
            return old(E, v)
        E.ophook['discr'] = d
        fa = E.fldhook.get('as')
        E.fldhook['as'] = lambda E, v, i: v[2] if v[2][0] == 't' and v[2][1] in ('iname', 'symnode', 'plainname', 'plainnode') else fa(E, v, i)
        eq0 = E.ophook['eq']; ND = ('symnode', 'othernode', 'instr', 'plainnode')
        def h_eq(E, x, y):
            if x[0] == 't' and y[0] == 't' and x[1] == 'range' and y[1] == 'range' and x[2][1] in ND and y[2][1] in ND: return x == y   # nodes are told apart by their place
            return eq0(E, x, y)
        E.ophook['eq'] = h_eq
    def wrap(self, op, h):
        old = self.E.ophook.get(op)
        def f(E, g):
            r = h(E, g)
            return r if r is not None else old(E, g) if old else None
        self.E.ophook[op] = f
    def wrapsrc(self, op, h):
        old = self.E.srchook.get(op)
        def f(E, v):
            r = h(E, v)
            return r if r is not None else old(E, v) if old else None
        self.E.srchook[op] = f
    def un(self, x):
        while x[0] == 't' and x[1] in ('deref', 'syntax'): x = x[2]
        return x
    def isref(self, k): return self.S.kind(k) in REFS
    def operand(self, k):
        """the reference is an operand of an instruction (else an index in a field)"""
        S = self.S
        return S.E.discr(('t', 'kind', S.nodeof(k))) == S.nk['OPERAND']
    def enclosing(self, k):
        S = self.S
        o = [j for j in range(S.n) if S.kind(j) == 'Func' and S.region(j) == (S.region(k) if S.kind(k) in REFOF else S.region(j))]
        if not self.operand(k): return None
        j = S.ch.choose(('function around', k), [None] + o)
        if j is not None and S.E.discr(('t', 'kind', S.nodeof(j))) != S.nk['MODULE_FIELD_FUNC']: raise Prune
        return j
    def instr(self, k): return ('t', 'instr', k)
    def iname(self, k):
        kd = self.S.kind(k)
        if kd == 'Call': return self.S.ch.choose(('instruction', k), ['call', 'return_call'])
        return {'LocalRef': 'local.get', 'GlobalRef': 'global.get', 'BlockRef': 'br', 'TableRef': 'table.get', 'MemoryRef': 'memory.size', 'TypeUse': 'call_indirect'}[kd]
    def parent(self, E, g):
        x = self.un(g[2])
        if x[1] == 'symnode' and self.isref(x[2]): return some(self.instr(x[2]))
    def kind(self, E, g):
        x = self.un(g[2])
        if x[1] == 'instr': return ('adt', KIND, self.names.index('PLAIN_INSTR' if self.operand(x[2]) else 'EXPORT_DESC_FUNC'), ())
        if x[1] == 'iname': return ('adt', KIND, self.names.index('INSTR_NAME'), ())
        if x[1] == 'plainnode': return ('adt', KIND, self.names.index(self.between()), ())
        if x[1] == 'plainname': return ('adt', KIND, self.names.index('INSTR_NAME'), ())
    def depth(self):
        many = max(self.E.lits | {0}) + 2
        return self.S.ch.choose('depth', [1] + ([many] if self.S.n < many < 300 else []))
    def between(self):
        """what stands between a call and its function: a block, a branch of an if, another instruction"""
        d = self.S.nk
        return self.S.ch.choose('around', ['BLOCK_BLOCK'] + [k for k in ('BLOCK_LOOP', 'BLOCK_IF', 'BLOCK_IF_THEN', 'BLOCK_IF_ELSE', 'PLAIN_INSTR', 'OPERAND') if d.get(k) in self.E.kinds])
    def text(self, E, g):
        if g[2][1] == 'plainname': return ('s', self.S.ch.choose('instruction around', ['call', 'i32.add']))
        if g[2][1] == 'iname': return ('s', self.iname(g[2][2]))
    def into_token(self, E, g):
        if g[2][1] in ('iname', 'plainname'): return some(g[2])
        if g[2][1] in ('symnode', 'instr', 'plainnode'): return NONE
    def into_node(self, E, g):
        if g[2][1] in ('iname', 'plainname'): return NONE
        if g[2][1] in ('symnode', 'instr', 'plainnode'): return some(g[2])
    def token(self, E, g):
        x = self.un(g[2])
        if x[1] == 'instr': return some(('t', 'iname', x[2])) if g[3][2] == self.names.index('INSTR_NAME') and self.operand(x[2]) else NONE
        if x[1] == 'plainnode': return some(('t', 'plainname')) if g[3][2] == self.names.index('INSTR_NAME') and self.between() == 'PLAIN_INSTR' else NONE
    def ancestors(self, E, v):
        x = self.un(v[2])
        if x[1] != 'symnode' or not self.isref(x[2]): raise Stuck('ancestors')
        f = self.enclosing(x[2])
        return [x, self.instr(x[2])] + [('t', 'plainnode', i) for i in range(self.depth())] + ([self.S.nodeof(f)] if f is not None else [])
    def descendants(self, E, v):
        x = self.un(v[2])
        if x[1] != 'symnode': raise Stuck('descendants')
        out = [x] + [('t', 'plainnode', i) for i in range(self.depth())]
        for k in range(self.S.n):
            if self.isref(k) and self.enclosing(k) == x[2]: out += [self.instr(k), self.S.nodeof(k)]
        return out
    def children(self, E, v):
        x = self.un(v[2])
        if x[1] == 'instr': return [self.S.nodeof(x[2])]
        if x[1] == 'plainnode': return []
    def elements(self, E, v):
        x = self.un(v[2])
        if x[1] == 'instr': return ([('t', 'iname', x[2])] if self.operand(x[2]) else []) + [self.S.nodeof(x[2])]
        if x[1] == 'plainnode': return [('t', 'plainname')] if self.between() == 'PLAIN_INSTR' else []

def prune(S):
    S.uniquenames()

def answer(F, S, v, call):
    """list of (item, range) pairs"""
    if v == NONE: return ('vec', ())
    if v[0] == 'adt' and v[1] == OPT: v = v[3][0]
    if v[0] != 'vec': raise Stuck('answer')
    out = []
    for x in v[1]:
        if not call: out.append(rditem(F, S, x)); continue
        f = F.adts[x[1]]['v'][0]['f']; g = dict(zip(f, x[3]))
        it = rditem(F, S, g['from' if 'from' in g else 'to']); r = g['from_ranges']
        if r[0] != 'vec': raise Stuck('ranges')
        out += [('tup', (it, y)) for y in r[1]] or [('tup', (it, ('s', 'nowhere')))]
    return ('vec', tuple(out))

def run(F, R, meth, key, spec, args, short_, call, cur=None):
    N = Names(F)
    body = svc.method(F, meth)
    I, paths = summarise(F, body, [('t', 'params')], models={LSPR: asked})
    R.sites |= I.analysed
    rows = 0
    for n in (1, 2, 3):
        T = Table(F, I, paths, URI, n, limit=200000, short=short_)
        def setup(S):
            S.world = World(S)
            if cur is not None: S.cursor = cur
            old = S.E.ophook['eq']; A = ('t', 'TARGETRANGE')
            S.E.ophook['asked'] = lambda E, g: some(A) if target(S) != 'bad range' else NONE
            def h_eq(E, x, y):
                for p, q in ((x, y), (y, x)):
                    if p == A and q[0] == 't' and q[1] == 'range':
                        if q[2][1] != 'symnode': raise Stuck('range of')
                        return q[2][2] == target(S)
                return old(E, x, y)
            S.E.ophook['eq'] = h_eq
        T.setup = setup
        def norm(E, v): return answer(F, T.S0, v, call)
        def sp(S):
            T.S0 = S
            return spec(N, S)
        bad = T.run(sp, norm, prune=prune)
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): in the situation [%s] the answer is %s, expected %s' % (body.path, body.file, bad[0][0][:500], str(bad[0][1])[:300], str(bad[0][2])[:300])); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def target(S): return S.ch.choose('item asked about', ['bad range', 'other'] + list(range(S.n)))

def calls(N, S):
    """[(caller, call, callee)]"""
    out = []
    for c in range(S.n):
        if S.kind(c) != 'Call': continue
        f = S.world.enclosing(c)
        if f is None: continue
        for d in S.resolves(c): out.append((f, c, d))
    return out

# --- whole documents ---------------------------------------------------------
DOCS = [
 '(module (func $f (call $g) (call $h)) (func $g (call $f (call $h (call $g)))) (func $h))',
 '(module (func $f (block $a (loop $b (call $g) (br $b)) (call $f)) (call $g)) (func $g))',
 '(module (func $f (if (call $c) (then (call $g)) (else (call $h (call $g))))) (func $g) (func $h) (func $c))',
 '(module (func (call 1) (drop (i32.add (call 1) (call 0)))) (func (result i32) (call 0) (call 1)))',
 '(module (export "e" (func $f)) (start $f) (func $f (call $g)) (func $g (call $nowhere) (block (block (block (call $g) (call $f))))))',
 '(module (func $f call $g block call $h end call $f) (func $g) (func $h loop call $f end call $g))',
 '(module (func $f (param i32) (call $f (local.get 0)) (global.get $g) (call 1)) (global $g i32 (i32.const 0)) (func $x (call 0)))',
 '(module (func $f (call $g) (call $h)) (func $g (call 0))) (module (func $g (call $f) (call 1)) (func $h (call $g) (loop (call 1))))',
]

def documents(F, R):
    """calls of whole documents: every function of every document is asked about"""
    import world, doc, checks.p21 as p21
    X = p21.Expect(F)
    def funcs(W): return [el for el in W.desc(('t', 'el', 0)) if not W.istoken(el) and W.kind(el) == 'MODULE_FIELD_FUNC']
    trees = [doc.read(t) for t in DOCS]
    class C: pass
    for meth, key, adt in (('call_hierarchy_incoming_calls', 'incoming:documents', 'CallHierarchyIncomingCallsParams'), ('call_hierarchy_outgoing_calls', 'outgoing:documents', 'CallHierarchyOutgoingCallsParams')):
        try:
            body = svc.method(F, meth)
            I, paths = summarise(F, body, [('t', 'params')], models={LSPR: asked})
            R.sites |= I.analysed
            D = C()
            def asked_(W): 
                fs = funcs(W); return W.E.ch.choose('function asked about', range(len(fs)))
            def setup(E, W):
                D.S = doc.Symbols(W); D.W = W
                def wrap(d, op, h):
                    old = d.get(op)
                    def g(*a):
                        r = h(*a)
                        return r if r is not None or old is None else old(*a)
                    d[op] = g
                wrap(E.ophook, 'q', lambda E, g: D.S.table() if g[2] == 'symbol_table' else ('t', 'el', 0) if g[2] == 'root' else None)
                wrap(E.ophook, 'asked', lambda E, g: some(('t', 'range', funcs(W)[asked_(W)])))
                def eq(E, x, y):
                    if x[:2] == ('t', 'el') and y[:2] == ('t', 'el'): return x == y
                    if x[:2] == ('t', 'range') and y[:2] == ('t', 'range') and x[2][:2] == ('t', 'el') == y[2][:2]:
                        return span(W, x[2]) == span(W, y[2])
                wrap(E.ophook, 'eq', eq)
            def span(W, el):
                ts = [t for t in W.desc(el) if W.istoken(t)]
                return (ts[0][2], ts[-1][2]) if ts else (el[2], el[2])
            def norm(E, v):
                a = v
                if a == NONE: return ('vec', ())
                if a[0] == 'adt' and a[1] == OPT: a = a[3][0]
                if a[0] != 'vec': raise Stuck('answer')
                out = []
                for x in a[1]:
                    g = dict(zip(F.adts[x[1]]['v'][0]['f'], x[3]))
                    it = g['from' if 'from' in g else 'to']; it = dict(zip(F.adts[it[1]]['v'][0]['f'], it[3]))
                    if g['from_ranges'][0] != 'vec': raise Stuck('ranges')
                    out += [('tup', (it['range'], r)) for r in g['from_ranges'][1]]
                return ('vec', tuple(out))
            def spec(W):
                li = None
                t = funcs(W)[asked_(W)]
                out = []
                for r in D.S.rows():
                    if r[2] != 'Call' or W.kind(r[0]) != 'OPERAND': continue
                    d = D.S.definition(r[0]); f = D.S.up(r[0], ('MODULE_FIELD_FUNC',))
                    if d is None or f is None: continue
                    if key[0] == 'i' and d[0] == t: out.append(('tup', (at(f), at(W.parent(r[0])))))
                    if key[0] == 'o' and f == t: out.append(('tup', (at(d[0]), at(W.parent(r[0])))))
                return ('vec', tuple(sorted(out, key=lambda x: x[1][1])))
            LI = Q('line_index', URI)
            N = Names(F)
            def at(el): return N.range(LI, ('t', 'range', el))
            it = N.fld(('t', 'params'), adt, 'item'); u = N.fld(it, 'CallHierarchyItem', 'uri')
            def norm2(E, v):
                v = norm(E, v)
                return ('vec', tuple(sorted(v[1], key=lambda x: str(x[1][1]))))
            def spec2(W):
                v = spec(W); return ('vec', tuple(sorted(v[1], key=lambda x: str(x[1][1]))))
            rows, bad = world.run(F, I, paths, trees, spec2, norm2, short={Q('uri', u): URI, u: REQ}, setup=setup, plain=True)
            if bad:
                def show(v): 
                    import re
                    return ', '.join(sorted(set(re.findall(r"'el', (\d+)", str(v))))) or 'none'
                R.bad(key, '%s (%s): in %s the calls answered (elements %s) are not the calls of the document (elements %s)' % (body.path, body.file, bad[0][0][:300], show(bad[0][1]), show(bad[0][2])))
            else: R.ok(key, {'function': body.path, 'paths': len(paths), 'documents': len(trees), 'rows': rows}); R.count('documents', rows)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:300]))

def check(F, R):
    R.rule('the call-hierarchy handlers are summarised by abstract interpretation of their MIR and tabulated over all combinations of up to 3 symbols, the functions around them and the function asked about')
    N = Names(F)
    def attempt(f, key):
        try: f()
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, e))
    def prep():
        u0, uri0, cur0 = request(N, ('t', 'params'), 'CallHierarchyPrepareParams', 'text_document_position_params')
        tok = N.opt(CUR)
        def spec(N, S):
            E = S.E
            if E.discr(CUR, OPT) == 0 or E.discr(('t', 'parent', tok), OPT) == 0: return ('vec', ())
            node = S.cursornode()
            if node[1] != 'symnode': return ('vec', ())
            i = node[2]
            l = [i] if S.kind(i) == 'Func' else S.resolves(i) if S.kind(i) == 'Call' else []
            return ('vec', tuple(item(N, S, URI, REQ, k) for k in l))
        run(F, R, 'prepare_call_hierarchy', 'prepare', spec, None, {cur0: CUR, uri0: URI, u0: REQ}, False, tok)
    def params(adt):
        it = N.fld(('t', 'params'), adt, 'item')
        u = N.fld(it, 'CallHierarchyItem', 'uri')
        return {Q('uri', u): URI, u: REQ}
    def inc():
        def spec(N, S):
            t = target(S)
            if t in ('bad range', 'other') or S.kind(t) != 'Func': return ('vec', ())
            li = Q('line_index', URI)
            return ('vec', tuple(('tup', (item(N, S, URI, REQ, f), N.range(li, ('t', 'range', S.world.instr(c))))) for f, c, d in calls(N, S) if d == t))
        run(F, R, 'call_hierarchy_incoming_calls', 'incoming', spec, None, params('CallHierarchyIncomingCallsParams'), True)
    def out():
        def spec(N, S):
            t = target(S)
            if t in ('bad range', 'other') or S.kind(t) != 'Func': return ('vec', ())
            li = Q('line_index', URI)
            return ('vec', tuple(('tup', (item(N, S, URI, Q('lookup_uri', URI), d), N.range(li, ('t', 'range', S.world.instr(c))))) for f, c, d in calls(N, S) if f == t))
        run(F, R, 'call_hierarchy_outgoing_calls', 'outgoing', spec, None, params('CallHierarchyOutgoingCallsParams'), True)
    for f, k in ((prep, 'prepare'), (inc, 'incoming'), (out, 'outgoing')): attempt(f, k)
    documents(F, R)
    cursor.run(F, R, 'premise:')
    p09.run(F, R, 'premise:')
