"""Decision-table columns for symbol tables: symbols with key, region, kind, number, name; enclosing-block table."""
from absint import *
from ev import *

DEFS = ('Func', 'Param', 'Local', 'Type', 'GlobalDef', 'MemoryDef', 'TableDef', 'BlockDef')
FIELD = {'Func': 'Call', 'Type': 'TypeUse', 'GlobalDef': 'GlobalRef', 'MemoryDef': 'MemoryRef', 'TableDef': 'TableRef'}
REFOF = {v: k for k, v in FIELD.items()}
REFS = tuple(REFOF) + ('LocalRef', 'BlockRef')
SI = 'wat_service::binder::SymbolItem'
SK = 'wat_service::binder::SymbolItemKind'
ST = 'wat_service::binder::SymbolTable'
IDX = 'wat_service::idx::Idx'
KEY = 'wat_service::binder::SymbolItemKey'
KIND = 'wat_syntax::kind::SyntaxKind'

NODEKINDS = {'Module': ('MODULE',), 'Func': ('MODULE_FIELD_FUNC', 'IMPORT_DESC_TYPE_USE'), 'Param': ('PARAM', 'VAL_TYPE'), 'Local': ('LOCAL', 'VAL_TYPE'), 'Type': ('MODULE_FIELD_TYPE',),
             'GlobalDef': ('MODULE_FIELD_GLOBAL', 'IMPORT_DESC_GLOBAL_TYPE'), 'MemoryDef': ('MODULE_FIELD_MEMORY', 'IMPORT_DESC_MEMORY_TYPE'), 'TableDef': ('MODULE_FIELD_TABLE', 'IMPORT_DESC_TABLE_TYPE'),
             'BlockDef': ('BLOCK_BLOCK', 'BLOCK_IF', 'BLOCK_LOOP'), 'Call': ('OPERAND', 'INDEX'), 'LocalRef': ('OPERAND',), 'TypeUse': ('INDEX',), 'GlobalRef': ('OPERAND', 'INDEX'),
             'MemoryRef': ('INDEX',), 'TableRef': ('OPERAND', 'INDEX'), 'BlockRef': ('OPERAND',)}

FAMILIES = [('Func', 'Call', 'Module'), ('Type', 'TypeUse', 'Module'), ('GlobalDef', 'GlobalRef', 'Module'), ('MemoryDef', 'MemoryRef', 'Module'), ('TableDef', 'TableRef', 'Module'), ('Param', 'Local', 'LocalRef', 'Func'), ('BlockDef', 'BlockRef')]

def space(k):
    """scope level of the region of a symbol of kind k"""
    if k == 'Module': return 'root'
    if k in ('Param', 'Local', 'LocalRef'): return 'func'
    if k in ('BlockDef', 'BlockRef'): return 'block'
    return 'module'

class Sym:
    """installs the columns in an evaluator"""
    def __init__(self, E, n, uri):
        self.E = E; self.n = n; self.ch = E.ch; F = self.F = E.F
        self.uri = uri
        self.fields = F.adts[SI]['v'][0]['f']
        self.tfields = F.adts[ST]['v'][0]['f']
        self.ifields = F.adts[IDX]['v'][0]['f']
        self.kinds = [v['n'] for v in F.adts[SK]['v']]
        self.nk = {v['n']: v['d'] for v in F.adts[KIND]['v']}
        E.fldhook['q'] = self.f_q
        E.fldhook['sym'] = self.f_sym
        E.fldhook['idx'] = self.f_idx
        E.srchook['symbols'] = lambda E, v: [('t', 'sym', i) for i in range(self.n)]
        E.srchook['blocks'] = lambda E, v: self.blocks()
        E.fldhook['as'] = self.f_as
        E.ophook['node'] = self.o_node
        E.ophook['eq'] = self.h_eq
        E.ophook['discr'] = self.h_discr
        E.ophook['range'] = self.o_range
        E.ophook['order'] = self.o_order
        old = E.ophook.get('call')
        if not hasattr(E, 'outercall'): E.outercall = old
        E.ophook['call'] = self.o_call
        E.ophook['token'] = self.o_token
        E.ophook['text'] = self.o_text
        E.ophook['into_token'] = self.o_into_token
        E.ophook['into_node'] = self.o_into_node
        E.srchook['elements'] = self.s_elements
        E.srchook['children'] = self.s_children
        self.tokens = False       # model identifiers of a symbol as tokens (rename) or leave them opaque
        self.cursor = None
        self.itab = {}
    def T(self, t):
        """a term of a specification, in the form the formulas use"""
        t = self.itab.setdefault(t, t)
        return self.E.ev(t, {})
    # ---- identifiers of a symbol: its own, and for blocks those repeated after `else` and `end`
    def o_token(self, E, g):
        if not self.tokens: return
        n, k = g[2], g[3]
        if n[0] == 't' and n[1] == 'symnode' and k[0] == 'adt' and self.F.adts[KIND]['v'][k[2]]['n'] == 'IDENT':
            return some(('t', 'identtok', n[2])) if self.name(n[2]) != NONE else NONE
    def o_text(self, E, g):
        x = g[2]
        if x[0] == 't' and x[1] == 'identtok': return self.name(x[2])[3][0]
        if x[0] == 't' and x[1] == 'labeltok': return self.ch.choose(('label', x), [self.name(x[2])[3][0] if self.name(x[2]) != NONE else ('t', 'name', 90), ('t', 'name', 91)])
        if self.tokens and self.cursor is not None and x == self.cursor:
            n = self.cursornode()
            if n[1] == 'symnode' and self.name(n[2]) != NONE: return self.name(n[2])[3][0]
            return ('t', 'name', 92)
    def o_into_token(self, E, g):
        x = g[2]
        if x[0] == 't' and x[1] in ('identtok', 'labeltok', 'othertok'): return some(x)
        if x[0] == 't' and x[1] in ('elsenode', 'childnode', 'symnode', 'othernode', 'regnode'): return NONE
    def o_into_node(self, E, g):
        x = g[2]
        if x[0] == 't' and x[1] in ('identtok', 'labeltok', 'othertok'): return NONE
        if x[0] == 't' and x[1] in ('elsenode', 'childnode', 'symnode', 'othernode', 'regnode'): return some(x)
    def s_elements(self, E, v):
        x = v[2]
        if not self.tokens or x[0] != 't': return
        if x[1] == 'symnode':
            k = x[2]; out = [('t', 'othertok', x)]
            if self.name(k) != NONE: out.append(('t', 'identtok', k))
            if self.kind(k) == 'BlockDef': out += self.parts(k) + [('t', 'labeltok', k, 'end')]
            return out
        if x[1] == 'elsenode': return [('t', 'othertok', x), ('t', 'labeltok', x[2], 'else')]
        if x[1] == 'childnode': return [('t', 'othertok', x), ('t', 'labeltok', x[2], 'inner')]
    def s_children(self, E, v):
        x = v[2]
        if not self.tokens or x[0] != 't': return
        if x[1] == 'symnode': return self.parts(x[2]) if self.kind(x[2]) == 'BlockDef' else []
        if x[1] in ('elsenode', 'childnode'): return []
    def parts(self, k):
        return [('t', 'childnode', k)] + ([('t', 'elsenode', k)] if self.ch.choose(('else', k), (False, True)) else [])
    def occurrences(self, k):
        """tokens that write the name of symbol k"""
        if self.name(k) == NONE: return []
        out = [('t', 'identtok', k)]
        if self.kind(k) == 'BlockDef':
            ls = [('t', 'labeltok', k, 'end')] + ([('t', 'labeltok', k, 'else')] if len(self.parts(k)) > 1 else [])
            out += [l for l in ls if self.o_text(self.E, ('t', 'text', l)) == self.name(k)[3][0]]
        return out
    def f_q(self, E, v, i):
        if v[2] == 'symbol_table':
            if v[3] != self.uri: raise Stuck('symbol table of another document')
            return ('t', 'symbols') if self.tfields[i] == 'symbols' else ('t', 'blocks')
        if v[2] == 'parser_result' and i == 0: return None
    def f_sym(self, E, v, i):
        f = self.fields[i]; k = v[2]
        if f == 'key': return self.key(k)
        if f == 'region': return self.region(k)
        if f == 'kind': return self.kindv(k)
        if f == 'idx': return ('t', 'idx', k)
        return ('t', 'fld', v, i)
    def f_idx(self, E, v, i):
        return self.num(v[2]) if self.ifields[i] == 'num' else self.name(v[2])
    def nodeof(self, k): return ('t', 'symnode', k)
    def keyof(self, node): return ('adt', KEY, 0, (('t', 'ptr', node),))
    def key(self, k): return self.keyof(self.nodeof(k))
    def kind(self, k):
        if self.n > 2:   # kinds of different name spaces are tabulated against each other with two symbols
            return self.ch.choose(('kind', k), self.ch.choose('family', FAMILIES))
        return self.ch.choose(('kind', k), self.kinds)
    def kindv(self, k): return ('t', 'skind', k)
    def region(self, k):
        """a node that is another symbol of the fitting kind, or some other node"""
        sp = space(self.kind(k))
        opts = []
        for j in range(self.n):
            if j < k and {'module': 'Module', 'func': 'Func', 'block': 'BlockDef', 'root': None}[sp] == self.kind(j): opts.append(('t', 'symnode', j))
        used = [x for x in self.ncls(sp)]
        opts += used
        nw = ('t', 'regnode', sp, len(used))
        if sp != 'root' or not used: opts.append(nw)
        r = self.ch.choose(('region', k), opts)
        if r == nw and nw not in used: self.ncls(sp).append(nw)
        return self.keyof(r)
    def regnode(self, k): return self.region(k)[3][0][2]
    def ncls(self, sp): return self.E.ncls.setdefault(('reg', sp), [])
    def num(self, k):
        kd = self.kind(k)
        if kd == 'Module': return NONE
        if kd == 'BlockDef': return some(('i', 0))
        if kd in DEFS:
            return some(('i', self.ch.choose(('num', k), (0, 1, 2))))
        if self.ch.choose(('byname', k), (True, False)): return NONE
        return some(('i', self.ch.choose(('num', k), (0, 1, 2))))
    def name(self, k):
        kd = self.kind(k)
        if kd == 'Module': return NONE
        if kd in DEFS:
            if not self.ch.choose(('named', k), (True, False)): return NONE
        elif not self.ch.choose(('byname', k), (True, False)): return NONE
        return some(self.nm(k))
    def nm(self, k):
        used = self.E.ncls.setdefault('names', [])
        if ('nm', k) in self.ch.asg: return self.ch.asg[('nm', k)]
        opts = used + [('t', 'name', len(used))]
        r = self.ch.choose(('nm', k), opts[:3])
        if r not in used: used.append(r)
        return r
    # enclosing blocks of a reference, innermost first
    def chain(self, k):
        defs = [j for j in range(k) if self.kind(j) == 'BlockDef']
        opts = [()]
        for j in defs: opts.append((j,))
        for j in defs:
            for i in defs:
                if i < j: opts.append((j, i))
        opts = [o for o in opts if self.laminar(o)]
        return self.ch.choose(('chain', k), opts)
    def laminar(self, o): return True
    def blocks(self):
        out = []
        for k in range(self.n):
            if self.kind(k) == 'BlockRef':
                for lvl, j in enumerate(self.chain(k)):
                    out.append(('tup', (self.key(k), self.key(j), ('adt', IDX, 0, tuple(some(('i', lvl)) if f == 'num' else self.name(j) for f in self.ifields)))))
        return out
    def f_as(self, E, v, i):
        x = v[2]
        if x[0] == 't' and x[1] == 'parent' and self.cursor is not None and x[2] == self.cursor: return self.cursornode()
    def cursornode(self):
        return self.ch.choose('cursor', [('t', 'symnode', i) for i in range(self.n)] + [('t', 'othernode',)])
    def o_node(self, E, g):
        p = g[2]
        if p[0] == 'adt' and p[1] == KEY: p = p[3][0]
        if p[0] == 't' and p[1] == 'ptr': return p[2]
    def o_range(self, E, g):
        if g[2][0] == 't' and g[2][1] == 'ptr': return ('t', 'range', g[2][2])
    # ---- positions in the text: symbols are listed in the order of the text, scope by scope
    def inside(self, x, y):
        """is node x properly inside node y"""
        seen = 0
        while x[1] == 'symnode':
            x = self.regnode(x[2]); seen += 1
            if x == y: return True
            if seen > self.n: raise Prune
        return False
    def first(self, x):
        if x[1] == 'symnode': return x[2]
        l = [k for k in range(self.n) if self.inside(self.nodeof(k), x)]
        if not l: raise Stuck('place of an unknown node')
        return l[0]
    def place(self, v):
        if v[0] == 't' and v[1] in ('start', 'end') and v[2][0] == 't' and v[2][1] == 'range' and v[2][2][0] == 't' and v[2][2][1] in ('symnode', 'regnode'): return v[1], v[2][2]
    def apart(self, x, y):
        """-1 if x ends before y starts, 1 if y ends before x starts, else 'in' (x inside y) or 'out' (y inside x)"""
        if self.inside(x, y): return 'in'
        if self.inside(y, x): return 'out'
        for n in (x, y):
            if n[1] == 'regnode' and n[2] in ('block', 'root'): raise Stuck('place of an unknown node')
        if x[1] == y[1] == 'symnode' and self.sameregion(x[2], y[2]) and self.kind(x[2]) != self.kind(y[2]): raise Stuck('order of symbols of different kinds')
        if space(self.kind(self.first(x))) != space(self.kind(self.first(y))): raise Stuck('order of symbols of different scopes')
        i, j = self.first(x), self.first(y)
        if i == j: raise Stuck('place of an unknown node')
        # the symbols of a scope are listed together
        for u, v in ((x, y), (y, x)):
            ru = u if u[1] == 'regnode' else self.regnode(u[2]); rv = v if v[1] == 'regnode' else self.regnode(v[2])
            if ru != rv:
                lu = [k for k in range(self.n) if self.regnode(k) == ru]; lv = [k for k in range(self.n) if self.regnode(k) == rv]
                if lu and lv and not (lu[-1] < lv[0] or lv[-1] < lu[0]): raise Prune
        return -1 if i < j else 1
    def o_order(self, E, x, y):
        p, q = self.place(x), self.place(y)
        if p is None or q is None:
            if p is not None or q is not None: raise Stuck('order of places')
            return None
        if p[1] == q[1]: return (p[0] == 'end') - (q[0] == 'end')
        r = self.apart(p[1], q[1])
        if r == 'in': return 1 if q[0] == 'start' else -1
        if r == 'out': return -1 if p[0] == 'start' else 1
        return r
    def o_call(self, E, g):
        if E.outercall is not None:
            r = E.outercall(E, g)
            if r is not None: return r
        f = g[2]
        if f.startswith('text_size::range::TextRange::contains') and len(g) == 5:
            x, y = g[3], g[4]
            p = x[2] if x[0] == 't' and x[1] == 'range' else None
            if p is None or p[0] != 't' or p[1] not in ('symnode', 'regnode'): return None
            if f.endswith('::contains_range'):
                q = y[2] if y[0] == 't' and y[1] == 'range' else None
                if q is None or q[0] != 't' or q[1] not in ('symnode', 'regnode'): return None
                return b(p == q or self.apart(q, p) == 'in')
            q = self.place(y)
            if q is None: return None
            lo, hi = self.o_order(E, ('t', 'start', x), y), self.o_order(E, y, ('t', 'end', x))
            return b(lo <= 0 and (hi < 0 or hi == 0 and f.endswith('_inclusive')))
        return None
    def h_discr(self, E, v):
        if self.n > 2 and v[0] == 't' and v[1] == 'token': return 1   # where a symbol is shown is tabulated with up to two symbols
        if v[0] == 't' and v[1] == 'skind': return self.F.adts[SK]['v'][self.kinds.index(self.kind(v[2]))]['d']
        if v[0] == 't' and v[1] == 'kind' and v[2][0] == 't' and v[2][1] == 'symnode':
            o = NODEKINDS[self.kind(v[2][2])]
            if self.n > 2 and self.ch.asg.get('cursor') != v[2]: o = o[:1]
            return self.nk[self.ch.choose(('nodekind', v[2][2]), o)]
        if v[0] == 't' and v[1] == 'kind' and v[2][0] == 't':
            x = v[2][1]
            if x in ('identtok', 'labeltok'): return self.nk['IDENT']
            if x == 'othertok': return self.nk['KEYWORD']
            if x == 'elsenode': return self.nk['BLOCK_IF_ELSE']
            if x == 'childnode': return self.nk['BLOCK_IF_THEN'] if 'BLOCK_IF_THEN' in self.nk else self.nk['INSTR']
        if v[0] == 't' and v[1] == 'kind' and v[2][0] == 't' and v[2][1] == 'ptr': return E.discr(('t', 'kind', v[2][2]))
    def h_eq(self, E, x, y):
        for p, q in ((x, y), (y, x)):
            if p[0] == 't' and p[1] in ('symnode', 'regnode', 'othernode') and q[0] == 't' and q[1] in ('symnode', 'regnode', 'othernode'): return p == q
            if p[0] == 't' and q[0] == 't' and p[1] == 'ptr' and q[1] == 'ptr': return E.eq(p[2], q[2])
            if p[0] == 't' and q[0] == 't' and p[1] == 'name' and q[1] == 'name': return p == q
        if x[0] == 't' and y[0] == 't':
            if x[1] == 'skind' and y[1] == 'skind': return self.kind(x[2]) == self.kind(y[2])
            if x[1] == 'idx' and y[1] == 'idx': return E.eq(self.num(x[2]), self.num(y[2])) and E.eq(self.name(x[2]), self.name(y[2]))
            if x[1] == 'sym' and y[1] == 'sym': return x == y
    # ---- vocabulary for specifications
    def sameregion(self, i, j): return self.E.eq(self.region(i), self.region(j))
    def matches(self, r, d):
        """does the index of reference r denote definition d"""
        nr = self.num(r)
        if nr != NONE: return nr == self.num(d)
        return self.name(d) != NONE and self.name(r) == self.name(d)
    def resolves(self, r):
        """definitions a reference denotes"""
        k = self.kind(r)
        if k in REFOF: return [d for d in range(self.n) if self.kind(d) == REFOF[k] and self.sameregion(r, d) and self.matches(r, d)]
        if k == 'LocalRef': return [d for d in range(self.n) if self.kind(d) in ('Param', 'Local') and self.sameregion(r, d) and self.matches(r, d)][:1]
        if k == 'BlockRef':
            for lvl, j in enumerate(self.chain(r)):
                if self.num(r) != NONE:
                    if self.num(r) == some(('i', lvl)): return [j]
                elif self.name(j) != NONE and self.name(j) == self.name(r): return [j]
        return []
    def wellformed(self):
        """facts every symbol table satisfies (established by the symbol-table property)"""
        for i in range(self.n):
            a = self.ch.asg
            for j in range(i):
                if ('num', i) in a and ('num', j) in a and a.get(('kind', i)) in DEFS and a.get(('kind', j)) in DEFS and a[('num', i)] == a[('num', j)]:
                    if space(a[('kind', i)]) == space(a[('kind', j)]) and ('region', i) in a and ('region', j) in a and a[('region', i)] == a[('region', j)]: raise Prune
    def uniquenames(self):
        for i in range(self.n):
            a = self.ch.asg
            for j in range(i):
                if ('nm', i) in a and a.get(('nm', i)) == a.get(('nm', j)) and a.get(('kind', i)) in DEFS and a.get(('kind', j)) in DEFS:
                    if a[('kind', i)] == a[('kind', j)] or {a[('kind', i)], a[('kind', j)]} == {'Param', 'Local'}:
                        if a.get(('region', i)) == a.get(('region', j)): raise Prune

def describe(S, asg):
    out = []
    for i in range(S.n):
        kd = asg.get(('kind', i))
        if kd is None: continue
        s = '%s#%d' % (kd, i)
        if ('region', i) in asg: s += ' in ' + ':'.join(str(x) for x in asg[('region', i)][1:])
        if asg.get(('byname', i)) is False or ('num', i) in asg: s += ' num=%s' % asg.get(('num', i))
        if ('nm', i) in asg: s += ' name=%s' % asg[('nm', i)][2]
        if ('chain', i) in asg: s += ' inside blocks %s' % (asg[('chain', i)],)
        out.append(s)
    rest = [(k, v) for k, v in asg.items() if not (isinstance(k, tuple) and k and k[0] in ('kind', 'region', 'num', 'nm', 'byname', 'named', 'chain'))]
    for k, v in rest: out.append('%s=%s' % (short(k), short(v)))
    return '; '.join(out)
def short(x):
    s = str(x)
    return s if len(s) < 90 else s[:87] + '...'
