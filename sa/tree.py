"""Decision-table columns for syntax trees: generic nodes whose surroundings are enumerated lazily.

A node is ('t','n',KIND,path), a token ('t','tk',KIND,path).  What can occur around a node follows the grammar of the
parser (templates below); which of the alternatives is present, and every text, is a column of the table.
"""
import astk
from absint import *
from ev import *
KIND = 'wat_syntax::kind::SyntaxKind'

DEFKIND = {'MODULE_FIELD_FUNC': 'Func', 'IMPORT_DESC_TYPE_USE': 'Func', 'MODULE_FIELD_TYPE': 'Type', 'MODULE_FIELD_GLOBAL': 'GlobalDef', 'IMPORT_DESC_GLOBAL_TYPE': 'GlobalDef',
           'MODULE_FIELD_MEMORY': 'MemoryDef', 'IMPORT_DESC_MEMORY_TYPE': 'MemoryDef', 'MODULE_FIELD_TABLE': 'TableDef', 'IMPORT_DESC_TABLE_TYPE': 'TableDef'}
BLOCKS = ('BLOCK_BLOCK', 'BLOCK_LOOP', 'BLOCK_IF')
FUNC = ('MODULE_FIELD_FUNC', 'MODULE', 'ROOT')

def above(kind):
    """kinds of the ancestors, innermost first"""
    if kind == 'ROOT': return [()]
    if kind == 'MODULE': return [('ROOT',)]
    if kind.startswith('MODULE_FIELD_'): return [('MODULE', 'ROOT')]
    if kind.startswith('IMPORT_DESC_'): return [('MODULE_FIELD_IMPORT', 'MODULE', 'ROOT')]
    if kind.startswith('EXPORT_DESC_'): return [('MODULE_FIELD_EXPORT', 'MODULE', 'ROOT')]
    if kind in ('PARAM', 'RESULT'): return [('TYPE_USE',) + FUNC, ('FUNC_TYPE', 'MODULE_FIELD_TYPE', 'MODULE', 'ROOT'), ('TYPE_USE', 'BLOCK_TYPE', 'BLOCK_LOOP') + FUNC, ('TYPE_USE', 'IMPORT_DESC_TYPE_USE', 'MODULE_FIELD_IMPORT', 'MODULE', 'ROOT')]
    if kind == 'FUNC_TYPE': return [('MODULE_FIELD_TYPE', 'MODULE', 'ROOT')]
    if kind == 'LOCAL': return [FUNC]
    if kind == 'TYPE_USE': return [FUNC, ('BLOCK_TYPE', 'BLOCK_BLOCK') + FUNC, ('IMPORT_DESC_TYPE_USE', 'MODULE_FIELD_IMPORT', 'MODULE', 'ROOT'), ('OPERAND', 'PLAIN_INSTR') + FUNC]
    if kind == 'TABLE_USE': return [('MODULE_FIELD_ELEM', 'MODULE', 'ROOT')]
    if kind == 'ELEM': return [('MODULE_FIELD_TABLE', 'MODULE', 'ROOT')]
    if kind == 'ELEM_LIST': return [('MODULE_FIELD_ELEM', 'MODULE', 'ROOT')]
    if kind == 'MEM_USE': return [('MODULE_FIELD_DATA', 'MODULE', 'ROOT')]
    if kind == 'PLAIN_INSTR': return [x + FUNC for x in NEST] + [('MODULE_FIELD_GLOBAL', 'MODULE', 'ROOT')]
    if kind in BLOCKS: return [x + FUNC for x in NEST]
    return [('MODULE', 'ROOT')]
NEST = ((), ('BLOCK_BLOCK',), ('BLOCK_LOOP', 'BLOCK_BLOCK'), ('BLOCK_IF_THEN', 'BLOCK_IF'), ('OPERAND', 'PLAIN_INSTR'), ('BLOCK_IF_ELSE', 'BLOCK_IF', 'BLOCK_LOOP'), ('OPERAND', 'PLAIN_INSTR', 'BLOCK_BLOCK'))

class Tree_:
    OPAQUE = {'kind', 'text', 'range', 'green', 'ptr', 'str', 'deref', 'q', 'into_token', 'into_node', 'fld', 'as', 'discr', 'not', 'bin', 'start', 'end', 'rlen', 'line_col', 'call', 'node'}
    def __init__(self, E, F):
        self.E = E; self.F = F; self.ch = E.ch
        a = F.adts[KIND]['v']
        self.nk = {v['n']: v['d'] for v in a}
        self.kn = [v['n'] for v in a]
        self.ast = astk.kinds(F)
        self.focuskinds = None
        self.pre = []
        self.instrs = ['nop']
        self.infold = 0
        for op in ('parent', 'token', 'into_token', 'into_node', 'child', 'cast', 'text', 'node', 'starts_with', 'ends_with', 'contains', 'syntax', 'first_child', 'last_child'): E.ophook[op] = getattr(self, 'o_' + op)
        for op in ('elements', 'children', 'ancestors', 'castchildren', 'descendants', 'parent_ancestors'): E.srchook[op] = getattr(self, 's_' + op)
        E.ophook['discr'] = self.h_discr
        E.ophook['eq'] = self.h_eq
        E.world = self
    # ---- nodes
    def focus(self):
        k = self.ch.choose('focus', self.focuskinds)
        return ('t', 'n', k, ('x',))
    def ups(self, n):
        """ancestors of n, innermost first, without n"""
        p = n[3]
        if len(p) == 1:
            ks = self.ch.choose(('above', p), self.chains if self.chains and p[0] == 'x' else above(n[2]))
            if p[0] != 'x': return [('t', 'n', k, ('up', p[0], len(ks) - i) if k not in ('MODULE', 'ROOT') else ('up', k)) for i, k in enumerate(ks)]
            return [('t', 'n', k, ('up', 'x', len(ks) - i) if k not in ('MODULE', 'ROOT') else ('up', k)) for i, k in enumerate(ks)]
        if p[0] == 'up':
            if n[2] == 'ROOT': return []
            if n[2] == 'MODULE': return [('t', 'n', 'ROOT', ('up', 'ROOT'))]
            base = ('t', 'n', self.ch.asg['focus'], ('x',)) if p[1] == 'x' else [q for q in self.pre if q[3] == (p[1],)][0]
            l = self.ups(base)
            return l[l.index(n) + 1:]
        par = self.par(n)
        return [par] + self.ups(par)
    def par(self, n):
        return self.parents[n]
    def node(self, parent, kind, *tag):
        n = ('t', 'n', kind, parent[3] + tag)
        self.parents[n] = parent
        return n
    def tk(self, parent, kind, *tag):
        n = ('t', 'tk', kind, parent[3] + tag)
        self.parents[n] = parent
        return n
    parents = {}
    chains = None
    thin = False      # only the bare minimum of children
    def opt(self, key, *opts):
        opts = opts or (False, True)
        return opts[0] if self.thin or key[1][3][0].startswith('pre') else self.ch.choose(key, opts)
    def elems(self, n):
        k = n[2]; c = lambda s, *o: self.opt((s, n), *o)
        T = lambda kind, *tag: self.tk(n, kind, *(tag or (kind,)))
        N = lambda kind, *tag: self.node(n, kind, *(tag or (kind,)))
        ident = lambda: [T('IDENT')] if c('ident') else []
        if n[3][0] == 'up':
            # only what concerns scopes is spelled out for ancestors
            if k in BLOCKS: return [T('KEYWORD')] + ident()
            if k in DEFKIND: return [T('L_PAREN'), T('KEYWORD')] + ident()
            if k == 'PLAIN_INSTR': return [T('L_PAREN'), T('INSTR_NAME')]
            raise Stuck('elements of an ancestor ' + k)
        if k == 'MODULE_FIELD_FUNC':
            return [T('L_PAREN'), T('KEYWORD')] + ident() + ([N('TYPE_USE')] if c('type_use') else []) + [N('LOCAL', 'LOCAL', i) for i in range(c('locals', 0, 1, 2))] + [T('R_PAREN')]
        if k == 'TYPE_USE':
            return ([T('L_PAREN'), T('KEYWORD'), N('INDEX'), T('R_PAREN')] if c('index') else []) + [N('PARAM', 'PARAM', i) for i in range(c('params', 0, 1, 2))] + ([N('RESULT')] if c('result') else [])
        if k in ('PARAM', 'LOCAL'):
            i = ident()
            return [T('L_PAREN'), T('KEYWORD')] + i + [N('VAL_TYPE', 'VAL_TYPE', j) for j in range(c('types', 0, 1, 2) if not i else c('types', 1, 0))] + [T('R_PAREN')]
        if k == 'RESULT': return [T('L_PAREN'), T('KEYWORD'), N('VAL_TYPE')] + [T('R_PAREN')]
        if k == 'VAL_TYPE': return [T(c('valtype', 'NUM_TYPE', 'REF_TYPE'))]
        if k == 'IMPORT_DESC_TYPE_USE': return [T('L_PAREN'), T('KEYWORD')] + ident() + ([N('TYPE_USE')] if c('type_use') else []) + [T('R_PAREN')]
        if k == 'MODULE': return [T('L_PAREN'), T('KEYWORD')] + ident()
        if k in DEFKIND: return [T('L_PAREN'), T('KEYWORD')] + ident() + ([N('FUNC_TYPE')] if k == 'MODULE_FIELD_TYPE' and c('func_type') else []) + [T('R_PAREN')]
        if k == 'FUNC_TYPE': return [T('L_PAREN'), T('KEYWORD')] + [N('PARAM', 'PARAM', i) for i in range(c('params', 0, 1, 2))] + ([N('RESULT')] if c('result') else []) + [T('R_PAREN')]
        if k in ('MODULE_FIELD_START', 'EXPORT_DESC_FUNC', 'EXPORT_DESC_GLOBAL', 'EXPORT_DESC_MEMORY', 'EXPORT_DESC_TABLE', 'TABLE_USE', 'MEM_USE'):
            return [T('L_PAREN'), T('KEYWORD')] + ([N('INDEX')] if c('index') else []) + [T('R_PAREN')]
        if k in ('ELEM', 'ELEM_LIST'): return [T('KEYWORD')] + [N('INDEX', 'INDEX', i) for i in range(c('indices', 0, 1, 2))]
        if k == 'INDEX': return [T(c('indextoken', 'IDENT', 'UNSIGNED_INT'))]
        if k == 'PLAIN_INSTR':
            return [T('L_PAREN'), T('INSTR_NAME')] + [N('OPERAND', 'OPERAND', i) for i in range(c('operands', 0, 1, 2))] + [T('R_PAREN')]
        if k == 'OPERAND':
            o = c('operand', 'IDENT', 'INT', 'FLOAT', 'PLAIN_INSTR')
            return [N('PLAIN_INSTR', 'PLAIN_INSTR') if o == 'PLAIN_INSTR' else T(o)]
        if k in BLOCKS:
            i = ident()
            e = [T('KEYWORD', 'end')] + ([T('IDENT', 'endlabel')] if i and c('endlabel') else [])
            if k == 'BLOCK_IF': return [T('KEYWORD')] + i + [N('BLOCK_IF_THEN')] + e
            return [T('KEYWORD')] + i + e
        if k in ('MODULE_FIELD_ELEM', 'MODULE_FIELD_DATA', 'MODULE_FIELD_IMPORT', 'MODULE_FIELD_EXPORT', 'ROOT', 'BLOCK_IF_THEN', 'BLOCK_IF_ELSE', 'GLOBAL_TYPE', 'ERROR', 'IMPORT', 'EXPORT'): return []
        raise Stuck('elements of ' + k)
    def isn(self, v): return v[0] == 't' and v[1] == 'n'
    def istk(self, v): return v[0] == 't' and v[1] == 'tk'
    def s_elements(self, E, v):
        if self.isn(v[2]): return self.elems(v[2])
    def s_children(self, E, v):
        if self.isn(v[2]): return [x for x in self.elems(v[2]) if x[1] == 'n']
    def s_ancestors(self, E, v):
        if self.isn(v[2]): return [v[2]] + self.ups(v[2])
    def s_parent_ancestors(self, E, v):
        if self.istk(v[2]): return [self.parents[v[2]]] + self.ups(self.parents[v[2]])
    def s_descendants(self, E, v):
        r = v[2]
        if r[0] == 't' and r[1] == 'newroot': return (self.pre if self.infold else []) + [self.focus()]
        raise Stuck('descendants of a node')
    def s_castchildren(self, E, v):
        if self.isn(v[2]):
            return [x for x in (self.castv(v[3], n) for n in self.s_children(E, v)) if x is not None]
    def castv(self, ty, n):
        if ty not in self.ast: raise Stuck('AST type ' + ty)
        if n[2] not in self.ast[ty]: return None
        a = self.F.adts[ty]
        if a['enum']:
            for i, t in astk.variants(self.F, ty):
                if t is None: raise Stuck('AST enum ' + ty)
                x = self.castv(t, n)
                if x is not None: return ('adt', ty, i, (x,))
            raise Stuck('AST enum ' + ty)
        if a['v'][0]['f'] != ['syntax']: raise Stuck('AST struct ' + ty)
        return ('adt', ty, 0, (n,))
    def optv(self, l): return some(l[0]) if l else NONE
    def kname(self, k):
        if k[0] == 'adt' and k[1] == KIND: return self.kn[k[2]]
        raise Stuck('kind argument')
    def o_parent(self, E, g):
        x = g[2]
        if self.isn(x): return self.optv(self.ups(x))
        if self.istk(x): return some(self.parents[x])
    def o_token(self, E, g):
        if self.isn(g[2]): return self.optv([x for x in self.elems(g[2]) if x[1] == 'tk' and x[2] == self.kname(g[3])])
    def o_into_token(self, E, g):
        if self.istk(g[2]): return some(g[2])
        if self.isn(g[2]): return NONE
    def o_into_node(self, E, g):
        if self.isn(g[2]): return some(g[2])
        if self.istk(g[2]): return NONE
    def o_child(self, E, g):
        if self.isn(g[2]): return self.optv([x for x in (self.castv(g[3], n) for n in self.s_children(E, g)) if x is not None])
    def o_first_child(self, E, g):
        if self.isn(g[2]): return self.optv(self.s_children(E, g))
    def o_last_child(self, E, g):
        if self.isn(g[2]): return self.optv(self.s_children(E, g)[-1:])
    def o_cast(self, E, g):
        if self.isn(g[3]):
            x = self.castv(g[2], g[3])
            return NONE if x is None else some(x)
    def o_syntax(self, E, g):
        x = g[2]
        while x[0] == 'adt' and len(x[3]) == 1: x = x[3][0]
        if self.isn(x): return x
    def o_node(self, E, g):
        x = g[2]
        while x[0] == 'adt' and len(x[3]) == 1: x = x[3][0]
        if x[0] == 't' and x[1] == 'ptr': return x[2]
    def o_text(self, E, g):
        x = g[2]
        if self.istk(x) and x[2] == 'INSTR_NAME':
            return ('s', self.ch.choose(('instr', x), self.instrs))
    def strs(self, g):
        if g[2][0] == 's' and g[3][0] in ('s', 'ch'): return g[2][1], g[3][1]
        return None, None
    def o_starts_with(self, E, g):
        x, y = self.strs(g)
        if x is not None: return b(x.startswith(y))
    def o_ends_with(self, E, g):
        x, y = self.strs(g)
        if x is not None: return b(x.endswith(y))
    def o_contains(self, E, g):
        x, y = self.strs(g)
        if x is not None: return b(y in x)
    def h_discr(self, E, v):
        if v[0] == 't' and v[1] == 'kind':
            x = v[2]
            if x[0] == 't' and x[1] == 'ptr': x = x[2]
            if self.isn(x) or self.istk(x): return self.nk[x[2]]
        self.guard(v)
    def h_eq(self, E, x, y):
        for p in (x, y):
            if p[0] == 't' and p[1] in ('n', 'tk'): return x == y
        if x[0] == 't' and y[0] == 't' and x[1] == 'ptr' and y[1] == 'ptr': return x[2] == y[2]
        self.guard(x); self.guard(y)
    def guard(self, v):
        """nothing about the modelled tree may be guessed"""
        if not isinstance(v, tuple): return
        if v and v[0] == 't' and len(v) > 1 and v[1] not in self.OPAQUE and any(isinstance(x, tuple) and x and x[0] == 't' and len(x) > 1 and x[1] in ('n', 'tk') for x in v[2:]):
            raise Stuck('operation %s on a syntax node' % v[1])
        if v and v[0] == 't' and len(v) > 1 and v[1] in ('n', 'tk'): return
        for x in v:
            if isinstance(x, tuple): self.guard(x)
    # ---- texts
    def text(self, tk): return self.E.ev(('t', 'deref', ('t', 'text', tk)), {})
    def sub(self, n, kind): return [x for x in self.elems(n) if x[2] == kind]
