"""Documents written down for the checks, as the syntax trees and symbol tables they have to get.
The tree is the one the grammar of the text format prescribes for valid text; the symbols follow the rule checked by P09."""
import re
from tab import *
import wasmspec

TOK = re.compile(r'(?P<ws>\s+)|(?P<lc>;;[^\n]*)|(?P<bc>\(;.*?;\))|(?P<lp>\()|(?P<rp>\))|(?P<str>"(?:\\.|[^"\\])*")|(?P<word>[^\s()";]+)', re.S)
NUMT, REFT = ('i32', 'i64', 'f32', 'f64'), ('funcref', 'externref')
INTRE = re.compile(r'[+-]?(0x[0-9a-fA-F_]+|[0-9][0-9_]*)$')
BLOCKS = {'block': 'BLOCK_BLOCK', 'loop': 'BLOCK_LOOP', 'if': 'BLOCK_IF'}
FIELDS = {'func': 'MODULE_FIELD_FUNC', 'type': 'MODULE_FIELD_TYPE', 'global': 'MODULE_FIELD_GLOBAL', 'memory': 'MODULE_FIELD_MEMORY', 'table': 'MODULE_FIELD_TABLE',
          'export': 'MODULE_FIELD_EXPORT', 'start': 'MODULE_FIELD_START', 'import': 'MODULE_FIELD_IMPORT'}

class Reader:
    def __init__(self, text):
        self.toks = [(m.lastgroup, m.group()) for m in TOK.finditer(text)]
        assert ''.join(t for k, t in self.toks) == text, text
        self.i = 0
    def trivia(self):
        out = []
        while self.i < len(self.toks) and self.toks[self.i][0] in ('ws', 'lc', 'bc'):
            k, t = self.toks[self.i]; self.i += 1
            out.append(({'ws': 'WHITESPACE', 'lc': 'LINE_COMMENT', 'bc': 'BLOCK_COMMENT'}[k], t))
        return out
    def peek(self, n=0):
        """the n-th token from here that is no trivia"""
        l = [(k, t) for k, t in self.toks[self.i:] if k not in ('ws', 'lc', 'bc')]
        return l[n] if n < len(l) else (None, None)
    def take(self, kind, text=None):
        """trivia and the next token"""
        tr = self.trivia(); k, t = self.toks[self.i]; self.i += 1
        assert text is None or t == text, (t, text)
        return tr + [(kind, t)]
    def word(self, n=0): return self.peek(n)[1]
    def opens(self, *w): return self.word() == '(' and self.word(1) in w
    def isid(self): return (self.word() or '').startswith('$')
    def isint(self): return bool(INTRE.match(self.word() or '('))

    def node(self, kind, f):
        """trivia before it belongs to the parent"""
        tr = self.trivia(); ch = []; f(ch)
        return tr + [(kind, ch)]
    def ident(self, ch):
        if self.isid(): ch += self.take('IDENT')
    def paren(self, ch, kw, body):
        ch += self.take('L_PAREN', '('); ch += self.take('KEYWORD', kw); body(ch); ch += self.take('R_PAREN', ')')
    def index(self, ch): ch += self.node('INDEX', lambda c: c.extend(self.take('IDENT' if self.isid() else 'UNSIGNED_INT')))
    def valtype(self, ch):
        w = self.word()
        ch += self.node('VAL_TYPE', lambda c: c.extend(self.take('NUM_TYPE' if w in NUMT else 'REF_TYPE' if w in REFT else 'VEC_TYPE')))
    def valtypes(self, ch):
        while self.word() in NUMT + REFT + ('v128',): self.valtype(ch)
    def group(self, ch, kw):
        kind = {'param': 'PARAM', 'result': 'RESULT', 'local': 'LOCAL'}[kw]
        def body(c):
            if kw != 'result': self.ident(c)
            self.valtypes(c)
        ch += self.node(kind, lambda c: self.paren(c, kw, body))
    def groups(self, ch, *kws):
        while self.opens(*kws): self.group(ch, self.word(1))
    def typeuse(self, ch):
        if not self.opens('type', 'param', 'result'): return
        def f(c):
            if self.opens('type'): self.paren(c, 'type', self.index)
            self.groups(c, 'param', 'result')
        ch += self.node('TYPE_USE', f)
    def name(self, ch): ch += self.node('NAME', lambda c: c.extend(self.take('STRING')))
    def globaltype(self, ch):
        def f(c):
            if self.opens('mut'): self.paren(c, 'mut', self.valtype)
            else: self.valtype(c)
        ch += self.node('GLOBAL_TYPE', f)
    def limits(self, ch):
        def f(c):
            while self.isint(): c += self.take('UNSIGNED_INT')
        ch += self.node('LIMITS', f)
    def exports(self, ch):
        while self.opens('export'): ch += self.node('EXPORT', lambda c: self.paren(c, 'export', self.name))
        if self.opens('import'):
            def two(c): self.name(c); self.name(c)
            ch += self.node('IMPORT', lambda c: self.paren(c, 'import', two))
    def tabletype(self, ch):
        def f(c): self.limits(c); c.extend(self.take('REF_TYPE'))
        ch += self.node('TABLE_TYPE', f)
    def field(self, ch):
        kw = self.word(1)
        def body(c):
            if kw == 'func':
                self.ident(c); self.exports(c); self.typeuse(c); self.groups(c, 'local'); self.instrs(c)
            elif kw == 'type':
                self.ident(c)
                c += self.node('FUNC_TYPE', lambda d: self.paren(d, 'func', lambda e: self.groups(e, 'param', 'result')))
            elif kw == 'global':
                self.ident(c); self.exports(c); self.globaltype(c); self.instrs(c)
            elif kw == 'memory':
                self.ident(c); self.exports(c); c += self.node('MEMORY_TYPE', self.limits)
            elif kw == 'table':
                self.ident(c); self.exports(c); self.tabletype(c)
            elif kw == 'start': self.index(c)
            elif kw == 'export':
                self.name(c); k = self.word(1)
                c += self.node('EXPORT_DESC_' + k.upper(), lambda d: self.paren(d, k, self.index))
            else: raise AssertionError(kw)
        ch += self.node(FIELDS[kw], lambda c: self.paren(c, kw, body))
    def blocktype(self, ch):
        if self.opens('result') and not self.opens('type', 'param'): ch += self.node('BLOCK_TYPE', lambda c: self.group(c, 'result'))
        elif self.opens('type', 'param'): ch += self.node('BLOCK_TYPE', self.typeuse)
    def instrs(self, ch):
        while self.word() not in (')', 'end', 'else', None): self.instr(ch)
    def immediates(self, ch):
        while True:
            w = self.word() or ')'
            k = 'IDENT' if w.startswith('$') else 'INT' if INTRE.match(w) else 'STRING' if w.startswith('"') else 'MEM_ARG' if re.match(r'(offset|align)=', w) else 'FLOAT' if re.match(r'[+-]?([0-9]|inf|nan)', w) else None
            if k is None: return
            ch += self.node('OPERAND', lambda c: c.extend(self.take(k)))
    def instr(self, ch):
        if self.word() == '(':
            w = self.word(1)
            if w in BLOCKS:
                def body(c):
                    self.ident(c); self.blocktype(c)
                    while self.word() != ')':
                        if self.opens('then', 'else') and w == 'if':
                            k = self.word(1)
                            c += self.node('BLOCK_IF_' + k.upper(), lambda d: self.paren(d, k, self.instrs))
                        else: self.instr(c)
                ch += self.node(BLOCKS[w], lambda c: self.paren(c, w, body)); return
            def f(c):
                c += self.take('L_PAREN', '('); c += self.take('INSTR_NAME'); self.immediates(c)
                while self.word() == '(': c += self.node('OPERAND', self.instr)
                c += self.take('R_PAREN', ')')
            ch += self.node('PLAIN_INSTR', f); return
        w = self.word()
        if w in ('block', 'loop'):
            def f(c):
                c += self.take('KEYWORD'); self.ident(c); self.blocktype(c); self.instrs(c); c += self.take('KEYWORD', 'end'); self.ident(c)
            ch += self.node(BLOCKS[w], f); return
        if w == 'if': raise AssertionError('unfolded if')
        def f(c): c += self.take('INSTR_NAME'); self.immediates(c)
        ch += self.node('PLAIN_INSTR', f)
    def module(self):
        def body(c):
            self.ident(c)
            while self.word() == '(': self.field(c)
        ch = []
        while self.opens('module'): ch += self.node('MODULE', lambda c: self.paren(c, 'module', body))
        assert ch and self.word() is None, 'text after the modules'
        return ('ROOT', ch + self.trivia())

def read(text): return Reader(text).module()

DEFS = {'MODULE_FIELD_FUNC': 'Func', 'MODULE_FIELD_TYPE': 'Type', 'MODULE_FIELD_GLOBAL': 'GlobalDef', 'MODULE_FIELD_MEMORY': 'MemoryDef', 'MODULE_FIELD_TABLE': 'TableDef'}
B = 'wat_service::binder::'

class Symbols:
    """symbol table of the current tree of a world"""
    def __init__(self, W):
        self.W = W; self.F = W.F
        self.kinds = [v['n'] for v in self.F.adts[B + 'SymbolItemKind']['v']]
        self.memo = {}
    def first(self, el, kind):
        for c in self.W.kids(el):
            if self.W.kind(c) == kind: return c
        return None
    def up(self, el, kinds):
        while el is not None and self.W.kind(el) not in kinds: el = self.W.parent(el)
        return el
    def rows(self):
        """[(element, region, kind, number, name)] in document order"""
        no = self.W.no
        if no in self.memo: return self.memo[no]
        W = self.W; out = []; count = {}
        root = ('t', 'el', 0)
        def num(region, group):
            k = (region, group); count[k] = count.get(k, -1) + 1; return count[k]
        def ident(el):
            t = self.first(el, 'IDENT'); return W.text(t) if t else None
        def use(el, region, kind):
            t = W.text(el)
            out.append((el, region, kind, None, t) if t.startswith('$') else (el, region, kind, int(t), None))
        for el in W.desc(root):
            if W.istoken(el): continue
            k = W.kind(el)
            if k in DEFS: out.append((el, W.parent(el), DEFS[k], num(W.parent(el), DEFS[k]), ident(el)))
            elif k in ('PARAM', 'LOCAL'):
                reg = self.up(el, ('MODULE_FIELD_FUNC', 'MODULE_FIELD_TYPE', 'BLOCK_TYPE'))
                if W.kind(reg) == 'BLOCK_TYPE': continue
                kd = 'Param' if k == 'PARAM' else 'Local'
                if ident(el): out.append((el, reg, kd, num(reg, 'l'), ident(el)))
                else:
                    for c in W.nodes(el): out.append((c, reg, kd, num(reg, 'l'), None))
            elif k == 'INDEX':
                p = W.kind(W.parent(el)); mod = self.up(el, ('MODULE',))
                kd = {'TYPE_USE': 'TypeUse', 'MODULE_FIELD_START': 'Call', 'EXPORT_DESC_FUNC': 'Call', 'EXPORT_DESC_GLOBAL': 'GlobalRef', 'EXPORT_DESC_MEMORY': 'MemoryRef', 'EXPORT_DESC_TABLE': 'TableRef'}.get(p)
                if kd: use(el, mod, kd)
            elif k == 'PLAIN_INSTR':
                n = W.text(self.first(el, 'INSTR_NAME')); ops = [c for c in W.nodes(el) if W.istoken(W.kids(c)[0])]
                if n == 'call' and ops: use(ops[0], self.up(el, ('MODULE',)), 'Call')
                elif n.startswith('local.') and ops: use(ops[0], self.up(el, ('MODULE_FIELD_FUNC',)), 'LocalRef')
                elif n.startswith('global.') and ops: use(ops[0], self.up(el, ('MODULE',)), 'GlobalRef')
        self.memo[no] = out
        return out
    def row(self, el, kind=None):
        for r in self.rows():
            if r[0] == el and (kind is None or r[2] == kind): return r
        return None
    def definition(self, el):
        r = self.row(el)
        if r is None: return None
        want = {'Call': ('Func',), 'TypeUse': ('Type',), 'GlobalRef': ('GlobalDef',), 'LocalRef': ('Param', 'Local'), 'MemoryRef': ('MemoryDef',), 'TableRef': ('TableDef',)}[r[2]]
        for d in self.rows():
            if d[2] in want and d[1] == r[1] and (r[3] is not None and r[3] == d[3] or r[4] is not None and r[4] == d[4]): return d
        return None
    def item(self, r):
        F = self.F
        def st(p, **kw): return adtval(F, B + p, **kw) if p != 'Idx' else adtval(F, 'wat_service::idx::Idx', **kw)
        key = lambda el: st('SymbolItemKey', ptr=el)
        idx = st('Idx', num=NONE if r[3] is None else some(('i', r[3])), name=NONE if r[4] is None else some(('s', r[4])))
        return st('SymbolItem', key=key(r[0]), green=r[0], region=key(r[1]), kind=('adt', B + 'SymbolItemKind', self.kinds.index(r[2]), ()), idx=idx)
    def table(self):
        fs = self.F.adts[B + 'SymbolTable']['v'][0]['f']
        v = {'symbols': ('vec', tuple(self.item(r) for r in self.rows()))}
        return ('adt', B + 'SymbolTable', 0, tuple(v.get(f, ('t', 'blocktable')) for f in fs))
    # types, as P20 checks them
    def valtypes(self, el): return [self.W.text(c) for c in self.W.nodes(el) if self.W.kind(c) == 'VAL_TYPE']
    def type(self, el):
        if self.W.kind(el) == 'VAL_TYPE': return self.W.text(el)
        l = self.valtypes(el)
        return l[0] if l else None
    def globaltype(self, el):
        g = self.first(el, 'GLOBAL_TYPE')
        return self.type_of_global(g) if g else None
    def type_of_global(self, g): return self.type(g)
    def sig_of(self, el):
        ps, rs = [], []
        for c in self.W.nodes(el):
            if self.W.kind(c) == 'PARAM':
                n = self.first(c, 'IDENT'); ts = self.valtypes(c)
                if n and ts: ps.append((ts[0], self.W.text(n)))
                else: ps += [(t, None) for t in ts]
            elif self.W.kind(c) == 'RESULT': rs += self.valtypes(c)
        return ps, rs
    def sig(self, func):
        """signature of a function definition, None without type use"""
        tu = self.first(func, 'TYPE_USE')
        if tu is None: return None
        if any(self.W.kind(c) in ('PARAM', 'RESULT') for c in self.W.nodes(tu)): return self.sig_of(tu)
        ix = self.first(tu, 'INDEX')
        d = self.definition(ix) if ix else None
        ft = self.first(d[0], 'FUNC_TYPE') if d else None
        return self.sig_of(ft) if ft else None
