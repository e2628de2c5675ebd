"""P21: number and types of operands are checked against what instructions take and leave."""
from tab import *
import world, doc, itertools, checks.p15 as p15
from checks.p20 import Show, lit, display

TC = 'wat_service::checker::typeck::'
DS = 'wat_service::data_set::instr_meta::'
OT, VT = DS + 'OperandType', 'wat_service::types_analyzer::ValType'
PI = 'wat_syntax::ast::instr::PlainInstr'

PRE = '(module (type $v (func (param i32 i64) (result f32))) (func $p0) (func $p1 (param $a i32)) (func $p2 (param $x i32) (param $y f64) (result i64)) (func $r2 (result i32 f32)) (func $u (type $v) (local $q f64)) ' \
      '(func $n (param i32) (param $m f32)) (global $g i64 (i64.const 0)) (global $h (mut f32) (f32.const 0)) '
LOC = '(func $f (param $l i32) (local $k f64) (local externref) '

def atoms():
    """plain instructions without operands and the types they leave"""
    return ['i32.const 1', 'i64.const 1', 'f32.const 1.0', 'f64.const 1.0', 'local.get $l', 'local.get $k', 'local.get 2', 'local.get $none', 'global.get $g', 'global.get $h', 'global.get 7', 'call $p0', 'call $r2', 'call $none', 'nop', 'memory.size',
            'ref.null', 'unknown.instr']
HEADS = ['i32.add', 'f32.add', 'i64.eqz', 'i32.eqz', 'drop', 'i32.wrap_i64', 'f64.promote_f32', 'local.set $k', 'local.set $l', 'global.set $h', 'call $p0', 'call $p1', 'call $p2', 'call $u', 'call $n', 'call $none', 'call 2', 'call 9', 'i32.const 1', 'nop',
         'br_if 0', 'f32.store offset=1 align=1', 'i64.load offset=1 align=1', 'i8x16.shuffle', 'v128.bitselect', 'unknown.instr', 'local.tee $k', 'memory.fill']

def folded_docs():
    out = []
    A = atoms()
    for h in HEADS:
        for n in range(0, 4):
            for c in (itertools.product(A, repeat=n) if n < 2 else itertools.product(A[:6] + ['call $r2'], repeat=n) if n == 2 else itertools.product(A[:3], repeat=3)):
                out.append(PRE + LOC + '(%s%s)))' % (h, ''.join(' (%s)' % x for x in c)))
    for h in ('i32.add', 'local.set', 'call', 'i32.const', 'local.get', 'global.set', 'drop'):
        for ops in ('', ' 1', ' $l', ' $l 1', ' 1 (i32.const 1)', ' (i32.const 1) (f32.const 1.0) (nop)', ' "s" (i32.const 1)', ' 1.5', ' $p1 $p1', ' $p1 3 (i64.const 1)'):
            if ('"' not in ops and '.' not in ops) or h in ('i32.add', 'drop', 'i32.const'): out.append(PRE + LOC + '(%s%s)))' % (h, ops))
    out.append(PRE + LOC + 'i32.add))'); out.append(PRE + LOC + '))')
    return list(dict.fromkeys(out))

SEQ = ['i32.const 1', 'f32.const 1.0', 'i64.const 1', 'local.get $l', 'local.get $k', 'call $r2', 'call $p2', 'call $p1', 'call $none', 'i32.add', 'i64.eqz', 'drop', 'local.set $k', '(i32.const 1)', '(i32.add (i32.const 1) (i32.const 1))', 'nop', 'unknown.instr', 'f32.add', '(local.get $k)', '(f32.add)', 'block end', '(block)']
def stacked_docs():
    out = []
    for n in range(0, 4):
        for c in (itertools.product(SEQ, repeat=n) if n < 3 else itertools.product(SEQ[:4] + ['call $r2', 'call $p2', 'i32.add', 'drop', 'nop', 'f32.add', '(i32.const 1)'], repeat=3)):
            out.append(PRE + LOC + ' '.join(c) + '))')
    for c in itertools.product(['i32.const 1', 'f32.const 1.0', 'i32.add', 'call $p2', 'call $r2'], repeat=4): out.append(PRE + LOC + ' '.join(c) + '))')
    for c in ('i32.const 1', 'i32.const 1 f64.const 1.0 call $p2', '(i32.const 1)', 'i32.add', ''): out.append(PRE + '(global $z i32 %s))' % c)
    return list(dict.fromkeys(out))

class Model:
    """what the service knows, for formulas over documents"""
    def __init__(self, F, show):
        self.F = F; self.show = show
        b, I, tab = p15.table(F)
        self.sites = I.analysed
        self.meta = {}
        f = F.adts[DS + 'InstrMeta']['v'][0]['f']
        self.f = f
        self.adts = {}
        for n, l in tab.items():
            e = dict(zip(f, l[-1][3])); self.adts[n] = l[-1]
            if e['operands_count'][0] != 'i': raise Incomplete('number of immediates')
            self.meta[n] = (e['operands_count'][1], [self.operand(x) for x in e['params'][1]], [self.operand(x) for x in e['results'][1]])
    def operand(self, v):
        return '*' if self.F.adts[OT]['v'][v[2]]['n'] == 'Generic' else self.show.names[v[3][0][2]]
    def ot(self, t):
        i = [v['n'] for v in self.F.adts[OT]['v']].index('Generic' if t == '*' else 'Val')
        return ('adt', OT, i, () if t == '*' else (('adt', VT, self.show.index[t], ()),))
    def ots(self, l): return ('vec', tuple(self.ot(t) for t in l))

class Doc:
    """documents in a world, with the meaning of their instructions"""
    def __init__(self, M, W):
        self.M = M; self.W = W; self.S = doc.Symbols(W)
    def name(self, el):
        t = self.S.first(el, 'INSTR_NAME'); return self.W.text(t) if t else None
    def operands(self, el): return [c for c in self.W.nodes(el) if self.W.kind(c) == 'OPERAND']
    def instr(self, op):
        for c in self.W.nodes(op):
            if self.W.kind(c) in ('PLAIN_INSTR', 'BLOCK_BLOCK', 'BLOCK_LOOP', 'BLOCK_IF'): return c
        return None
    def callee(self, el):
        ops = self.operands(el)
        return self.S.definition(ops[0]) if ops and self.S.row(ops[0]) else None
    def gives(self, el):
        """types an instruction leaves, None if they are not known"""
        if self.W.kind(el) != 'PLAIN_INSTR': return None
        n = self.name(el)
        if n == 'call':
            d = self.callee(el); sg = self.S.sig(d[0]) if d else None
            return None if sg is None else list(sg[1])
        if n in ('local.get', 'global.get'):
            d = self.callee(el)
            t = (self.S.type(d[0]) if n == 'local.get' else self.S.globaltype(d[0])) if d else None
            return None if t is None else [t]
        return list(self.M.meta[n][2]) if n in self.M.meta else None
    def takes(self, el):
        """[(type, parameter it belongs to)], None if not known"""
        n = self.name(el)
        if n == 'call':
            d = self.callee(el); sg = self.S.sig(d[0]) if d else None
            if sg is None: return None
            own = [r[0] for r in self.S.rows() if r[1] == d[0] and r[2] == 'Param']
            own += [None] * len(sg[0])
            return [(t, o) for (t, _), o in zip(sg[0], own)]
        return [(t, None) for t in self.M.meta[n][1]] if n in self.M.meta else None
    def imm(self, el):
        n = self.name(el)
        return 1 if n == 'call' else self.M.meta[n][0] if n in self.M.meta else 0

def setup(M, holder, where):
    def f(E, W):
        D = holder[0] = Doc(M, W)
        S = D.S
        def wrap(d, op, h):
            old = d.get(op)
            def g(*a):
                r = h(*a)
                return r if r is not None or old is None else old(*a)
            d[op] = g
        def el(v):
            while isinstance(v, tuple) and v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]
            return v if v[:2] == ('t', 'el') else None
        def definition(v):
            """the element a symbol item stands for"""
            while v[0] == 'adt' and v[1].endswith('SymbolItemWithGreenEq'): v = v[3][0]
            if v[0] == 'adt' and v[1] == doc.B + 'SymbolItem':
                return el(dict(zip(E.F.adts[v[1]]['v'][0]['f'], v[3]))['key'])
            return el(v)
        def q(E, g):
            n = g[2]
            if n == 'symbol_table': return S.table()
            if n == 'root': return ('t', 'el', 0)
            if n == 'typeck:gives':
                x = D.gives(el(g[3])); return NONE if x is None else some(M.ots(x))
            if n == 'typeck:takes':    # the helpers, as their own tables decide
                i = el(g[3]); x = D.takes(i)
                if D.name(i) != 'call':
                    m = M.adts.get(D.name(i))
                    if g[4] != (NONE if m is None else some(m)): raise Stuck('instruction asked about with the entry of another one')
                return NONE if x is None else some(('vec', tuple(('tup', (M.ot(t), NONE if o is None else some(('tup', (('t', 'range', o), ('s', 'parameter')))))) for t, o in x)))
            if n == 'get_func_sig':
                d = definition(g[-1]); x = S.sig(d) if d else None
                return NONE if x is None else some(M.show.value(x))
            if n in ('extract_type', 'extract_global_type'):
                d = definition(g[-1])
                x = None if d is None else S.type(d) if n == 'extract_type' else S.globaltype(d)
                return NONE if x is None else some(('adt', VT, M.show.index[x], ()))
        wrap(E.ophook, 'q', q)
        def call(E, g):
            n = g[2].rsplit('::', 1)[-1]
            if n == 'get' and g[4][0] == 's': return some(M.adts[g[4][1]]) if g[4][1] in M.adts else NONE
        wrap(E.ophook, 'call', call)
        def st(E, g):
            x = g[2]
            if x[0] == 'i': return ('s', str(x[1]))
            if x[0] == 's': return x
            if x[0] == 'adt' and x[1] == VT: return M.show.ty(x)
        wrap(E.ophook, 'str', st)
        wrap(E.ophook, 'lookup', lambda E, g: (some(M.adts[g[3][1]]) if g[3][1] in M.adts else NONE) if g[3][0] == 's' else None)
        wrap(E.ophook, 'eq', lambda E, x, y: x == y if x[:2] == ('t', 'el') and y[:2] == ('t', 'el') else None)
        E.ophook['NODE'] = lambda E, g: where(D)
    return f

def instr_of(D):
    """the first instruction in the last field"""
    W = D.W; f = node_of(D)
    l = [c for c in W.nodes(f) if W.kind(c) in ('PLAIN_INSTR', 'BLOCK_BLOCK', 'BLOCK_LOOP', 'BLOCK_IF')]
    return l[0] if l else f
def node_of(D):
    """the last field"""
    W = D.W
    mod = [c for c in W.nodes(('t', 'el', 0)) if W.kind(c) == 'MODULE'][0]
    return W.nodes(mod)[-1]

def opaque(n, *at):
    def m(I, st, a, c):
        x = ('t', 'q', n) + tuple(I.deep(st, a[t]) for t in at); I.tyof[('t', 'discr', x)] = OPT
        return ret(st, x)
    return m

def helpers(F):
    """the two functions that say what an instruction leaves and takes, by their types"""
    g, t = [], []
    for b in F.bodies.values():
        if not b.path.startswith(TC) or '{' in b.path: continue
        ty = F.ty(b.tys, b.locals[0])
        ps = [F.ty(b.tys, b.locals[i + 1]) for i in range(b.n)]
        at = [i for i, p in enumerate(ps) if p.replace('&', '').strip() == 'wat_syntax::ast::Instr' or p.endswith('::Instr')]
        ap = [i for i, p in enumerate(ps) if p.endswith('::PlainInstr')]
        if 'Option<' in ty and 'Vec<' in ty and 'OperandType' in ty:
            if 'TextRange' in ty and ap: t.append((b, ap[0], [i for i, p in enumerate(ps) if 'InstrMeta' in p][0]))
            elif at: g.append((b, at[0]))
    if len(g) != 1 or len(t) != 1: raise Incomplete('functions for the types of operands: %d, %d' % (len(g), len(t)))
    return g[0], t[0]

def takes_of(D, el): return D.takes(el)

def plural(n): return 'operand' if n == 1 else 'operands'
class Expect:
    """diagnostics in normal form"""
    def __init__(self, F): self.N = Names(F); self.F = F; self.where = {}
    def at(self, el):
        r = self.N.range(('t', 'LI'), ('t', 'range', el)); self.where[r] = el
        return r
    def diag(self, el, msg, rel=None): return ('tup', (self.at(el), ('s', 'error'), ('s', msg), ('s', 'none') if rel is None else rel))
    def count(self, el, want, got): return self.diag(el, 'expected %d %s, found %d' % (want, plural(want), got))
    def mismatch(self, el, want, got, par):
        rel = None if par is None else ('vec', (('tup', (('t', 'q', 'uri', ), self.at(par))),))
        return self.diag(el, 'expected type `%s`, found `%s`' % (want, got), rel)
    def show(self, W, v):
        def place(r):
            el = self.where.get(r)
            if el is None:
                import re
                m = re.findall(r"'el', (\d+)", str(r))
                return 'another place' + (' (near `%s`)' % W.text(('t', 'el', int(m[0]))) if m else '')
            return '`%s`' % W.text(el)
        if v[0] != 'vec': return str(v)[:300]
        return 'nothing' if not v[1] else '; '.join('%s: %s%s' % (place(d[1][0]), d[1][2][1], '' if d[1][3][0] == 's' else ' (see %s)' % ', '.join(place(x[1][1]) for x in d[1][3][1])) for d in v[1])

def folded(D, X, el):
    """what is to be reported about a folded plain instruction; Prune: not in the scope of the statement"""
    W = D.W
    if W.kind(el) != 'PLAIN_INSTR' or D.S.first(el, 'L_PAREN') is None: return []
    ops = D.operands(el); n = D.name(el); imm = D.imm(el)
    if n is None: return []
    known = n == 'call' or n in D.M.meta
    if not known: return []
    lead = list(itertools.takewhile(lambda o: D.instr(o) is None, ops))
    if len(lead) < imm: raise Prune
    out = []; got = []
    for o in ops[imm:]:
        i = D.instr(o)
        if i is None:
            if n != 'call': out.append(X.diag(o, 'expected instr'))
            continue
        if W.kind(i) != 'PLAIN_INSTR': raise Prune
        got += [(t, o) for t in D.gives(i) or []]
    want = D.takes(el)
    if want is None: return out
    a, z = len(want) + imm, len(got) + len([o for o in ops if D.instr(o) is None])
    if a != z: out.append(X.count(el, a, z))
    for (t, par), (u, o) in zip(want, got):
        if '*' not in (t, u) and t != u: out.append(X.mismatch(o, t, u, par))
    return out

def stacked(D, X, el):
    W = D.W
    seq = [c for c in W.nodes(el) if W.kind(c) in ('PLAIN_INSTR', 'BLOCK_BLOCK', 'BLOCK_LOOP', 'BLOCK_IF')]
    if all(D.S.first(c, 'L_PAREN') is not None for c in seq): return []
    out = []; st = []
    for c in seq:
        if W.kind(c) != 'PLAIN_INSTR': continue
        want = D.takes(c)
        if want is None: continue
        if D.S.first(c, 'L_PAREN') is not None: want = []
        if len(st) < len(want): out.append(X.count(c, len(want), len(st))); top, st = st, []
        else: top, st = st[len(st) - len(want):], st[:len(st) - len(want)]
        for (t, par), (u, o) in zip(want, top):
            if '*' not in (t, u) and t != u: out.append(X.mismatch(o, t, u, par))
        st += [(t, c) for t in D.gives(c) or []]
    return out

def diags(F, X, D):
    f = F.adts['lsp_types::Diagnostic']['v'][0]['f']
    ri, si, mi, li = [f.index(x) for x in ('range', 'severity', 'message', 'related_information')]
    r = F.adts['lsp_types::DiagnosticRelatedInformation']['v'][0]['f'].index('location')
    lf = F.adts['lsp_types::Location']['v'][0]['f']
    def strip(v):
        if isinstance(v, tuple):
            if v[:2] == ('t', 'range'):
                x = v[2]
                while x[0] == 'adt' and len(x[3]) == 1: x = x[3][0]
                return ('t', 'range', x)
            return tuple(strip(x) for x in v)
        return v
    def norm(E, v):
        if v[0] != 'vec': raise Stuck('diagnostics')
        out = []
        for d in v[1]:
            if d[0] != 'adt': raise Stuck('diagnostic ' + str(d)[:80])
            d = d[3]; rel = ('s', 'none')
            if d[li][0] == 'adt' and d[li][2] == 1:
                l = d[li][3][0]
                if l[0] not in ('vec', 'arr'): raise Stuck('related')
                rel = ('vec', tuple(('tup', (('t', 'q', 'uri'), strip(x[3][r][3][lf.index('range')]))) for x in l[1]))
            elif d[li] != NONE and d[li][:2] + d[li][2][:2] != ('t', 'fld', 't', 'default'): raise Stuck('related ' + str(d[li])[:80])
            out.append(('tup', (strip(d[ri]), severity(E, d[si]), ('s', lit(d[mi])), rel)))
        return ('vec', tuple(out))
    return norm

def table(F, R, M, body, docs, spec, where, ref=False):
    (g, gi), (t, ti, tm) = helpers(F)
    A = {'service': ('ref', ('g', 'self'), ()), 'diags': ('ref', ('g', 'diags'), ()), 'line_index': ('t', 'LI'), 'symbol_table': Q('symbol_table', URI), 'uri': URI, 'root': ('rv', ('t', 'NODE')) if ref else ('t', 'NODE')}
    def st(s): s.mem[('g', 'diags')] = ('vec', ())
    I, paths = summarise(F, body, argsof(F, body, A), self_=False, setup=st, models={g.path: opaque('typeck:gives', gi), t.path: opaque('typeck:takes', ti, tm)})
    R.sites |= I.analysed
    res = [(dict(s.asm), I.deep(s, s.mem[('g', 'diags')])) for s, v in paths]
    H = [None]; X = Expect(F)
    trees = [doc.read(d) for d in docs]
    def sp(W): return ('vec', tuple(spec(H[0], X, where(H[0]))))
    rows, bad = world.run(F, I, res, trees, sp, diags(F, X, None), setup=setup(M, H, where), plain=True)
    out = []
    for d, got, want in bad:
        W = H[0].W; W.E.ch.asg = {'tree': docs.index(d)} if d in docs else W.E.ch.asg
        out.append((d, X.show(W, got), X.show(W, want)))
    return rows, out, len(res)

# valid code: nothing may be reported
VALID = {
    'omitted-immediates': (['(i32.load (i32.const 0))', '(select (i32.const 1) (i32.const 2) (i32.const 3))', '(f64.store (i32.const 0) (f64.const 1.0))'], []),
    'block-operand': (['(i32.eqz (block (result i32) i32.const 1))', '(drop (loop (result i64) (i64.const 1)))'], []),
    'block-result': ([], ['block (result i32) i32.const 1 end drop', 'i32.const 1 block (result i32) i32.const 2 end i32.add drop']),
    'unreachable-code': ([], ['unreachable drop', 'return i32.add drop', 'br 0 drop']),
    'indirect-call': ([], ['f32.const 1.0 i32.const 0 call_indirect f32.const 1.0 f32.add drop']),
}
INSTR = 'wat_syntax::ast::instr::Instr'
def helper(F, R, M, which):
    (g, gi), (t, ti, tm) = helpers(F)
    body = g if which == 'gives' else t
    args = []
    for i in range(body.n):
        ty = F.ty(body.tys, body.locals[i + 1])
        args.append(('ref', ('g', 'self'), ()) if 'LanguageService' in ty else Q('symbol_table', URI) if 'SymbolTable' in ty else URI if 'InternUri' in ty else ('t', 'META') if 'InstrMeta' in ty else ('rv', ('t', 'INSTR')))
    I, paths = summarise(F, body, args, self_=False)
    R.sites |= I.analysed
    docs = [PRE + LOC + '(%s)))' % a for a in atoms() + HEADS] + [PRE + LOC + '%s))' % a for a in atoms() + HEADS]
    docs += [PRE + LOC + '(%s%s)))' % (h, o) for h in ('call', 'local.get', 'global.get', 'local.set', 'i32.add') for o in ('', ' $l', ' $p2', ' $g', ' 0', ' 1', ' 5', ' $p2 $p1', ' 2 $h')]
    # parameters that are shadowed by the same name elsewhere, several modules, types without results
    docs += ['(module (func $a (result f64)) (func $f (call $a)))', '(module (type (func)) (type $w (func (result i64 i32) (param f32))) (func (type 1)) (func $f (call 0)))',
             '(module (func $a (param $p i32) (param i64 f64) (local $q f32)) (func (call $a)))', '(module (import "a" "b" (func)) (func (call 0)))' if False else '(module (func (type 0)) (func (call 0)))',
             '(module (func $x (param $p i64)) (func (param $p f32) (local.get $p)))', '(module (func $x (param i64)) (func (local f32 f64) (local.get 1)))', '(module (global (mut i64) (i64.const 0)) (global $g f32 (f32.const 1.0)) (func (global.get 1)))',
             '(module (func $t (type $u) (param $z i32)) (type $u (func (param $w i32) (result f32))) (func (call $t)))', '(module (func (block (result i32))))', '(module (func (loop)))', '(module (global $t i32 (i32.const 0)) (func $t (result f32)) (func (call $t)))',
             '(module (global $t i32 (i32.const 0)) (func $q (result f32)) (func (global.get $q)))', '(module (func (param $t i32) (local $u f32) (local.get 1)))']
    docs = list(dict.fromkeys(docs))
    if which == 'takes': docs = [d for d in docs if '(block' not in d.split('(func')[-1] and '(loop' not in d]
    trees = [doc.read(d) for d in docs]
    H = [None]; X = Expect(F)
    base = setup(M, H, instr_of)
    def st(E, W):
        base(E, W)
        def instr(E, g):
            el = instr_of(H[0]); v = W.typed(INSTR, el)
            if which == 'gives': return v
            if v[2] != 1: raise Prune
            return v[3][0]
        E.ophook['INSTR'] = instr
        E.ophook['META'] = lambda E, g: some(M.adts[H[0].name(instr_of(H[0]))]) if H[0].name(instr_of(H[0])) in M.adts else NONE
    at = lambda el: ('t', 'range', el)
    def spec(W):
        D = H[0]; el = instr_of(D)
        x = D.gives(el) if which == 'gives' else D.takes(el)
        if x is None: return ('s', 'not known')
        return ('arr', tuple(('s', y) for y in x) if which == 'gives' else tuple(('tup', (('s', t), ('s', 'none') if o is None else at(o))) for t, o in x))
    def norm(E, v):
        if v[0] != 'adt' or v[1] != OPT: raise Stuck('answer ' + str(v)[:100])
        if v[2] == 0: return ('s', 'not known')
        v = v[3][0]
        if v[0] not in ('vec', 'arr'): raise Stuck('types ' + str(v)[:100])
        out = []
        for x in v[1]:
            if which == 'gives': out.append(('s', M.operand(x))); continue
            ty, rel = x[1]
            if rel[0] != 'adt': raise Stuck('place ' + str(rel)[:100])
            if rel[2] == 1:
                r = rel[3][0][1][0]
                def strip(v):
                    while v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]
                    return v
                rel = ('t', 'range', strip(r[2]))
            else: rel = ('s', 'none')
            out.append(('tup', (('s', M.operand(ty)), rel)))
        return ('arr', tuple(out))
    rows, bad = world.run(F, I, [(dict(s.asm), I.deep(s, v)) for s, v in paths], trees, spec, norm, setup=st, plain=True)
    return body, rows, bad, len(paths)

def check(F, R):
    R.rule('The functions that decide on operands are summarised by abstract interpretation of MIR; the formulas are evaluated on documents with every combination of instructions up to a bound and compared with what the validation rules of WebAssembly say.')
    try:
        M = Model(F, Show(F, R)); R.sites |= M.sites
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec('operands', '%s: %s' % (type(e).__name__, str(e)[:400])); return
    def body(n):
        l = [b for b in F.bodies.values() if b.path == TC + n]
        if len(l) != 1: raise Incomplete('no check ' + n)
        return l[0]
    for key, n, docs, spec, where, ref in (('folded', 'check_folded', folded_docs, folded, instr_of, False), ('sequence', 'check_stacked', stacked_docs, stacked, node_of, True)):
        try:
            bd = body(n)
            rows, bad, np = table(F, R, M, bd, docs(), spec, where, ref)
            if bad: R.bad(key, '%s (%s): in %s reported: %s, expected: %s' % (bd.path, bd.file, bad[0][0][len(PRE):][:300], bad[0][1][:400], bad[0][2][:400]))
            else: R.ok(key, {'function': bd.path, 'paths': np, 'table_rows': rows})
            R.count('documents', rows)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:400]))
    for key, (fo, se) in VALID.items():
        try:
            worst = None; rows = 0
            for n, l, where, ref in (('check_folded', fo, instr_of, False), ('check_stacked', se, node_of, True)):
                if not l: continue
                bd = body(n)
                r, bad, np = table(F, R, M, bd, [PRE + LOC + x + '))' for x in l], lambda D, X, el: [], where, ref)
                rows += r
                if bad: R.bad('valid:' + key, '%s (%s): the valid code %s gets the errors: %s' % (bd.path, bd.file, bad[0][0][len(PRE):][:300], bad[0][1][:400])); break
            else: R.ok('valid:' + key, {'function': bd.path, 'table_rows': rows})
            R.count('documents', rows)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('valid:' + key, '%s: %s' % (type(e).__name__, str(e)[:400]))
    for which in ('gives', 'takes'):
        try:
            bd, rows, bad, np = helper(F, R, M, which)
            if bad: R.bad('types-' + which, '%s (%s): the instruction of %s %s %s, expected %s' % (bd.path, bd.file, bad[0][0][-200:], {'gives': 'leaves', 'takes': 'takes'}[which], str(bad[0][1])[:300], str(bad[0][2])[:300]))
            else: R.ok('types-' + which, {'function': bd.path, 'paths': np, 'table_rows': rows})
            R.count('documents', rows)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('types-' + which, '%s: %s' % (type(e).__name__, str(e)[:400]))
