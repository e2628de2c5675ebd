"""P23: completion of a use offers exactly the names in scope."""
from tab import *
import cursor, world, doc, checks.p21 as p21, checks.p09 as p09
from checks.p20 import Show

C = 'wat_service::features::completion::'
CC = C + 'CmpCtx'
# what a context of the implementation stands for
MEANS = {'Local': 'local', 'Func': 'function', 'FuncType': 'type', 'Global': 'global', 'Memory': 'memory', 'Table': 'table', 'Block': 'label'}
DEF = {'function': ('Func',), 'type': ('Type',), 'global': ('GlobalDef',), 'memory': ('MemoryDef',), 'table': ('TableDef',), 'local': ('Param', 'Local')}
DESC = {'MODULE_FIELD_START': 'function', 'EXPORT_DESC_FUNC': 'function', 'EXPORT_DESC_GLOBAL': 'global', 'EXPORT_DESC_MEMORY': 'memory', 'EXPORT_DESC_TABLE': 'table', 'TYPE_USE': 'type'}
DOCS = [
 '(module (func $f (param $x i32) (param f64 i64) (local $y f32) (local i32) (local.get 0) (local.set $x (local.get $y)) (local.tee 3 (local.get  1))) (func (param $z i32) (local.get $z)) (func local.get 0))',
 '(module (global $a i32 (i32.const 0)) (global i64 (i64.const 0)) (global $b (mut f32) (f32.const 0.0)) (memory $m 1) (memory 1) (table $t 1 funcref) (table 1 funcref) (func $f (param $b i32) (drop (global.get $a)) global.set 1 (table.get $t (i32.const 0)) (table.size 1) (call $f) (return_call 0) (ref.func $f) (call  1)))',
 '(module (type $v (func (param i32))) (type (func)) (func $f (type $v)) (func (type 1)) (start $f) (export "a" (func 0)) (export "b" (global $g)) (export "c" (memory 0)) (export "d" (table $t)) (global $g i32 (i32.const 0)) (memory 1) (memory $n 1) (table $t 1 funcref))',
 '(module (func $f (block $a (loop $b (br $a) (block (br 0) (br_if $b (i32.const 0)) (br_table $a 1 0)) br $b)) (block $a (br $a)) (loop $c (if $d (i32.const 0) (then (br $d) (br 0)) (else (br 1)))) (br $a)) (func (block $z (br  0))))',
 '(module (func block $a loop $b br 0 block br $a br_if 1 end end br $a end block $c br 0 end))',
 '(module (func $f (call $g) (local.get $x)) (global $f i32 (i32.const 0)) (table $f 1 funcref) (type $f (func)) (func $g (param $f i32) (local $g i32) (local.get $f) (global.get $f) (call $f) (table.grow $f)))',
 '(module (func (param i32)) (func (call 0) (local.get 0) (block (br 0)) (i32.const 0) (i32.add (i32.const 1) (local.get 0)) (i32.load offset=1 (i32.const 0)) (ref.null)))',
 '(module (func $a (call $a) (table.size 0) (global.get 0) (block $q (br $q) (call 0))) (table $e0 1 funcref) (global $d0 i64 (i64.const 0)) (memory $k0 1) (type $t0 (func)) (export "y" (memory $k0)) (func (type $t0) (block (br 0)))) (module (func $b (local $c i32) (call $b) (local.get $c) (global.get $d)) (global $d i64 (i64.const 0)) (table $e 1 funcref) (memory $k 1) (type $t (func)) (export "x" (memory $k)) (func (type $t) (table.copy $e $e)))',
]
MANY = 14   # more of everything
SMALL = '(module (type $s (func)) (table $s 1 funcref) (memory $s 1) (global $s i32 (i32.const 0)) (func $s (type $s) (param $s i32) (call 0) (table.size $s) (global.get 0) (local.get $s) (block $s (br 0))) (export "m" (memory 0)) (start 0)) '
DOCS.append(SMALL + '(module %s %s %s %s (func $l %s %s %s))' % (
    ' '.join('(func%s)' % (' $f%d' % i if i % 2 else '') for i in range(MANY)), ' '.join('(global%s i32 (i32.const 0))' % (' $g%d' % i if i % 2 else '') for i in range(MANY)),
    ' '.join('(type%s (func))' % (' $t%d' % i if i % 2 else '') for i in range(MANY)), ' '.join('(table%s 1 funcref)' % (' $b%d' % i if i % 2 else '') for i in range(MANY)),
    ' '.join('(param%s i32)' % (' $p%d' % i if i % 2 else '') for i in range(MANY)), ' '.join('(local%s i64)' % (' $v%d' % i if i % 2 else '') for i in range(MANY)),
    '(call 1) (global.get $g1) (table.get 0) (local.get 3) (call_indirect (type 0)) ' + ' '.join('(block%s' % (' $k%d' % i if i % 2 else '') for i in range(MANY)) + ' (br 1) (br $k1)' + ')' * MANY))

class Syms(doc.Symbols):
    """with blocks"""
    def rows(self):
        no = self.W.no
        if no not in self.memo:
            out = super().rows(); W = self.W
            have = [r[0] for r in out]
            for el in W.desc(('t', 'el', 0)):
                if not W.istoken(el) and W.kind(el) in ('BLOCK_BLOCK', 'BLOCK_LOOP', 'BLOCK_IF'):
                    t = self.first(el, 'IDENT')
                    out.append((el, W.parent(el), 'BlockDef', None, W.text(t) if t else None))
            self.memo[no] = sorted(out, key=lambda r: r[0][2])
        return self.memo[no]
    def names(self, tok, what):
        """[(element, number, name)] of the definitions in scope at a token"""
        W = self.W
        if what == 'label':
            l = [r for r in self.rows() if r[2] == 'BlockDef' and r[0] in W.anc(tok)]
            return [(r[0], i, r[4]) for i, r in enumerate(reversed(l))]
        reg = self.up(tok, ('MODULE_FIELD_FUNC',) if what == 'local' else ('MODULE',))
        return [(r[0], r[3], r[4]) for r in self.rows() if r[2] in DEF[what] and r[1] == reg]

def instr_class(W, S, op, name):
    """what an immediate of an instruction names"""
    k = name.split('.')
    if k[0] in ('local', 'global'): return k[0]
    if name in ('call', 'return_call', 'ref.func'): return 'function'
    if name in ('br', 'br_if', 'br_table'): return 'label'
    if k[0] == 'table': return 'table'
    return None

def uses(W, S):
    """[(token, class or None)] tokens that name something, with what they name, and immediates that name nothing"""
    out = []
    for t in W.desc(('t', 'el', 0)):
        if not W.istoken(t): continue
        p = W.parent(t); k = W.kind(p)
        if k == 'OPERAND' and W.kind(t) in ('INT', 'IDENT'):
            i = W.parent(p)
            if W.kind(i) != 'PLAIN_INSTR': continue
            out.append((t, instr_class(W, S, p, W.text(S.first(i, 'INSTR_NAME')))))
        elif k == 'PLAIN_INSTR' and W.kind(t) == 'WHITESPACE':
            sib = W.kids(p); b = sib[sib.index(t) - 1]
            if W.kind(b) == 'INSTR_NAME': out.append((t, instr_class(W, S, p, W.text(b))))
        elif k in DESC and W.kind(t) == 'WHITESPACE':
            sib = W.kids(p); n = sib[sib.index(t) + 1:]
            if n and W.kind(n[0]) == 'INDEX': out.append((t, DESC[k]))
        elif k == 'INDEX' and W.kind(W.parent(p)) in DESC: out.append((t, DESC[W.kind(W.parent(p))]))
    return out

def find(F):
    ctx, lst = [], []
    for b in F.bodies.values():
        if not b.path.startswith(C) or '{' in b.path: continue
        r = F.ty(b.tys, b.locals[0]); ps = [F.ty(b.tys, b.locals[i + 1]) for i in range(b.n)]
        tok = any('SyntaxToken' in p for p in ps)
        if tok and 'CmpCtx' in r and 'Option<' in r: ctx.append(b)
        if tok and r.startswith(('alloc::vec::Vec<', 'Vec<')) and 'CompletionItem' in r and any('CmpCtx' in p for p in ps): lst.append(b)
    if len(ctx) != 1 or len(lst) != 1 or CC not in F.adts: raise Incomplete('functions of completion: %d for the context, %d for the list' % (len(ctx), len(lst)))
    return ctx[0], lst[0]

def args(F, b, ctx=None):
    out = []
    for i in range(b.n):
        ty = F.ty(b.tys, b.locals[i + 1])
        v = (('ref', ('g', 'self'), ()) if 'LanguageService' in ty else ('vec', (ctx,)) if 'CmpCtx' in ty else URI if 'InternUri' in ty
             else ('t', 'TOKEN') if 'SyntaxToken' in ty else Q('symbol_table', URI) if 'SymbolTable' in ty else None)
        if v is None: raise Incomplete('parameter of type ' + ty)
        out.append(('rv', v) if ty.startswith('&') and v[0] != 'ref' else v)
    return out

class Holder: pass

def wrap(d, op, h):
    old = d.get(op)
    def g(*a):
        r = h(*a)
        return r if r is not None or old is None else old(*a)
    d[op] = g

def prepare(M, H, at):
    """hooks: documents with a token under the cursor"""
    hold = [None]
    base = p21.setup(M, hold, lambda D: ('t', 'el', 0))
    def f(E, W):
        base(E, W)
        D = hold[0]; D.S = Syms(W); H.S = D.S; H.W = W
        wrap(E.ophook, 'q', lambda E, g: D.S.table() if g[2] == 'symbol_table' else g[3] if g[2] == 'lookup_ident' and g[3][0] == 's' else None)
        E.ophook['TOKEN'] = lambda E, g: at(W)
        def isel(v): return v[:2] == ('t', 'el')
        def rng(v): return v[2] if v[:2] == ('t', 'range') and isel(v[2]) else None
        def span(el):
            l = [c[2] for c in W.desc(el) if W.istoken(c)]
            return (l[0], l[-1]) if l else None
        def call(E, g):
            n = g[2].rsplit('::', 1)[-1]
            if n in ('contains_range', 'contains_inclusive', 'contains', 'intersect') and len(g) > 4 or n == 'contains_range':
                a, b = rng(g[3]), rng(g[4])
                if n == 'contains_range' and a and b and span(a) and span(b):
                    a, b = span(a), span(b); return ('b', a[0] <= b[0] and b[1] <= a[1])
            if n == 'starts_with' and g[3][0] == 's' and g[4][0] in ('s', 'c', 'i'):
                return ('b', g[3][1].startswith(g[4][1] if g[4][0] != 'i' else chr(g[4][1])))
            if n == 'strip_prefix' and g[3][0] == 's' and g[4][0] in ('s', 'c', 'i'):
                x = g[4][1] if g[4][0] != 'i' else chr(g[4][1])
                return some(('s', g[3][1][len(x):])) if g[3][1].startswith(x) else NONE
            if n == 'split_once' and g[3][0] == 's' and g[4][0] in ('s', 'c', 'i'):
                x = g[4][1] if g[4][0] != 'i' else chr(g[4][1])
                if x not in g[3][1]: return NONE
                a, b = g[3][1].split(x, 1); return some(('tup', (('s', a), ('s', b))))
        wrap(E.ophook, 'call', call)
        wrap(E.ophook, 'range', lambda E, g: g if isel(g[2]) else None)
    return f

def check(F, R):
    R.rule('the two functions behind completion (what kind of thing is completed, what is offered for it) are summarised by abstract interpretation of their MIR and evaluated on documents, at every token that names something')
    try:
        ctx, lst = find(F)
        M = p21.Model(F, Show(F, R)); R.sites |= M.sites
        names = [v['n'] for v in F.adts[CC]['v']]
        if not set(MEANS) <= set(names): raise Incomplete('kinds of completion: ' + ', '.join(sorted(set(MEANS) - set(names))))
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec('completion', '%s: %s' % (type(e).__name__, e)); return
    trees = [doc.read(t) for t in DOCS]
    IF = F.adts['lsp_types::completion::CompletionItem']['v'][0]['f']
    def place(W, t): return 'at `%s` in `%s`' % (W.text(t), W.text(W.parent(t) if W.kind(W.parent(t)) == 'PLAIN_INSTR' or W.parent(W.parent(t)) is None else W.parent(W.parent(t))))
    def explain(H, bad):
        d = bad[0][0]; W = H.W
        return 'in %s' % d[:700]
    def attempt(key, f):
        try: f()
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:300]))
    for var, what in MEANS.items():
        key = 'names:' + what
        def names_(var=var, what=what, key=key):
            I, paths = summarise(F, lst, args(F, lst, ('adt', CC, names.index(var), ())), self_=False)
            R.sites |= I.analysed
            H = Holder()
            def at(W):
                l = [t for t, c in uses(W, H.S) if c == what]
                if not l: raise Prune
                return W.E.ch.choose('cursor', l)
            def norm(E, v):
                if v[0] != 'vec': raise Stuck('list')
                out = []
                for x in v[1]:
                    if x[0] != 'adt': raise Stuck('item')
                    g = dict(zip(IF, x[3]))
                    ins = g['insert_text']
                    detail = ('s', 'none')
                    if what in ('local', 'global') and g['label_details'] != NONE:
                        d = g['label_details'][3][0]; d = dict(zip(F.adts[d[1]]['v'][0]['f'], d[3]))['description']
                        detail = d[3][0] if d != NONE else detail
                    out.append(('tup', (g['label'], ins, detail)))
                return ('vec', tuple(sorted(out, key=str)))
            def spec(W):
                S = H.S; t = at(W); out = []
                dollar = W.text(t).startswith('$')
                for el, num, name in S.names(t, what):
                    d = (S.type(el) if what == 'local' else S.globaltype(el) if what == 'global' else None)
                    d = ('s', d if d is not None else 'none')
                    if dollar:
                        if name: out.append(('tup', (('s', name), some(('s', name[1:])), d)))
                    else: out.append(('tup', (('s', name if name else str(num)), NONE, d)))
                return ('vec', tuple(sorted(out, key=str)))
            rows, bad = world.run(F, I, paths, trees, spec, norm, setup=prepare(M, H, at), plain=True)
            if bad:
                sh = lambda v: ', '.join('%s%s%s' % (x[1][0][1], '' if x[1][1] == NONE else ' (inserting %s)' % x[1][1][3][0][1], '' if x[1][2][1] == 'none' else ': %s' % (x[1][2][1],)) for x in v[1]) if v[0] == 'vec' and all(x[1][0][0] == 's' for x in v[1]) else str(v)[:200]
                R.bad(key, '%s (%s): offered for a %s: [%s], in scope: [%s], %s' % (lst.path, lst.file, what, sh(bad[0][1]), sh(bad[0][2]), explain(H, bad)))
            elif not rows: raise Incomplete('no document')
            else: R.ok(key, {'function': lst.path, 'paths': len(paths), 'cursors': rows}); R.count('cursors', rows)
        attempt(key, names_)
    def contexts():
        I, paths = summarise(F, ctx, args(F, ctx), self_=False)
        R.sites |= I.analysed
        for what in list(MEANS.values()) + [None]:
            key = 'context:%s' % (what or 'nothing')
            def one(what=what, key=key):
                H = Holder()
                def at(W):
                    l = [t for t, c in uses(W, H.S) if c == what]
                    if not l: raise Prune
                    return W.E.ch.choose('cursor', l)
                def norm(E, v):
                    if v == NONE: return ('vec', ())
                    v = v[3][0]
                    if v[0] != 'vec' or any(x[0] != 'adt' or x[1] != CC for x in v[1]): raise Stuck('contexts')
                    return ('vec', tuple(sorted(('s', MEANS[names[x[2]]]) for x in v[1] if names[x[2]] in MEANS)))
                def spec(W):
                    at(W); return ('vec', (('s', what),) if what else ())
                rows, bad = world.run(F, I, paths, trees, spec, norm, setup=prepare(M, H, at), plain=True)
                if bad:
                    sh = lambda v: ', '.join(x[1] for x in v[1]) or 'nothing'
                    R.bad(key, '%s (%s): offers names of [%s] where the text names [%s], %s' % (ctx.path, ctx.file, sh(bad[0][1]), what, explain(H, bad)))
                elif not rows: raise Incomplete('no document')
                else: R.ok(key, {'function': ctx.path, 'paths': len(paths), 'cursors': rows}); R.count('cursors', rows)
            attempt(key, one)
    attempt('context', contexts)
    attempt('answer', lambda: answer(F, R, ctx, lst))
    p09.run(F, R, 'premise:')

def answer(F, R, ctx, lst):
    """what is offered is asked for at the token before the cursor of the document in the request"""
    N = Names(F)
    def m_ctx(I, st, a, c):
        x = ('t', 'contexts') + tuple(I.deep(st, v) for v in a); I.tyof[('t', 'discr', x)] = OPT
        return ret(st, x)
    def m_lst(I, st, a, c): return ret(st, ('t', 'offered') + tuple(I.deep(st, v) for v in a[1:]))
    body = svc.method(F, 'completion')
    I, paths = summarise(F, body, [('t', 'params')], models={ctx.path: m_ctx, lst.path: m_lst})
    R.sites |= I.analysed
    u0, uri0, cur0 = request(N, ('t', 'params'), 'CompletionParams', 'text_document_position')
    pos = N.fld(N.fld(('t', 'params'), 'CompletionParams', 'text_document_position'), 'TextDocumentPositionParams', 'position')
    T = Table(F, I, paths, None, limit=100000, short={uri0: URI, pos: ('t', 'POSITION')})
    cursor.install(T.E)
    T.E.ophook['newroot'] = lambda E, g: ('t', 'root') if g[2] == Q('root', URI) else None
    T.E.closed = set(T.E.closed)
    PF = F.adts['lsp_types::Position']['v'][0]['f']
    ps = [F.ty(lst.tys, lst.locals[i + 1]) for i in range(1, lst.n)]
    def spec(E):
        l = E.fld(('t', 'POSITION'), PF.index('line'))[1]; c = E.fld(('t', 'POSITION'), PF.index('character'))[1]
        if l >= len(cursor.STARTS): return NONE
        o = cursor.STARTS[l] + c
        if l + 1 < len(cursor.STARTS) and cursor.STARTS[l + 1] <= o <= cursor.LEN: raise Prune   # beyond the end of a line
        t = ('t', 'tokens', ('i', min(o, cursor.LEN)))
        d = E.discr(t)
        if d == 0: return NONE
        tok = ('t', 'fld', ('t', 'as', t, d), 0)
        x = ('t', 'contexts', tok)
        if E.discr(x) == 0: return NONE
        l = ('t', 'fld', ('t', 'as', x, 1), 0)
        out = tuple(l if 'CmpCtx' in p else URI if 'InternUri' in p else tok if 'SyntaxToken' in p else Q('symbol_table', URI) for p in ps)
        return some(('t', 'offered') + out)
    def norm(E, v):
        if v == NONE: return v
        x = v[3][0]
        names = [q['n'] for q in F.adts['lsp_types::completion::CompletionResponse']['v']]
        if x[0] == 'adt' and names[x[2]] == 'Array': return some(x[3][0])
        raise Stuck('answer')
    old = T.E.ophook['discr']
    T.E.ophook['discr'] = lambda E, v: E.ch.choose(('contexts', v[2]), [0, 1]) if v[:2] == ('t', 'contexts') else old(E, v)
    bad = T.run(spec, norm)
    if bad: R.bad('answer', '%s (%s): in the situation [%s] the answer is %s, expected %s' % (body.path, body.file, bad[0][0][:400], str(bad[0][1])[:300], str(bad[0][2])[:300]))
    else: R.ok('answer', {'function': body.path, 'paths': len(paths), 'table_rows': T.rows}); R.count('table rows', T.rows)
