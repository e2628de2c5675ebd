"""P14: semantic tokens: the encoded list denotes exactly the classified tokens at their places."""
from tab import *
import strcol, svc
import checks.p09 as p09
from cursor import num

SHAPES = ['ab', '\n', 'x\nyz', ' ', '(;\n\n;)']

def order(v): return v

class Doc:
    """a document made of a few tokens with concrete texts"""
    def __init__(self, E, uri, n):
        self.E = E; self.n = n; F = E.F
        self.li = Q('line_index', uri)
        self.root = ('t', 'newroot', Q('root', uri))
        LF = F.adts['line_index::LineCol']['v'][0]['f']
        self.LF = LF
        E.srchook['descendants_with_tokens'] = lambda E, v: self.elements(v)
        E.ophook['into_token'] = lambda E, g: some(g[2]) if g[2][1] == 'dtok' else NONE
        E.ophook['text'] = lambda E, g: ('s', self.text(g[2][2])) if g[2][1] == 'dtok' else None
        E.ophook['start'] = lambda E, g: ('i', self.offset(g[2][2][2])) if g[2][1] == 'range' and g[2][2][1] == 'dtok' else None
        E.ophook['end'] = lambda E, g: ('i', self.offset(g[2][2][2] + 1)) if g[2][1] == 'range' and g[2][2][1] == 'dtok' else None
        E.ophook['len'] = lambda E, g: ('i', len(self.text(g[2][2][2]))) if g[2][1] == 'range' and g[2][2][1] == 'dtok' else None
        E.ophook['rlen'] = E.ophook['len']
        E.ophook['ttype'] = lambda E, g: some(('t', 'class', g[2])) if self.typed(g[2][2]) else NONE
        def h_line_col(E, g):
            if g[2] != self.li: raise Stuck('line index of another document')
            l, c = self.linecol(num(g[3]))
            return ('adt', 'line_index::LineCol', 0, tuple(('i', l) if f == 'line' else ('i', c) for f in LF))
        E.ophook['line_col'] = h_line_col
        strcol.install(E, ['unused'])
        old = E.ophook.get('call')
        def o_call(E, g):
            f = g[2]
            if f.endswith('TextRange::len'): return ('i', len(self.text(g[3][2][2])))
            if f == 'line_index::LineIndex::offset':
                lc = g[4][3]; l, c = num(lc[LF.index('line')]), num(lc[LF.index('col')])
                st = self.starts()
                return some(('i', st[l] + c)) if l < len(st) else NONE
            if f == 'line_index::LineIndex::len': return ('i', self.offset(self.n))
            if f == 'text_size::size::TextSize::checked_add': return some(('i', num(g[3]) + num(g[4])))
            if f.endswith('PartialOrd>::partial_cmp') or f.endswith('Ord>::cmp'):
                x, y = num(g[3]), num(g[4]); o = ('adt', 'core::cmp::Ordering', (x > y) - (x < y) + 1, ())
                return some(o) if 'partial' in f else o
            return old(E, g)
        E.ophook['call'] = o_call
        def o_order(E, x, y):
            x, y = num(x), num(y)
            return (x > y) - (x < y)
        E.ophook['order'] = o_order
    def elements(self, v):
        if v[2] != self.root: raise Stuck('tree of another document')
        return [('t', 'dnode')] + [('t', 'dtok', i) for i in range(self.n)]
    def text(self, i): return self.E.ch.choose(('shape', i), SHAPES)
    def typed(self, i): return self.E.ch.choose(('typed', i), [True, False])
    def offset(self, i): return sum(len(self.text(k)) for k in range(i))
    def whole(self): return ''.join(self.text(k) for k in range(self.n))
    def starts(self):
        t = self.whole(); return [0] + [i + 1 for i, c in enumerate(t) if c == '\n']
    def linecol(self, off):
        t = self.whole()[:off]; return t.count('\n'), off - (t.rfind('\n') + 1)

class Long(Doc):
    """many tokens, long tokens, long lines and many lines; m is larger than every number the formula compares an amount with"""
    ARR = ('tokens on one line', 'tokens on lines of their own', 'long tokens', 'blank lines between', 'far to the right', 'every other token has no class')
    def __init__(self, E, uri, m):
        self.k = 40 + max([0] + [x for x in m if x <= 60]); self.m = m = 270 + max([0] + [x for x in m if x <= 5000]); self.memo = {}
        super().__init__(E, uri, 2 * self.k)
    def arr(self): return self.E.ch.choose('arrangement', self.ARR)
    def doc(self):
        a = self.arr()
        if a in self.memo: return self.memo[a]
        m = self.m; t = []
        for i in range(2 * self.k):
            sp = i % 2
            t.append({'tokens on one line': ' ' if sp else 'ab', 'tokens on lines of their own': '\n' if sp else 'abc', 'long tokens': ' ' if sp else 'x' * (m if i % 4 else m + 1) if i < 12 else 'y',
                      'blank lines between': '\n' * (m + i % 3) + ' ' if sp and i < 12 else ' ' if sp else 'z', 'far to the right': (' ' * (m + i % 3) if i < 12 else '\n' if i == 13 else ' ') if sp else 'w',
                      'every other token has no class': ' ' if sp else 'ab'}[a])
        o = [0]
        for x in t: o.append(o[-1] + len(x))
        w = ''.join(t)
        self.memo[a] = t, o, w, [0] + [i + 1 for i, c in enumerate(w) if c == '\n']
        return self.memo[a]
    def text(self, i): return self.doc()[0][i]
    def offset(self, i): return self.doc()[1][i]
    def whole(self): return self.doc()[2]
    def starts(self): return self.doc()[3]
    def linecol(self, off):
        import bisect
        st = self.starts(); l = bisect.bisect_right(st, off) - 1; return l, off - st[l]
    def typed(self, i): return not i % 2 and (self.arr() != self.ARR[-1] or i % 4 == 0)

def tokens(F, relative=False):
    f = F.adts['lsp_types::semantic_tokens::SemanticToken']['v'][0]['f'] if 'lsp_types::semantic_tokens::SemanticToken' in F.adts else F.adts['lsp_types::SemanticToken']['v'][0]['f']
    def norm(E, v):
        if v[0] != 'adt': raise Stuck('response')
        while v[0] == 'adt' and not v[1].endswith('::SemanticTokens'):
            if v == NONE: return ('s', 'nothing')
            v = v[3][0]
        d = v[3][[x for x in F.adts[v[1]]['v'][0]['f']].index('data')]
        if d[0] != 'vec': raise Stuck('data')
        line = col = 0; out = []
        for x in d[1]:
            x = dict(zip(f, x[3]))
            dl, ds = num(x['delta_line']), num(x['delta_start'])
            if dl < 0 or ds < 0: out.append(('s', 'negative difference')); break
            line += dl; col = ds + (col if dl == 0 else 0)
            out.append(('tup', (('i', line), ('i', col), ('i', num(x['length'])), x['token_type'], x['token_modifiers_bitset'])))
        return firstline(out) if relative else ('arr', tuple(out))
    return norm

def firstline(out):
    'columns of the tokens on the first line counted from the first token'
    if not out or out[0][0] != 'tup': return ('arr', tuple(out))
    l0, c0 = out[0][1][0], num(out[0][1][1])
    return ('arr', tuple(('tup', (x[1][0], ('i', num(x[1][1]) - c0)) + x[1][2:]) if x[0] == 'tup' and x[1][0] == l0 else x for x in out))

def encoding(F, R):
    N = Names(F)
    tp = [b_.path for b_ in F.bodies.values() if b_.path.endswith('LanguageService>::token_type')]
    def tt(I, st, a, c):
        t = ('t', 'ttype', I.deep(st, a[2])); I.tyof[('t', 'discr', t)] = OPT
        return ret(st, t)
    for meth, adt, key, rel in (('semantic_tokens_full', 'SemanticTokensParams', 'encoding:full', False), ('semantic_tokens_range', 'SemanticTokensRangeParams', 'encoding:range', True),
                                ('semantic_tokens_range', 'SemanticTokensRangeParams', 'encoding:range:first-column', False)):
        try:
            if len(tp) != 1: raise Incomplete('no token_type')
            body = svc.method(F, meth)
            I, paths = summarise(F, body, [('t', 'params')], models={tp[0]: tt})
            R.sites |= I.analysed
            u0 = N.fld(N.fld(('t', 'params'), adt, 'text_document'), 'lsp_types::TextDocumentIdentifier', 'uri')
            sh = {Q('uri', u0): URI, u0: REQ}
            if 'range' in key: sh[N.fld(('t', 'params'), adt, 'range')] = ('t', 'RANGE')
            rows = 0
            RF = F.adts['lsp_types::Range']['v'][0]['f']; PF = F.adts['lsp_types::Position']['v'][0]['f']
            for n in ((1, 2, 3, 4, None) if key.endswith('full') else (1, 2, 3) if key.endswith('column') else (1, 2, 3, None)):
                T = Table(F, I, paths, None, limit=300000, short=sh)
                large = 0
                if n is None:
                    large = max([0] + list(T.lits))
                D = Doc(T.E, URI, n) if n else Long(T.E, URI, [x for x in T.lits if x > 0])
                def ends(D=D, n=n):
                    l = len(D.whole())
                    return [(p, q) for p in range(0, l + 1) for q in range(p, l + 1)] if n else [(0, l), (D.offset(D.k // 2), D.offset(3 * D.k // 2)), (l // 3, l), (0, l // 2 + 1)]
                if n == 4 or n == 3 and 'range' in key: D.text = lambda i, E=T.E: E.ch.choose(('shape', i), SHAPES[:3])
                def f_range(E, v, i, D=D, ends=ends):
                    # the range: from the start of one token to the end of one (later) token
                    o = E.ch.choose('range', ends())
                    lc = D.linecol(o[RF[i] == 'end'])
                    return ('adt', 'lsp_types::Position', 0, tuple(('i', lc[f == 'character']) for f in PF))
                T.E.fldhook['RANGE'] = f_range
                def spec(E, D=D, key=key, rel=rel, ends=ends):
                    a, z = 0, 10 ** 6
                    if 'range' in key:
                        a, z = E.ch.choose('range', ends())
                    out = []
                    for i in range(D.n):
                        o = D.offset(i)
                        if not D.typed(i) or o + len(D.text(i)) <= a or o >= z: continue
                        l, c = D.linecol(o)
                        out.append(('tup', (('i', l), ('i', c), ('i', len(D.text(i))), ('t', 'class', ('t', 'dtok', i)), ('i', 0))))
                    return firstline(out) if rel else ('arr', tuple(out))
                bad = T.run(spec, tokens(F, rel))
                rows += T.rows
                if bad:
                    R.bad(key, '%s (%s): for tokens [%s] the list denotes %s, the tokens are %s' % (body.path, body.file, bad[0][0][:500], str(bad[0][1])[:300], str(bad[0][2])[:300]))
                    break
                if large > 60: raise Stuck('amounts are compared with %d' % large)
            else: R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows})
            R.count('table rows', rows)
        except (Incomplete, Stuck, KeyError, IndexError) as e:
            R.undec(key, '%s: %s' % (type(e).__name__, e))

CLASSES = {'type': ('NUM_TYPE', 'VEC_TYPE', 'REF_TYPE'), 'keyword': ('KEYWORD',), 'number': ('FLOAT',), 'string': ('STRING',), 'comment': ('LINE_COMMENT', 'BLOCK_COMMENT'), 'operator': ('INSTR_NAME',)}
TYPES = ('type', 'parameter', 'variable', 'function', 'keyword', 'comment', 'string', 'number', 'operator')
KINDS_ADT = 'wat_service::features::semantic_tokens::SemanticTokenKind'

def service_field(I, s):
    """value of the service's list of token kinds at the end of a path"""
    v = I.deep(s, s.mem[('g', 'self')])
    f = I.F.adts['wat_service::LanguageService']['v'][0]['f']
    return v[3][f.index('semantic_token_kinds')]

def legend(F, R):
    """the announced legend and the internal list of kinds run in parallel; returns kind -> announced type"""
    key = 'legend'
    N = Names(F)
    body = svc.method(F, 'initialize')
    I, paths = summarise(F, body, [('t', 'params')])
    R.sites |= I.analysed
    sf = F.adts['lsp_types::ServerCapabilities']['v'][0]['f']
    def pick(s, v):
        v = I.deep(s, v)
        caps = v[3][F.adts['lsp_types::InitializeResult']['v'][0]['f'].index('capabilities')]
        p = caps[3][sf.index('semantic_tokens_provider')]
        while p[0] == 'adt' and not p[1].endswith('::SemanticTokensOptions'): p = p[3][0]
        l = p[3][F.adts[p[1]]['v'][0]['f'].index('legend')]
        return ('tup', (l[3][F.adts[l[1]]['v'][0]['f'].index('token_types')], service_field(I, s)))
    res = [(dict(s.asm), pick(s, v)) for s, v in paths]
    tbl = {}; rows = 0
    for n in (0, 1, 2):
        T = Table(F, I, res, None, limit=100000)
        E = T.E; strcol.install(E, ['unused'])
        types = list(TYPES) + ['enumMember']
        def src(E, v): return [('t', 'ctype', i) for i in range(n)]
        def ctype(i): return E.ch.choose(('client type', i), types)
        # the list of token types of the client is the only sequence the formulas range over
        E.srchook['fld'] = src
        def f_ctype(E, v, i): return ('adt', 'alloc::borrow::Cow', 0, (('s', ctype(v[2])),))
        E.fldhook['ctype'] = f_ctype
        def spec(E):
            ok = E.ch.choose('semantic tokens announced', [True, False])
            if len(set(ctype(i) for i in range(n))) < n: raise Prune
            l = [ctype(i) for i in range(n)] if ok else []
            return ('arr', tuple(('s', x) for x in l if x in TYPES))
        def norm(E, v):
            a, k = v[1]
            if a[0] == 'vec' and k[0] == 't' and k[1] == 'svcfield': return ('arr', tuple(('s', 'kinds not set') for _ in a[1]))
            if a[0] != 'vec' or k[0] not in ('map', 'vec'): raise Stuck('legend')
            a = [('s', ctype(x[2])) if x[:2] == ('t', 'ctype') else x[3][0][3][0] for x in a[1]]; k = list(k[1])
            if len(a) != len(k): return ('s', '%d types announced, %d kinds kept' % (len(a), len(k)))
            for x, y in zip(a, k):
                if y[0] != 'adt': raise Stuck('kind')
                o = tbl.setdefault(y[2], x[1])
                if o != x[1]: return ('s', 'one kind is announced as %s and as %s' % (o, x[1]))
            return ('arr', tuple(a))
        old = E.ophook.get('discr')
        def h_discr(E, v):
            # optional client capabilities: all present or not
            if v[0] == 't' and v[1] == 'fld': return int(E.ch.choose('semantic tokens announced', [True, False]))
            if v[0] == 'adt': return None
            return old(E, v) if old else None
        E.ophook['discr'] = h_discr
        bad = T.run(spec, norm)
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): for a client announcing [%s] the legend and kinds are %s, expected %s' % (body.path, body.file, bad[0][0][:400], str(bad[0][1])[:300], str(bad[0][2])[:300]))
            return None
    if len(set(tbl.values())) != len(tbl): R.bad(key, '%s (%s): two kinds of token are announced with one type: %s' % (body.path, body.file, tbl)); return None
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)
    return tbl

def classes(F, R, tbl):
    key = 'token-class'
    body = [b_ for b_ in F.bodies.values() if b_.path.endswith('LanguageService>::token_type')]
    if len(body) != 1: raise Incomplete('no token_type')
    def pd(I, st, a, c):
        t = ('t', 'paramdef', I.deep(st, a[1])); I.tyof[('t', 'discr', t)] = OPT
        return ret(st, t)
    m = [b_.path for b_ in F.bodies.values() if b_.path.endswith('SymbolTable::find_param_def')]
    I, paths = summarise(F, body[0], argsof(F, body[0], {'service': ('ref', ('g', 'self'), ()), 'uri': URI, 'token': ('rv', ('t', 'TOKEN'))}), models={p: pd for p in m}, self_=False)
    R.sites |= I.analysed
    names = [v['n'] for v in F.adts[KIND]['v']]; disc = {v['n']: v['d'] for v in F.adts[KIND]['v']}
    T = Table(F, I, paths, None, limit=300000)
    E = T.E; strcol.install(E, ['unused'])
    TK = ('t', 'TOKEN'); P = ('t', 'PARENT'); G = ('t', 'GRAND')
    need = [disc[k] for k in ('INT', 'UNSIGNED_INT', 'IDENT', 'WHITESPACE') ] + [disc[k] for l in CLASSES.values() for k in l]
    tks = sorted(set(T.kinds) | set(need))
    pks = [disc[k] for k in ('OPERAND', 'PARAM', 'INDEX', 'MODULE_FIELD_FUNC')] + [x for x in T.kinds if names[[v['d'] for v in F.adts[KIND]['v']].index(x)].startswith(('MODULE', 'PLAIN', 'EXPORT', 'LOCAL'))]
    gks = [disc[k] for k in ('MODULE_FIELD_START', 'EXPORT_DESC_FUNC', 'PLAIN_INSTR', 'MODULE_FIELD_FUNC')] + pks
    TEXTS = ['call', 'ref.func', 'return_call', 'local.get', 'local.tee', 'global.get', 'call_indirect', 'i32.const']
    def kindcol(x):
        if x == TK: return E.ch.choose('token kind', tks)
        if x == P: return E.ch.choose('parent kind', sorted(set(pks)))
        if x == G: return E.ch.choose('grandparent kind', sorted(set(gks)))
        if x == ('t', 'GTOK'): return disc['INSTR_NAME']
        raise Stuck('kind of ' + str(x))
    def un(v):
        while v[0] == 't' and v[1] in ('deref', 'into_syntax'): v = v[2]
        return v
    E.ophook['kind'] = lambda E, g: ('adt', KIND, [v['d'] for v in F.adts[KIND]['v']].index(kindcol(un(g[2]))), ())
    def parent(E, g):
        x = un(g[2])
        if x == TK: return some(P) if E.ch.choose('has parent', [True, False]) else NONE
        if x == P: return some(G) if E.ch.choose('has grandparent', [True, False]) else NONE
        raise Stuck('parent')
    E.ophook['parent'] = parent
    def instr(): return E.ch.choose('instruction', [None] + TEXTS)
    def elements(E, v):
        if un(v[2]) != G: raise Stuck('elements')
        return [('t', 'GNODE')] + ([('t', 'GTOK')] if instr() else [])
    E.srchook['elements'] = elements
    old_discr = E.ophook.get('discr')
    def d(E, v):
        if v == ('t', 'GNODE'): return 0
        if v == ('t', 'GTOK'): return 1
        if v[0] == 't' and v[1] == 'KINDIDX': return None
        return old_discr(E, v) if old_discr else None
    E.ophook['discr'] = d
    def f_as(E, v, i): return v[2]
    E.fldhook['as'] = f_as
    E.ophook['into_token'] = lambda E, g: some(g[2]) if g[2] == ('t', 'GTOK') else NONE
    E.ophook['into_node'] = lambda E, g: some(g[2]) if g[2] == ('t', 'GNODE') else NONE
    def token(E, g):
        if un(g[2]) != G: raise Stuck('token of')
        return some(('t', 'GTOK')) if instr() and g[3] == ('adt', KIND, names.index('INSTR_NAME'), ()) else NONE
    E.ophook['token'] = token
    E.ophook['text'] = lambda E, g: ('s', instr()) if un(g[2]) == ('t', 'GTOK') else None
    def isparam(): return E.ch.choose('names a parameter', [True, False])
    def paramdef(E, g): return some(('t', 'PARAMDEF')) if isparam() else NONE
    E.ophook['paramdef'] = paramdef
    oc = E.ophook.get('call')
    def o_call(E, g):
        if g[2].endswith('IndexSet::get_index_of'): return some(('tup', (g[4],)))
        return oc(E, g)
    E.ophook['call'] = o_call
    inv = {v: k for k, v in tbl.items()}
    def spec(E):
        k = names[[v['d'] for v in F.adts[KIND]['v']].index(E.ch.choose('token kind', tks))]
        for c, l in CLASSES.items():
            if k in l: return ('s', c)
        if k not in ('INT', 'UNSIGNED_INT', 'IDENT'): return ('s', 'none')
        ident = k == 'IDENT'
        if not E.ch.choose('has parent', [True, False]): return ('s', 'variable' if ident else 'number')
        if ident and kindcol(P) == disc['MODULE_FIELD_FUNC']: return ('s', 'function')
        grand = E.ch.choose('has grandparent', [True, False])
        if grand and (kindcol(G) in (disc['MODULE_FIELD_START'], disc['EXPORT_DESC_FUNC']) or instr() in ('call', 'ref.func', 'return_call')): return ('s', 'function')
        if ident:
            return ('s', 'parameter' if kindcol(P) == disc['PARAM'] or isparam() else 'variable')
        if grand and instr() and instr().startswith('local.'): return ('s', 'parameter' if isparam() else 'variable')
        return ('s', 'number')
    def norm(E, v):
        if v == NONE: return ('s', 'none')
        x = v[3][0]
        while x[0] == 't' and x[1] in ('cast', 'scalar', 'as_u32'): x = x[-1]
        if x[0] != 'tup': raise Stuck('index ' + str(x)[:200])
        return ('s', tbl.get(x[1][0][2], '?'))
    bad = T.run(spec, norm)
    if bad: R.bad(key, '%s (%s): a token in the situation [%s] is classified %s, expected %s' % (body[0].path, body[0].file, bad[0][0][:500], bad[0][1], bad[0][2]))
    else: R.ok(key, {'function': body[0].path, 'paths': len(paths), 'table_rows': T.rows}); R.count('table rows', T.rows)

def paramdef(F, R):
    """the helper that decides whether a name denotes a parameter"""
    key = 'param-lookup'
    m = [b_ for b_ in F.bodies.values() if b_.path.endswith('SymbolTable::find_param_def')]
    if len(m) != 1: raise Incomplete('no lookup of parameters')
    uri = ('t', 'uri'); rows = 0
    I, paths = summarise(F, m[0], [('rv', Q('symbol_table', uri)), ('rv', ('t', 'fld', ('t', 'sym', 0), F.adts[SI]['v'][0]['f'].index('key')))], self_=False)
    R.sites |= I.analysed
    for n in (1, 2, 3):
        T = Table(F, I, paths, uri, n, limit=150000)
        def spec(S):
            d = [x for x in S.resolves(0) if S.kind(x) == 'Param'] if S.kind(0) == 'LocalRef' else []
            return ('arr', tuple(('t', 'sym', x) for x in d[:1]))
        def norm(E, v):
            if v == NONE: return ('arr', ())
            x = v[3][0]
            while x[0] in ('rv',): x = x[1]
            return ('arr', (x,))
        bad = T.run(spec, norm, prune=lambda S: S.uniquenames())
        rows += T.rows
        if bad: R.bad(key, '%s (%s): in the situation [%s] the lookup of the name of symbol 0 gives %s, expected %s' % (m[0].path, m[0].file, bad[0][0], brief(bad[0][1]), brief(bad[0][2]))); return
    R.ok(key, {'function': m[0].path, 'table_rows': rows}); R.count('table rows', rows)

def check(F, R):
    R.rule('the token-list builder is summarised with its running line and column as folds; the formulas are evaluated on documents of up to 4 tokens of every shape (with and without line breaks, classified or not) and the decoded list compared with the tokens; classification and legend are tabulated over token kind, parent, grandparent, instruction and client token types')
    import checks.p16; checks.p16.texts(F, R, 'premise:')
    encoding(F, R)
    tbl = None
    try: tbl = legend(F, R)
    except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('legend', '%s: %s' % (type(e).__name__, e))
    if tbl:
        try: classes(F, R, tbl)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('token-class', '%s: %s' % (type(e).__name__, e))
    else: R.undec('token-class', 'no legend')
    try: paramdef(F, R)
    except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('param-lookup', '%s: %s' % (type(e).__name__, e))
    p09.run(F, R, 'premise:')
