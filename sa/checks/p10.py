"""P10: go-to-definition / declaration / type definition and the undefined-name diagnostics follow the scoping rules."""
from tab import *
import cursor, checks.p09 as p09
import fw

def goto(R, F, name, rel):
    key = 'goto:' + name
    N = Names(F)
    try:
        body = svc.method(F, name)
        I, paths = summarise(F, body, [('t', 'params')])
        R.sites |= I.analysed
        u0, uri0, cur0 = request(N, ('t', 'params'), 'GotoDefinitionParams', 'text_document_position_params')
        u, uri, cur = REQ, URI, CUR
        tok = N.opt(cur)
        rows = 0
        for n in (1, 2, 3):
            T = Table(F, I, paths, uri, n, limit=150000, short={cur0: CUR, uri0: URI, u0: REQ})
            def setup(S): S.cursor = tok
            T.setup = setup
            def spec(S):
                E = S.E
                if E.discr(cur, OPT) == 0 or E.discr(('t', 'parent', tok), OPT) == 0: return ('vec', ())
                node = S.cursornode()
                if node[1] != 'symnode': return ('vec', ())
                i = node[2]
                return ('vec', tuple(location(N, E, S, Q('line_index', uri), u, S.nodeof(d)) for d in rel(S, i)))
            bad = T.run(spec, locations, prune=lambda S: S.uniquenames())
            rows += T.rows
            if bad:
                R.bad(key, '%s (%s): with the cursor on symbol in the situation [%s] the code answers %s, the definitions are %s' % (body.path, body.file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
                return
        R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows})
        R.count('table rows', rows); R.count('abstract paths', len(paths))
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))

def undef(R, F):
    key = 'undefined-names'
    N = Names(F)
    try:
        body = [b_ for b_ in F.bodies.values() if b_.path == 'wat_service::checker::undef::check']
        if len(body) != 1: raise Incomplete('no check function')
        uri = ('t', 'uri')
        st_ = Q('symbol_table', uri)
        def setup(st): st.mem[('g', 'diags')] = ('vec', ())
        byname = {'service': ('ref', ('g', 'self'), ()), 'diags': ('ref', ('g', 'diags'), ()), 'line_index': ('rv', Q('line_index', uri)), 'symbol_table': ('rv', st_), 'uri': uri, 'root': ('rv', ('t', 'newroot', Q('root', uri)))}
        args = argsof(F, body[0], byname)
        I, paths = summarise(F, body[0], args, self_=False, setup=setup)
        R.sites |= I.analysed
        res = [(dict(s.asm), I.deep(s, s.mem[('g', 'diags')])) for s, v in paths]
        f = F.adts['lsp_types::Diagnostic']['v'][0]['f']
        ri, mi, si = f.index('range'), f.index('message'), f.index('severity')
        rows = 0
        for n in (1, 2, 3):
            T = Table(F, I, res, uri, n, limit=150000)
            def spec(S):
                return ('vec', tuple(('tup', (N.range(Q('line_index', uri), ('t', 'range', S.nodeof(i))), shown(S, i), ('s', 'error'))) for i in range(S.n) if S.kind(i) in REFS and not S.resolves(i)))
            def shown(S, i):
                return S.num(i)[3][0] if S.num(i) != NONE else S.nm(i)
            def norm(E, v):
                if v[0] != 'vec': raise Stuck('diagnostics')
                return ('vec', tuple(('tup', (d[3][ri], quoted(d[3][mi]), severity(E, d[3][si]))) for d in v[1]))
            bad = T.run(spec, norm, prune=lambda S: S.uniquenames())
            rows += T.rows
            if bad:
                R.bad(key, '%s (%s): in the situation [%s] the code reports %s, unresolved are %s' % (body[0].path, body[0].file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
                return
        R.ok(key, {'function': body[0].path, 'paths': len(res), 'table_rows': rows})
        R.count('table rows', rows)
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))

def check(F, R):
    R.rule('goto handlers summarised as formulas over the symbol table by abstract interpretation of their MIR; the formulas are tabulated over every combination of symbol kinds, scopes, numbers, names and block nestings of up to 3 symbols and compared with the scoping rules')
    goto(R, F, 'goto_definition', lambda S, i: S.resolves(i) if S.kind(i) in REFS else [])
    def decl(S, i):
        if S.kind(i) not in REFOF: return []
        if S.E.discr(('t', 'kind', S.nodeof(i))) != S.nk['OPERAND']: return []
        return S.resolves(i)
    goto(R, F, 'goto_declaration', decl)
    undef(R, F)
    cursor.run(F, R, 'premise:')
    p09.run(F, R, 'premise:')
