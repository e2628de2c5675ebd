"""P13: definitions that share a name in one scope are reported, each with all the others; unique names are not."""
from tab import *
import checks.p09 as p09
from checks.p12 import FAM

NAMED = tuple(k for k in DEFS if k != 'BlockDef')

def check(F, R):
    R.rule('the duplicate-name checker is summarised as a formula over the symbol table by abstract interpretation of its MIR and tabulated over every combination of symbol kinds, scopes and names of up to 3 symbols')
    key = 'duplicates'
    N = Names(F)
    try:
        body = [b_ for b_ in F.bodies.values() if b_.path == 'wat_service::checker::dup_names::check']
        if len(body) != 1: raise Incomplete('no check function')
        body = body[0]
        uri = ('t', 'uri'); li = Q('line_index', uri)
        st_ = Q('symbol_table', uri)
        def setup(st): st.mem[('g', 'diags')] = ('vec', ())
        byname = {'service': ('ref', ('g', 'self'), ()), 'diags': ('ref', ('g', 'diags'), ()), 'line_index': ('rv', li), 'symbol_table': ('rv', st_), 'uri': uri, 'root': ('rv', ('t', 'newroot', Q('root', uri)))}
        I, paths = summarise(F, body, argsof(F, body, byname), self_=False, setup=setup)
        R.sites |= I.analysed
        res = [(dict(s.asm), I.deep(s, s.mem[('g', 'diags')])) for s, v in paths]
        f = F.adts['lsp_types::Diagnostic']['v'][0]['f']
        ri, mi, si, rel = f.index('range'), f.index('message'), f.index('severity'), f.index('related_information')
        rf = F.adts[N.adt('DiagnosticRelatedInformation')]['v'][0]['f']
        lf = F.adts['lsp_types::Location']['v'][0]['f']
        def at(S, k):
            t = S.T(('t', 'token', S.nodeof(k), ('adt', KIND, [v['n'] for v in F.adts[KIND]['v']].index('IDENT'), ())))
            if S.E.discr(t, OPT) == 1: return N.range(li, ('t', 'range', t[3][0] if t[0] == 'adt' else ('t', 'fld', ('t', 'as', t, 1), 0)))
            return N.range(li, ('t', 'range', S.nodeof(k)))
        def spec_of(others):
            def spec(S):
                defs = [i for i in range(S.n) if S.kind(i) in NAMED and S.name(i) != NONE]
                if any(S.kind(i) in ('BlockDef', 'BlockRef') for i in range(S.n)): raise Prune
                out = []
                for i in defs:
                    same = []
                    for j in defs:
                        if j != i and S.name(i) == S.name(j) and S.sameregion(i, j):
                            if FAM[S.kind(i)] == FAM[S.kind(j)]: same.append(j)
                            elif not others: raise Prune
                    if same: out.append(('tup', (at(S, i), S.nm(i), ('s', 'error'), ('vec', tuple(('tup', (Q('lookup_uri', uri), at(S, j))) for j in same)))))
                return ('vec', tuple(out))
            return spec
        def norm(E, v):
            if v[0] != 'vec': raise Stuck('diagnostics')
            out = []
            for d in v[1]:
                r = d[3][rel]
                l = E.src(r[3][0]) if r[0] == 'adt' and r[2] == 1 else []
                out.append(('tup', (d[3][ri], quoted(d[3][mi]), severity(E, d[3][si]), ('vec', tuple(('tup', (x[3][rf.index('location')][3][lf.index('uri')], x[3][rf.index('location')][3][lf.index('range')])) for x in l)))))
            return ('vec', tuple(out))
        rows = 0
        for n in (1, 2, 3):
            T = Table(F, I, res, uri, n, limit=150000)
            bad = T.run(spec_of(False), norm)
            rows += T.rows
            if bad:
                R.bad(key, '%s (%s): in the situation [%s] the code reports %s, duplicated are %s' % (body.path, body.file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
                break
        else: R.ok(key, {'function': body.path, 'paths': len(res), 'table_rows': rows})
        T = Table(F, I, res, uri, 2, limit=150000)
        bad = T.run(spec_of(True), norm)
        if bad: R.bad('duplicates:other-kind', '%s (%s): in the situation [%s] the code reports %s, duplicated are %s' % (body.path, body.file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
        else: R.ok('duplicates:other-kind', {'function': body.path})
        R.count('table rows', rows)
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))
    p09.run(F, R, 'premise:')
