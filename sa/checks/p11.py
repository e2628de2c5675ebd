"""P11: find-references answers the declaration (on demand) and every use of what the symbol under the cursor denotes."""
from tab import *
import cursor, checks.p09 as p09

def check(F, R):
    R.rule('the references handler is summarised as a formula over the symbol table by abstract interpretation of its MIR and tabulated over every combination of symbol kinds, scopes, numbers, names and block nestings of up to 3 symbols')
    key = 'references'
    N = Names(F)
    try:
        body = svc.method(F, 'find_references')
        I, paths = summarise(F, body, [('t', 'params')])
        R.sites |= I.analysed
        u0, uri0, cur0 = request(N, ('t', 'params'), 'ReferenceParams', 'text_document_position')
        incl = N.fld(N.fld(('t', 'params'), 'ReferenceParams', 'context'), 'ReferenceContext', 'include_declaration')
        tok = N.opt(CUR)
        rows = 0
        for n in (1, 2, 3):
            T = Table(F, I, paths, URI, n, limit=150000, short={cur0: CUR, uri0: URI, u0: REQ, incl: ('t', 'INCLUDE_DECLARATION')})
            def setup(S): S.cursor = tok
            T.setup = setup
            def spec(S):
                E = S.E
                if E.discr(CUR, OPT) == 0 or E.discr(('t', 'parent', tok), OPT) == 0: return ('vec', ())
                if S.n > 1: S.ch.asg.setdefault(('discr', ('t', 'kind', tok)), S.nk['IDENT'])
                if E.discr(('t', 'kind', tok)) not in [S.nk[x] for x in ('IDENT', 'INT', 'UNSIGNED_INT', 'NUM_TYPE', 'VEC_TYPE', 'REF_TYPE', 'KEYWORD')]: return ('vec', ())
                node = S.cursornode()
                if node[1] != 'symnode': return ('vec', ())
                i = node[2]
                if S.kind(i) == 'Module': return ('vec', ())
                D = [i] if S.kind(i) in DEFS else S.resolves(i)
                if not D: return ('vec', ())
                out = list(D) if E.truth(('t', 'INCLUDE_DECLARATION')) else []
                out += [r for r in range(S.n) if S.kind(r) in REFS and set(S.resolves(r)) & set(D)]
                return ('vec', tuple(location(N, E, S, Q('line_index', URI), REQ, S.nodeof(d)) for d in out))
            bad = T.run(spec, locations, prune=lambda S: S.uniquenames())
            rows += T.rows
            if bad:
                R.bad(key, '%s (%s): in the situation [%s] the code answers %s, the occurrences are %s' % (body.path, body.file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
                return
        R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows})
        R.count('table rows', rows); R.count('abstract paths', len(paths))
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))
    cursor.run(F, R, 'premise:')
    p09.run(F, R, 'premise:')
