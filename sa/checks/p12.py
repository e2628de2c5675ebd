"""P12: rename edits exactly the occurrences of the name under the cursor that denote the same thing; prepareRename offers exactly identifiers."""
from tab import *
import strcol, cursor, checks.p09 as p09

FAM = {}
for d, r in FIELD.items(): FAM[d] = FAM[r] = d
FAM.update(Param='Local', Local='Local', LocalRef='Local', BlockDef='Block', BlockRef='Block', Module='Module')
NEW = strcol.ATOM

def validname(s): return s[:1] == '$' and len(s) > 1 and all(c in strcol.IDCHARS for c in s[1:])

def edits(F):
    f = F.adts['lsp_types::WorkspaceEdit']['v'][0]['f']
    def norm(E, v):
        if v[0] != 'adt' or v[1] != 'core::result::Result': raise Stuck('response of rename')
        if v[2] == 1: return ('s', 'error')
        if v[3][0][0] != 'adt': raise Stuck('result of rename')
        if v[3][0][2] == 0: return ('vec', ())
        w = v[3][0][3][0]
        for k, x in zip(f, w[3]):
            if k != 'changes' and x != NONE and not (x[0] == 't' and x[1] == 'fld' and x[2][:2] == ('t', 'default')): raise Stuck('edit with ' + k)
        c = w[3][f.index('changes')]
        if c == NONE: return ('vec', ())
        out = []
        for e in E.src(c[3][0]):
            if e[0] != 'tup': raise Stuck('changes')
            for x in E.src(e[1][1]): out.append(('tup', (e[1][0], x)))
        return ('vec', tuple(out))
    return norm

def spec_of(N, others):
    F = N.F
    tok = N.opt(CUR)
    def spec(S):
        E = S.E
        new = E.ev(NEW, {})
        if not validname(new[1]): return ('s', 'error')
        if E.discr(CUR, OPT) == 0 or E.discr(('t', 'kind', tok)) != S.nk['IDENT']: return ('s', 'error')
        if E.discr(('t', 'parent', tok), OPT) == 0: return ('vec', ())
        node = S.cursornode()
        if node[1] != 'symnode': return ('vec', ())
        i = node[2]
        if S.kind(i) == 'Module': return ('vec', ())
        if S.name(i) == NONE: raise Prune          # an identifier under the cursor is the name of the symbol
        out = []
        if FAM[S.kind(i)] == 'Block':
            D = [i] if S.kind(i) == 'BlockDef' else S.resolves(i)
            l = [k for k in range(S.n) if k == i or k in D or D and S.kind(k) == 'BlockRef' and S.resolves(k) == D]
        else:
            l = [k for k in range(S.n) if k == i or S.kind(k) != 'Module' and FAM[S.kind(k)] == FAM[S.kind(i)] and S.sameregion(i, k) and S.name(k) == S.name(i)]
            if not others:
                for k in range(S.n):
                    if k not in l and S.kind(k) != 'Module' and FAM[S.kind(k)] != 'Block' and S.sameregion(i, k) and S.name(k) == S.name(i): raise Prune
        for k in l:
            for t in S.occurrences(k):
                out.append(('tup', (REQ, adtval(F, 'lsp_types::TextEdit', range=N.range(Q('line_index', URI), ('t', 'range', t)), new_text=new))))
        return ('vec', tuple(out))
    return spec

def rename(F, R):
    N = Names(F)
    key = 'rename'
    try:
        body = svc.method(F, 'rename')
        I, paths = summarise(F, body, [('t', 'params')])
        R.sites |= I.analysed
        u0, uri0, cur0 = request(N, ('t', 'params'), 'RenameParams', 'text_document_position')
        new = N.fld(('t', 'params'), 'RenameParams', 'new_name')
        tok = N.opt(CUR)
        def table(n, values):
            T = Table(F, I, paths, URI, n, limit=200000, short={cur0: CUR, uri0: URI, u0: REQ, new: NEW})
            strcol.install(T.E, values)
            def setup(S):
                S.cursor = tok; S.tokens = True
            T.setup = setup
            return T
        def say(k, b): R.bad(k, '%s (%s): in the situation [%s] the code answers %s, the edits have to be %s' % (body.path, body.file, b[0], brief(b[1]), brief(b[2])))
        rows = 0
        # the new name: every ASCII character in the second place, and the other shapes
        vals = ['', '$', 'a', '$a', '$$', ' $a', '$a b', '$ab)', '$\xe4', 'a$'] + ['$' + chr(c) for c in range(128)] + ['$x' + chr(c) for c in range(32, 128)]
        T = table(1, vals)
        tk = T.keep(('t', 'kind', tok)); pr = T.keep(('t', 'parent', tok))
        T.ch.pinned = {('discr', CUR): 1, ('discr', tk): [v['d'] for v in F.adts[KIND]['v'] if v['n'] == 'IDENT'][0], ('discr', pr): 1, 'cursor': ('t', 'symnode', 0), ('kind', 0): 'Func', ('named', 0): True}
        bad = T.run(spec_of(N, False), edits(F))
        rows += T.rows
        if bad: say('rename:new-name', bad[0])
        else: R.ok('rename:new-name', {'function': body.path, 'names': len(vals)})
        for n in (1, 2, 3):
            T = table(n, ['$new', '('] if n == 1 else ['$new'])
            bad = T.run(spec_of(N, False), edits(F))
            rows += T.rows
            if bad: say(key, bad[0]); break
        else: R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows})
        T = table(2, ['$new'])
        bad = T.run(spec_of(N, True), edits(F))
        if bad: say('rename:other-kind', bad[0])
        else: R.ok('rename:other-kind', {'function': body.path})
        R.count('table rows', rows); R.count('abstract paths', len(paths))
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))

def prepare(F, R):
    N = Names(F)
    key = 'prepare-rename'
    try:
        body = svc.method(F, 'prepare_rename')
        I, paths = summarise(F, body, [('t', 'params')])
        R.sites |= I.analysed
        u0, uri0, cur0 = request(N, ('t', 'params'), 'TextDocumentPositionParams', None)
        tok = N.opt(CUR)
        T = Table(F, I, paths, URI, 1, short={cur0: CUR, uri0: URI, u0: REQ})
        def spec(S):
            if S.E.discr(CUR, OPT) == 0 or S.E.discr(('t', 'kind', tok)) != S.nk['IDENT']: return ('s', 'nothing')
            return N.range(Q('line_index', URI), ('t', 'range', tok))
        names = [v['n'] for v in F.adts[N.adt('PrepareRenameResponse')]['v']]
        def norm(E, v):
            if v == NONE: return ('s', 'nothing')
            x = v[3][0]
            if x[0] == 'adt' and x[1].endswith('PrepareRenameResponse') and names[x[2]] in ('Range', 'RangeWithPlaceholder'): return x[3][0]
            raise Stuck('response of prepareRename')
        bad = T.run(spec, norm)
        if bad: R.bad(key, '%s (%s): in the situation [%s] the code answers %s, it has to be %s' % (body.path, body.file, bad[0][0], brief(bad[0][1]), brief(bad[0][2])))
        else: R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': T.rows})
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))

def check(F, R):
    R.rule('the rename and prepareRename handlers are summarised as formulas over the symbol table by abstract interpretation of their MIR and tabulated over every combination of symbol kinds, scopes, numbers, names, block nestings and repeated labels of up to 3 symbols; the new name takes every ASCII character')
    rename(F, R)
    prepare(F, R)
    cursor.run(F, R, 'premise:')
    p09.run(F, R, 'premise:')
