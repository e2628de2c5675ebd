"""P18: selection ranges are the chain of enclosing syntax, folding ranges the groups of several lines."""
from tab import *
import svc

def recursive(F, E, seen, lits=None):
    """formulas of functions that call themselves: their summary is unfolded at the arguments of the call"""
    memo = {}
    def call(E, g):
        path = g[2]
        if path not in memo:
            l = [x for x in F.bodies.values() if x.path == path]
            if len(l) != 1: raise Stuck('call of ' + path)
            args = [('t', 'ARG', i) for i in range(l[0].n)]
            I, paths = summarise(F, l[0], args, self_=False)
            seen.update(I.analysed)
            E.I.tyof.update(I.tyof)
            E.lits = set(E.lits) | literals([x for s, v in paths for x in list(s.asm.items()) + [I.deep(s, v)]])
            if lits is not None: lits.update(E.lits)
            memo[path] = [(dict(s.asm), I.deep(s, v)) for s, v in paths], {}
        paths, trees = memo[path]
        a = g[3:]
        if a not in trees:
            it = Intern({('t', 'ARG', i): x for i, x in enumerate(a)})
            for t in list(E.I.tyof): E.I.tyof.setdefault(it(t), E.I.tyof[t])
            trees[a] = Tree([({it(t): v for t, v in gd.items()}, it(v)) for gd, v in paths]), it
        return E.paths(trees[a][0])
    E.ophook['call'] = call

def selection(F, R):
    key = 'selection'
    N = Names(F)
    body = svc.method(F, 'selection_range')
    I, paths = summarise(F, body, [('t', 'params')])
    R.sites |= I.analysed
    P = ('t', 'params')
    u = Q('uri', N.fld(N.fld(P, 'SelectionRangeParams', 'text_document'), 'lsp_types::TextDocumentIdentifier', 'uri'))
    poss = N.fld(P, 'SelectionRangeParams', 'positions')
    root = ('t', 'newroot', Q('root', u)); li = Q('line_index', u)
    SR = N.adt('SelectionRange')
    rows = 0
    big = None; lits = set()
    for n, depth in ((0, 1), (1, 4), (2, 3), (3, 2), (1, [big]), (big, [1])):
        T = Table(F, I, paths, None, limit=100000); E = T.E
        lits |= T.lits
        big = 40 + max([x for x in lits if 0 < x <= 300] + [0])
        if None in (n, (depth if isinstance(depth, int) else depth[0])) and any(x > 300 for x in lits): raise Stuck('amounts are compared with %d' % max(lits))
        if depth == [None]: depth = [big]
        if n is None: n = big
        recursive(F, E, R.sites, lits)
        E.srchook['fld'] = lambda E, v: [('t', 'at', i) for i in range(n)] if v == poss else None
        # node (i, j): j-th enclosing node of the i-th position, (i, 0) is the token
        def height(i): return E.ch.choose(('enclosing nodes of position', i), depth if isinstance(depth, list) else [None] + list(range(depth + 1)))
        def cursor(E, g):
            if g[2] != u or g[3] != root or g[4][:2] != ('t', 'at'): raise Stuck('cursor ' + str(g)[:200])
            return NONE if height(g[4][2]) is None else some(('t', 'nd', g[4][2], 0))
        E.ophook['cursor'] = cursor
        def parent(E, g):
            v = g[2]
            if v[1] != 'nd': raise Stuck('parent of ' + str(v)[:100])
            return some(('t', 'nd', v[2], v[3] + 1)) if v[3] < height(v[2]) else NONE
        E.ophook['parent'] = parent
        def up(E, v, first):
            x = v[2]
            if x[1] != 'nd': return None
            return [('t', 'nd', x[2], j) for j in range(x[3] + first, height(x[2]) + 1)]
        E.srchook['ancestors'] = lambda E, v: up(E, v, 0)
        E.srchook['parent_ancestors'] = lambda E, v: up(E, v, 1)
        def spec(E):
            out = []
            for i in range(n):
                h = height(i); at = ('t', 'at', i)
                if h is None: out.append(adtval(F, SR, range=adtval(F, 'lsp_types::Range', start=at, end=at), parent=NONE)); continue
                r = NONE
                for j in range(h, -1, -1): r = some(adtval(F, SR, range=N.range(li, ('t', 'range', ('t', 'nd', i, j))), parent=r))
                out.append(r[3][0])
            return ('arr', tuple(out))
        def norm(E, v):
            if v[0] == 'adt' and v[1] == OPT and v[2] == 1 and v[3][0][0] == 'vec': return ('arr', v[3][0][1])
            if v == NONE: return ('arr', (('s', 'no answer'),))
            raise Stuck('answer')
        bad = T.run(spec, norm)
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): with %d positions and %s the answer is %s, expected %s' % (body.path, body.file, n, bad[0][0][:200], nodes(bad[0][1]), nodes(bad[0][2]))); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def nodes(v):
    """chains of nodes of an answer, readably"""
    import re
    return re.sub(r"\('t', 'fld', \('t', 'line_col', .*?\('t', '(start|end)', \('t', 'range', \('t', 'nd', (\d+), (\d+)\)\)\)\), \d\)", r'\1 of \2.\3', str(v)).replace("'adt', ", '').replace("'lsp_types::", "'").replace("'core::option::", "'")[:600]

def folding(F, R):
    key = 'folding'
    N = Names(F)
    body = svc.method(F, 'folding_range')
    I, paths = summarise(F, body, [('t', 'params')])
    R.sites |= I.analysed
    u = Q('uri', N.fld(N.fld(('t', 'params'), 'FoldingRangeParams', 'text_document'), 'lsp_types::TextDocumentIdentifier', 'uri'))
    root = ('t', 'newroot', Q('root', u)); li = Q('line_index', u)
    FR = N.adt('FoldingRange')
    kinds = [v['n'] for v in F.adts[KIND]['v']]
    lc = F.adts['line_index::LineCol']['v'][0]['f'] if 'line_index::LineCol' in F.adts else ['line', 'col']
    rows = 0
    big = None
    for n in (1, 2, 3, 4, None):
        T = Table(F, I, paths, None, limit=200000); E = T.E
        recursive(F, E, R.sites)
        if big is None: big = sorted(x for x in T.lits if 0 < x)
        many = n is None
        if many: n = 40 + max([x for x in big if x <= 300] + [0])
        if many and any(x > 300 for x in big): raise Stuck('amounts are compared with %d' % max(big))
        def desc(E, v):
            if v[2] != root: raise Stuck('tree of another document')
            return [('t', 'dn', i) for i in range(n)]
        E.srchook['descendants'] = desc
        # the first node is the root, which holds modules, comments and errors only
        byd = {v['d']: v['n'] for v in F.adts[KIND]['v']}
        used = [byd[d] for d in kindset(F, [y for g, v in T.paths for y in list(g.items()) + [v]])]
        def kind(E, g):
            if g[2][:2] != ('t', 'dn') and g[2] != root: return None
            i = g[2][2] if g[2] != root else 0
            k = 'ROOT' if i == 0 else 'MODULE' if many else E.ch.choose('kind of node %d' % i, sorted({x for x in used if x != 'ROOT'} | {'BLOCK_BLOCK'}))
            return ('adt', KIND, kinds.index(k), ())
        E.ophook['kind'] = kind
        def has(i, k): return False if i == 0 else k == 'L_PAREN' if many else E.ch.choose(('node %d has token' % i, k), [True, False])
        def token(E, g):
            v, k = g[2], g[3]
            if v == root: v = ('t', 'dn', 0)
            if v[1] != 'dn' or k[0] != 'adt': raise Stuck('token ' + str(g)[:200])
            return some(('t', 'tkn', v[2], kinds[k[2]])) if has(v[2], kinds[k[2]]) else NONE
        E.ophook['token'] = token
        far = sorted({(1, x + d) for x in big for d in (0, 1, 2, 3)} | {(x + d, x + d + 1) for x in big for d in (0, 1, 2)} - {(1, 1), (1, 2), (2, 2), (2, 4)})
        def lines(i): return (1 + i, 3 + 2 * i) if many else E.ch.choose(('lines of node', i), [(1, 1), (1, 2), (2, 2), (2, 4)] + (far if i == 1 else []))
        def fl(E, v, i):
            if v[2] != li or v[3][:2] not in (('t', 'start'), ('t', 'end')) or v[3][2][:2] != ('t', 'range') or v[3][2][2][1] not in ('dn', 'newroot'): raise Stuck('place ' + str(v)[:200])
            nd = v[3][2][2]; k = 0 if nd == root else nd[2]; e = v[3][1] == 'end'
            return ('i', lines(k)[e]) if lc[i] == 'line' else ('i', 10 * (k + 1) + e)
        E.fldhook['line_col'] = fl
        def spec(E):
            out = []
            for i in range(n):
                if not (has(i, 'KEYWORD') or has(i, 'L_PAREN')): continue
                a, z = lines(i)
                if a != z: out.append(('tup', (('i', a), ('i', 10 * (i + 1)), ('i', z), ('i', 10 * (i + 1) + 1))))
            return ('vec', tuple(out))
        def norm(E, v):
            if v[0] == 'adt' and v[1] == OPT and v[2] == 1 and v[3][0][0] == 'vec':
                out = []
                for x in v[3][0][1]:
                    if x[0] != 'adt' or x[1] != FR: raise Stuck('element')
                    g = dict(zip(F.adts[FR]['v'][0]['f'], x[3]))
                    def col(c): return c[3][0] if c[0] == 'adt' and c[2] == 1 else ('s', 'whole line')
                    out.append(('tup', (g['start_line'], col(g['start_character']), g['end_line'], col(g['end_character']))))
                return ('vec', tuple(out))
            if v == NONE: return ('vec', (('s', 'no answer'),))
            raise Stuck('answer')
        bad = T.run(spec, norm)
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): for %s the ranges are %s, expected %s' % (body.path, body.file, bad[0][0][:300], bad[0][1], bad[0][2])); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def check(F, R):
    R.rule('The formula of each answer, extracted from MIR, is tabulated over all small shapes of the syntax tree against the rule.')
    for f in (selection, folding):
        try: f(F, R)
        except (Incomplete, Stuck, KeyError, IndexError, RecursionError) as e: R.undec(f.__name__, '%s: %s' % (type(e).__name__, str(e)[:300]))
    R.floor('functions analysed', len(R.sites), 4)
    import checks.p16; checks.p16.texts(F, R, 'premise:')
