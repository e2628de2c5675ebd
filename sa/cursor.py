"""The token under the cursor: shared premise of everything that answers at a position."""
from tab import *

FN = 'wat_service::features::find_meaningful_token'
# a text of three lines, the last one unterminated
STARTS, LEN = (0, 5, 12), 15
QUIET = ('WHITESPACE', 'LINE_COMMENT', 'BLOCK_COMMENT', 'L_PAREN', 'R_PAREN')
HUGE = 4294967295

def num(v):
    while v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]
    while v[0] == 't' and v[1] in ('cast', 'call') and len(v) > 3 and isinstance(v[-1], tuple) and v[-1][0] in ('i', 'adt', 't'): v = v[-1]
    if v[0] != 'i': raise Stuck('number ' + str(v)[:80])
    return v[1]

def install(E):
    """positions and offsets as numbers"""
    PF = E.F.adts['lsp_types::Position']['v'][0]['f']
    LF = E.F.adts['line_index::LineCol']['v'][0]['f']
    def f_pos(E, v, i):
        if PF[i] == 'line': return ('i', E.ch.choose('line', [0, 1, 2, 3, 7]))
        return ('i', E.ch.choose('character', [0, 1, 3, 4, 100, HUGE]))
    E.fldhook['POSITION'] = f_pos
    def o_call(E, g):
        f = g[2]
        if f == 'line_index::LineIndex::offset':
            lc = g[4][3]; l, c = lc[LF.index('line')], lc[LF.index('col')]
            if num(l) >= len(STARTS): return NONE
            if STARTS[num(l)] + num(c) > HUGE: raise Stuck('overflow')
            return some(('i', STARTS[num(l)] + num(c)))
        if f == 'line_index::LineIndex::len': return ('i', LEN)
        if f == 'text_size::size::TextSize::checked_add':
            return some(('i', num(g[3]) + num(g[4]))) if num(g[3]) + num(g[4]) <= HUGE else NONE
        if f == 'rowan::api::SyntaxNode::token_at_offset':
            if g[3] != ('t', 'root'): raise Stuck('token_at_offset')
            return ('t', 'tokens', ('i', num(g[4])))
        if f.endswith('PartialOrd>::partial_cmp') or f.endswith('Ord>::cmp'):
            x, y = num(g[3]), num(g[4])
            o = ('adt', 'core::cmp::Ordering', (x > y) - (x < y) + 1, ())
            return some(o) if 'partial' in f else o
        if f.startswith('core::cmp::min') or f.endswith('::min') or f.endswith('::max'):
            return ('i', (min if 'min' in f.rsplit('::', 1)[-1] else max)(num(g[3]), num(g[4])))
    E.ophook['call'] = o_call
    def o_order(E, x, y):
        x, y = num(x), num(y)
        return (x > y) - (x < y)
    E.ophook['order'] = o_order
    def h_discr(E, v):
        if v[:2] == ('t', 'tokens'):
            return E.ch.choose(('at', v[2]), [0, 1, 2])
    E.ophook['discr'] = h_discr
    for m in ('min', 'max'):
        E.ophook[m] = lambda E, g, m=m: ('i', (min if m == 'min' else max)(g[2][1], g[3][1])) if g[2][0] == g[3][0] == 'i' else None

def run(F, R, prefix=''):
    key = prefix + 'token-at-cursor'
    import checks.p16; checks.p16.texts(F, R, prefix)
    try:
        body = [x for x in F.bodies.values() if x.path == FN]
        if len(body) != 1: raise Incomplete('no function ' + FN)
        body = body[0]
        I, paths = summarise(F, body, [('ref', ('g', 'self'), ()), ('t', 'uri'), ('rv', ('t', 'root')), ('t', 'POSITION')], self_=False, models={FN: None})
        R.sites |= I.analysed
        T = Table(F, I, paths, None, limit=100000)
        nk = {v['n']: v['d'] for v in F.adts[KIND]['v']}
        T.E.kinds = sorted(set(T.kinds) | {nk[k] for k in QUIET + ('IDENT', 'ERROR', 'INSTR_NAME', 'INT', 'STRING')})
        install(T.E)
        names = [x['n'] for x in F.adts['rowan::utility_types::TokenAtOffset']['v']] if 'rowan::utility_types::TokenAtOffset' in F.adts else ['None', 'Single', 'Between']
        if names != ['None', 'Single', 'Between']: raise Incomplete('TokenAtOffset')
        def spec(E):
            l = E.fld(('t', 'POSITION'), [x for x in F.adts['lsp_types::Position']['v'][0]['f']].index('line'))[1]
            c = E.fld(('t', 'POSITION'), [x for x in F.adts['lsp_types::Position']['v'][0]['f']].index('character'))[1]
            if l >= len(STARTS): return NONE
            o = STARTS[l] + c
            if l + 1 < len(STARTS) and STARTS[l + 1] <= o <= LEN: raise Prune   # beyond the end of a line
            t = ('t', 'tokens', ('i', min(o, LEN)))
            d = E.discr(t)
            if d == 0: return NONE
            f = lambda i: ('t', 'fld', ('t', 'as', t, d), i)
            if d == 1: return some(f(0))
            q = [E.discr(('t', 'kind', f(i))) in [nk[k] for k in QUIET] for i in (0, 1)]
            if q[0] == q[1]: raise Prune
            return some(f(1 if q[0] else 0))
        bad = T.run(spec)
        if bad: R.bad(key, '%s (%s): in the situation [%s] the token taken is %s, it has to be %s' % (body.path, body.file, bad[0][0][:400], str(bad[0][1])[:200], str(bad[0][2])[:200]))
        else: R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': T.rows})
        R.count('cursor rows', T.rows)
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(key, '%s: %s' % (type(e).__name__, e))
