"""P16: the diagnostics of a document are the findings of every check, each once, whether pushed or pulled."""
import tab
from tab import *
import strcol, svc

CK = 'wat_service::checker::'
PARTS = {'multi_modules::check': ('ROOT',), 'typeck::check_stacked': ('MODULE_FIELD_FUNC', 'MODULE_FIELD_GLOBAL'), 'literal_operands::check': ('PLAIN_INSTR',), 'typeck::check_folded': ('PLAIN_INSTR',),
         'undef::check': None, 'dup_names::check': None}

def arg_of(F, body, word):
    for i in range(body.n):
        l = body.locals[i + 1]
        if word in F.ty(body.tys, l[0] if isinstance(l, (list, tuple)) else l): return i
    return None

def dis(F): return {v['n']: v['d'] for v in F.adts[KIND]['v']}

def assembly(F, R):
    key = 'all-checks-run'
    by = {}
    for n in PARTS:
        l = [x for x in F.bodies.values() if x.path == CK + n]
        if len(l) != 1: raise Incomplete('no check ' + n)
        by[n] = l[0]
    models = {}
    def mk(n, bd):
        di, ni = arg_of(F, bd, 'Diagnostic'), arg_of(F, bd, 'SyntaxNode')
        if di is None or PARTS[n] and ni is None: raise Incomplete('signature of ' + n)
        others = [i for i in range(bd.n) if i not in (di,)]
        def m(I, st, a, c):
            st = st.copy()
            rest = tuple(I.deep(st, a[i]) for i in others if i != ni)
            seq_append(I, st, a[di], (('spread', ('t', 'found', n, I.deep(st, a[ni]) if PARTS[n] else ('u',), ('tup', tuple(context(x) for x in rest)))),))
            return ret(st, UNIT)
        return m
    def context(v):
        while v[0] in ('rv',): v = v[1]
        return v if v[0] == 't' else ('s', 'service')
    for n, bd in by.items(): models[bd.path] = mk(n, bd)
    top = [x for x in F.bodies.values() if x.path == CK + 'check']
    if len(top) != 1: raise Incomplete('no check')
    I, paths = summarise(F, top[0], argsof(F, top[0], {'service': ('ref', ('g', 'self'), ()), 'uri': URI}), models=models, self_=False)
    R.sites |= I.analysed
    d = dis(F); rows = 0
    kinds = sorted({d[k] for l in PARTS.values() if l for k in l} | {d['MODULE'], d['MODULE_FIELD_TABLE'], d['BLOCK_IF']})
    root = ('t', 'newroot', Q('root', URI))
    for n in (1, 2, 3, 'many'):
        T = Table(F, I, paths, None, limit=100000)
        E = T.E
        if n == 'many':
            n = max(T.lits | {0}) + 2
            if n <= 3: continue
            if n > 400: raise Incomplete('amounts are compared with %d' % (n - 2))
        def desc(E, v):
            if v[2] != root: raise Stuck('tree of another document')
            return [('t', 'dn', i) for i in range(n)]
        E.srchook['descendants'] = desc
        def kd(i): return d['ROOT'] if i == 0 else E.ch.choose(('kind of node', i if n <= 3 else 1), [k for k in kinds if k != d['ROOT']])
        E.ophook['kind'] = lambda E, g: ('adt', KIND, [v['d'] for v in F.adts[KIND]['v']].index(kd(g[2][2]))  , ()) if g[2][1] == 'dn' else None
        def is_root(v): return v == root
        def spec(E):
            out = [('s', 'syntax errors')]
            for p, ks in PARTS.items():
                if ks is None: out.append(('tup', (('s', p), ('u',)))); continue
                for i in range(n):
                    if kd(i) in [d[k] for k in ks]: out.append(('tup', (('s', p), ('i', i))))
            return ('vec', tuple(('tup', (x, ('i', i))) for x in out for i in range(amount())))
        def norm(E, v):
            if v[0] != 'vec': raise Stuck('result')
            out = []
            for x in v[1]:
                if x[:2] != ('t', 'finding'): raise Stuck('item ' + str(x)[:200])
                no, x = ('i', x[3]), x[2]
                if x[0] == 't' and x[1] == 'found':
                    nd = x[3]
                    for c in x[4][1]:
                        if c[0] == 't' and c[1] != 'found' and not known(c): raise Stuck('argument ' + str(c)[:100])
                    if nd == root: nd = ('t', 'dn', 0)
                    if nd != ('u',) and nd[1] != 'dn': raise Stuck('node')
                    out.append(('tup', (('tup', (('s', x[2]), nd if nd == ('u',) else ('i', nd[2]))), no)))
                elif x == ('t', 'fld', Q('parser_result', URI), 1): out.append(('tup', (('s', 'syntax errors'), no)))
                else: raise Stuck('item ' + str(x)[:200])
            return ('vec', tuple(out))
        def known(c): return c in (Q('line_index', URI), Q('symbol_table', URI), URI, root) or c[1] in ('svcfield',)
        # how many findings a check adds is free: none, one, or more than any amount the code compares with
        most = max([2] + [x + 1 for x in T.lits])
        if most > 5000: raise Incomplete('amounts are compared with %d' % (most - 1))
        def amount(): return E.ch.choose('findings of each check', (1, 0, most))
        def each(E, v): return [('t', 'finding', v, i) for i in range(amount())]
        E.srchook['found'] = each
        E.srchook['fld'] = lambda E, v: each(E, v) if v == ('t', 'fld', Q('parser_result', URI), 1) else None
        bad = T.run(spec, norm)
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): for nodes [%s] the checks run are %s, expected %s' % (top[0].path, top[0].file, bad[0][0][:300], str(bad[0][1])[:500], str(bad[0][2])[:500])); return
    R.ok(key, {'function': top[0].path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def handlers(F, R):
    N = Names(F)
    def m(I, st, a, c): return ret(st, ('t', 'checked', I.deep(st, a[1])))
    for meth, key in (('pull_diagnostics', 'pulled'), ('publish_diagnostics', 'pushed')):
        try:
            body = svc.method(F, meth)
            I, paths = summarise(F, body, [('t', 'params')], models={CK + 'check': m})
            R.sites |= I.analysed
            if len(paths) != 1: raise Incomplete('%d paths' % len(paths))
            v = I.deep(*paths[0])
            if meth == 'pull_diagnostics':
                u = N.fld(N.fld(('t', 'params'), 'DocumentDiagnosticParams', 'text_document'), 'lsp_types::TextDocumentIdentifier', 'uri')
                while v[0] == 'adt' and not v[1].endswith('::FullDocumentDiagnosticReport'):
                    if v[1].endswith('RelatedFullDocumentDiagnosticReport'): v = v[3][F.adts[v[1]]['v'][0]['f'].index('full_document_diagnostic_report')]
                    else: v = v[3][0]
                items = v[3][F.adts[v[1]]['v'][0]['f'].index('items')]; ru = u
            else:
                u = ('t', 'params'); f = F.adts[v[1]]['v'][0]['f']
                items = v[3][f.index('diagnostics')]; ru = v[3][f.index('uri')]
            want = ('t', 'checked', Q('uri', u))
            while items[0] == 'vec' and len(items[1]) == 1 and items[1][0][0] == 'spread': items = items[1][0][1]
            if items != want or ru != u: R.bad(key, '%s (%s): answers %s for %s, expected all diagnostics of the document asked about' % (body.path, body.file, short(items), short(ru)))
            else: R.ok(key, {'function': body.path})
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, e))

def run1(F, R, key, path, byname, spec, hooks, norm, note, ns=(1,), limit=200000):
    body = [x for x in F.bodies.values() if x.path == path]
    if len(body) != 1: raise Incomplete('no function ' + path)
    body = body[0]
    def setup(st): st.mem[('g', 'diags')] = ('vec', ())
    byname = dict(byname, diags=('ref', ('g', 'diags'), ()), service=('ref', ('g', 'self'), ()))
    I, paths = summarise(F, body, argsof(F, body, byname), self_=False, setup=setup)
    R.sites |= I.analysed
    res = [(dict(s.asm), I.deep(s, s.mem[('g', 'diags')])) for s, v in paths]
    rows = 0
    for n in ns:
        T = Table(F, I, res, None, limit=limit)
        hooks(T.E, n)
        bad = T.run(lambda E: spec(E, n), norm)
        rows += T.rows
        if bad: R.bad(key, '%s (%s): in the situation [%s] %s: reported %s, expected %s' % (body.path, body.file, bad[0][0][:400], note, brief(bad[0][1])[:400], brief(bad[0][2])[:400])); return
    R.ok(key, {'function': body.path, 'paths': len(res), 'table_rows': rows}); R.count('table rows', rows)

def diagnorm(F, full=False):
    f = F.adts['lsp_types::Diagnostic']['v'][0]['f']; ri, si, mi = f.index('range'), f.index('severity'), f.index('message')
    def norm(E, v):
        if v[0] != 'vec': raise Stuck('diagnostics')
        return ('vec', tuple(('tup', (d[3][ri], severity(E, d[3][si])) + ((d[3][mi],) if full else ())) for d in v[1]))
    return norm

def modules(F, R):
    N = Names(F); d = dis(F); li = ('t', 'LI')
    def hooks(E, n):
        E.srchook['children'] = lambda E, v: [('t', 'cn', i) for i in range(n)]
        E.ophook['kind'] = lambda E, g: ('adt', KIND, [v['d'] for v in F.adts[KIND]['v']].index(d['MODULE'] if mod(E, g[2][2]) else d['MODULE_FIELD_FUNC']), ()) if g[2][1] == 'cn' else None
    def mod(E, i): return E.ch.choose(('child %d is a module' % i), [True, False])
    def spec(E, n):
        l = [i for i in range(n) if mod(E, i)]
        return ('vec', tuple(('tup', (N.range(li, ('t', 'range', ('t', 'cn', i))), ('s', 'error'))) for i in l[1:]))
    run1(F, R, 'one-module', CK + 'multi_modules::check', {'line_index': ('rv', li), 'root': ('rv', ('t', 'ROOT'))}, spec, hooks, diagnorm(F), 'every module after the first is an error', ns=(1, 2, 3, 4))

INDEX1 = 'call local.get local.set local.tee global.get global.set table.get table.set ref.func memory.init data.drop elem.drop table.grow table.size table.fill br br_if'.split()
LANES = [s + '.' + f for s in ('i8x16', 'i16x8') for f in ('extract_lane_s', 'extract_lane_u', 'replace_lane')] + [s + '.' + f for s in ('i32x4', 'i64x2', 'f32x4', 'f64x2') for f in ('extract_lane', 'replace_lane')]

def immediates():
    """name -> list of sets of admissible token kinds of the leading immediates"""
    import wasmspec
    t = {n: [{'IDENT', 'INT'}] for n in INDEX1}
    for n in ('table.init', 'table.copy'): t[n] = [{'IDENT', 'INT'}] * 2
    for n in LANES: t[n] = [{'INT'}]
    for n in ('i32.const', 'i64.const'): t[n] = [{'INT'}]
    for n in ('f32.const', 'f64.const'): t[n] = [{'INT', 'FLOAT'}]
    for n in wasmspec.SIG:
        p, f = n.split('.') if '.' in n else ('', n)
        if p in ('i32', 'i64', 'f32', 'f64') and f.startswith(('load', 'store')): t[n] = [{'MEM_ARG'}]
        if p == 'v128' and f.startswith(('load', 'store')) and not f.endswith('zero'): t[n] = [{'MEM_ARG'}] + ([{'INT'}] if f.endswith('_lane') else [])
    return t

def literals(F, R):
    N = Names(F); d = dis(F); li = ('t', 'LI'); names = [v['n'] for v in F.adts[KIND]['v']]
    IMM = immediates()
    KS = ['IDENT', 'INT', 'FLOAT', 'MEM_ARG', 'STRING']
    texts = sorted(IMM) + ['nop', 'i32.add']
    def hooks(E, n):
        strcol.install(E, ['unused'])
        def instr(): return E.ch.choose('instruction', texts)
        def nops(): return E.ch.choose('operands', [0, 1, 2] if len(IMM.get(instr(), ())) > 1 or instr() in ('br', 'nop', 'i32.load', 'f64.const') else [0, 1])
        def kd(i): return E.ch.choose(('operand', i), KS)
        E.instr, E.nops, E.kd = instr, nops, kd
        def un(v):
            while v[0] == 't' and v[1] in ('deref', 'syntax', 'astnode', 'into_syntax'): v = v[2]
            return v
        E.un = un
        E.ophook['token'] = lambda E, g: (some(('t', 'INAME')) if E.ch.choose('has name', [True, False]) else NONE) if un(g[2]) == ('t', 'INSTR') and g[3] == ('adt', KIND, names.index('INSTR_NAME'), ()) else None
        E.ophook['text'] = lambda E, g: ('s', instr()) if g[2] == ('t', 'INAME') else None
        E.srchook['castchildren'] = lambda E, v: [('t', 'opnd', i) for i in range(nops())]
        E.srchook['children'] = lambda E, v: [('t', 'opnd', i) for i in range(nops())]
        oc = E.ophook.get('call')
        def o_call(E, g):
            if g[2].endswith('SyntaxNode::first_token') and un(g[3])[1] == 'opnd': return some(('t', 'otok', un(g[3])[2]))
            return oc(E, g)
        E.ophook['call'] = o_call
        def kind(E, g):
            x = un(g[2])
            if x[1] == 'otok': k = kd(x[2])
            elif x[1] == 'opnd': k = 'OPERAND'
            elif x == ('t', 'INAME'): k = 'INSTR_NAME'
            else: return None
            return ('adt', KIND, names.index(k), ())
        E.ophook['kind'] = kind
    def spec(E, n):
        if not E.ch.choose('has name', [True, False]): return ('vec', ())
        l = IMM.get(E.instr(), []); out = []
        for i in range(min(E.nops(), len(l))):
            if E.instr() in LANES or E.instr().endswith('_lane') and i == 1:
                if E.kd(i) == 'IDENT': raise Prune   # lanes: identifiers are not constrained
            if E.kd(i) not in l[i]: out.append(('tup', (N.range(li, ('t', 'range', ('t', 'otok', i))), ('s', 'error'))))
        return ('vec', tuple(out))
    run1(F, R, 'immediates', CK + 'literal_operands::check', {'line_index': ('rv', li), 'root': ('rv', ('t', 'INSTR'))}, spec, hooks, diagnorm(F), 'immediates of the wrong kind are errors')

def syntax(F, R):
    """every error of the parser becomes one diagnostic with its place and message"""
    N = Names(F); key = 'syntax-errors'
    body = [x for x in F.bodies.values() if x.path == 'wat_service::files::parse']
    if len(body) != 1: raise Incomplete('no parse query')
    body = body[0]
    I, paths = summarise(F, body, [('rv', ('t', 'DB')), ('t', 'U')], self_=False)
    R.sites |= I.analysed
    er = [a for a in F.adts if a.startswith('wat_parser::') and a.endswith('::SyntaxError')]
    if len(er) != 1: raise Incomplete('no error type')
    f = F.adts[er[0]]['v'][0]['f']; li = Q('line_index', ('t', 'U')); rows = 0
    DF = F.adts['lsp_types::Diagnostic']['v'][0]['f']
    def has(t, x): return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)
    lits = [x for x in tab.literals([I.deep(st, v) for st, v in paths]) if x < 400]
    for n in sorted({0, 1, 2, 3, max(lits + [0]) + 2}):
        T = Table(F, I, paths, None, limit=1000); E = T.E
        def src(E, v):
            if not has(v, ('t', 'q', 'source', ('t', 'U'))): raise Stuck('errors of another document')
            return [('t', 'err', i) for i in range(n)]
        E.srchook['fld'] = src
        oc = E.ophook.get('call')
        def o_call(E, g):
            if g[2].endswith('TextSize::new') or g[2].endswith('::from') and 'TextSize' in g[2]: return g[3]
            return oc(E, g) if oc else None
        E.ophook['call'] = o_call
        E.ophook['discr'] = lambda E, v: 1 if v[0] == 't' and v[1] == 'fld' and has(v, ('t', 'q', 'source', ('t', 'U'))) else None   # the parser gave a tree (P02)
        def e(i, x): return ('t', 'fld', ('t', 'err', i), f.index(x))
        def spec(E): return ('vec', tuple(('tup', (N.range2(li, e(i, 'start'), e(i, 'end')), ('s', 'error'), ('b', True))) for i in range(n)))
        def norm(E, v):
            v = v[1][1]
            if v[0] != 'vec': raise Stuck('diagnostics')
            out = []
            for k, x in enumerate(v[1]):
                m = x[3][DF.index('message')]
                who = [i for i in range(n) if has(x[3][DF.index('range')], ('t', 'err', i))]
                out.append(('tup', (strip(x[3][DF.index('range')]), severity(E, x[3][DF.index('severity')]), ('b', len(who) == 1 and has(m, e(who[0], 'message'))))))
            return ('vec', tuple(out))
        def strip(t):
            if isinstance(t, tuple):
                if len(t) >= 3 and t[0] == 't' and t[1] in ('cast', 'num', 'ascast'): return strip(t[-1] if isinstance(t[-1], tuple) else t[2])
                return tuple(strip(x) for x in t)
            return t
        bad = T.run(spec, norm)
        rows += T.rows
        if bad:
            got = bad[0][1]
            what = '%d diagnostics' % len(got[1]) if got[0] == 'vec' and len(got[1]) != n else 'diagnostics with another range, severity or message'
            R.bad(key, '%s (%s): %d syntax errors become %s' % (body.path, body.file, n, what)); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows})

ALTER = ('trim', 'strip', 'replace', 'lowercase', 'uppercase', 'split', 'get', 'index', 'drain', 'truncate', 'remove', 'lines', 'repeat', 'slice', 'filter', 'take', 'skip')
def texts(F, R, prefix=''):
    """lines are counted in, and the tree is made from, the text of the document itself"""
    for key, want, maker in (('lines-of-text', 'LineIndex', 'line_index::LineIndex::new'), ('tree-of-text', 'GreenNode', 'winnow::stream::Located::new')):
        key = prefix + key
        try:
            body = [x for x in F.bodies.values() if x.path.startswith('wat_service::files::') and '<' not in x.path and '{' not in x.path and x.n == 2 and 'InternUri' in F.ty(x.tys, x.locals[2])
                    and want in F.ty(x.tys, x.locals[0]) and ('Diagnostic' in F.ty(x.tys, x.locals[0])) == (want == 'GreenNode')]
            if len(body) != 1: raise Incomplete('%d functions' % len(body))
            body = body[0]
            I, paths = summarise(F, body, [('rv', ('t', 'DB')), ('t', 'U')], self_=False)
            R.sites |= I.analysed
            made = set()
            def walk(t):
                if isinstance(t, tuple):
                    if len(t) > 3 and t[:3] == ('t', 'call', maker): made.add(t[3])
                    for x in t: walk(x)
            for st, v in paths:
                walk(v if isinstance(v, tuple) else v); walk(I.deep(st, v))
            if not made: raise Stuck('text')
            for t in made:
                ops = []
                while t != ('t', 'q', 'source', ('t', 'U')):
                    if t[0] != 't' or len(t) < 3: raise Stuck('text ' + str(t)[:100])
                    ops.append(str(t[2]).rsplit('::', 1)[-1] if t[1] == 'call' else str(t[1]))
                    l = [x for x in t[2:] if isinstance(x, tuple) and x[0] == 't']
                    if not l: raise Stuck('text ' + str(t)[:100])
                    t = l[0]
                odd = [o for o in ops if any(a in o for a in ALTER)]
                if odd: R.bad(key, '%s (%s): works on %s of the text instead of the text' % (body.path, body.file, ', '.join(odd))); break
                if any(o not in ('deref', 'as_str', 'clone', 'as_ref', 'borrow', 'to_string', 'to_owned', 'str', 'from', 'into', 'as', 'ref') for o in ops): raise Stuck('text through ' + ', '.join(ops))
            else: R.ok(key, {'function': body.path, 'paths': len(paths)})
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, e))

def check(F, R):
    R.rule('the function assembling the diagnostics, the handlers and the per-node checks are summarised by abstract interpretation; the summaries are tabulated over node kinds, instructions and operand kinds and compared with the rule')
    for f, key in ((assembly, 'all-checks-run'), (modules, 'one-module'), (literals, 'immediates'), (syntax, 'syntax-errors')):
        try: f(F, R)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, e))
    handlers(F, R)
    texts(F, R)
