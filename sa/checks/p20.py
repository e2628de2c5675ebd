"""P20: value types and signatures are those written in the text, and are shown as such."""
from tab import *
import world, strcol, checks.p09 as p09
from checks.p19 import GCH, GKIND, Hover, pieces

TA = 'wat_service::types_analyzer::'
TY = {'i32': 'NUM_TYPE', 'i64': 'NUM_TYPE', 'f32': 'NUM_TYPE', 'f64': 'NUM_TYPE', 'v128': 'VEC_TYPE', 'funcref': 'REF_TYPE', 'externref': 'REF_TYPE'}
WSP = ('WHITESPACE', ' ')

def fn(F, path):
    l = F.by_path.get(path, [])
    if len(l) != 1: raise Incomplete('no function ' + path)
    return l[0]

def display(F, R, adt):
    """text of a value: the Display implementation as a formula"""
    b_ = fn(F, '<%s as core::fmt::Display>::fmt' % adt)
    def setup(st): st.mem[('g', 'out')] = ('s', '')
    I, paths = summarise(F, b_, [('t', 'VALUE'), ('ref', ('g', 'out'), ())], self_=False, setup=setup)
    R.sites |= I.analysed
    return b_, I, [(s, I.deep(s, s.mem[('g', 'out')])) for s, v in paths], len(paths)

def lit(v):
    """a text that is known"""
    if v[0] == 's': return v[1]
    if v[0] == 'cat': return ''.join(lit(x) for x in v[1])
    raise Stuck('text ' + str(v)[:80])

class Show:
    def __init__(self, F, R):
        self.F = F
        b_, I, paths, n = display(F, R, TA + 'ValType')
        self.names = {}
        for i, v in enumerate(F.adts[TA + 'ValType']['v']):
            T = Table(F, I, paths, None)
            T.E.ophook['VALUE'] = lambda E, g, i=i: ('adt', TA + 'ValType', i, ())
            got = []
            for x, asg in T.ch.rows(lambda: T.E.reset() or T.E.paths(T.tree)): got.append(x)
            if len(got) != 1: raise Incomplete('text of a value type')
            self.names[i] = lit(got[0])
        self.index = {n: i for i, n in self.names.items()}
        self.body = b_
    def ty(self, v):
        if v[0] == 'adt' and v[1] == TA + 'ValType': return ('s', self.names[v[2]])
        raise Stuck('type ' + str(v)[:80])
    def opt(self, v):
        if v == NONE: return ('s', 'none')
        if v[0] == 'adt' and v[1] == OPT: return self.ty(v[3][0])
        raise Stuck('type ' + str(v)[:80])
    def sig(self, v):
        if v[0] != 'adt' or v[1] != TA + 'FuncSig': raise Stuck('signature ' + str(v)[:80])
        g = dict(zip(self.F.adts[v[1]]['v'][0]['f'], v[3]))
        if g['params'][0] != 'vec' or g['results'][0] != 'vec': raise Stuck('signature')
        ps = []
        for p in g['params'][1]:
            t, n = p[1] if p[0] == 'tup' else p[3]
            ps.append(('tup', (self.ty(t), ('s', 'none') if n == NONE else ('s', lit(n[3][0])))))
        return ('arr', (('arr', tuple(ps)), ('arr', tuple(self.ty(t) for t in g['results'][1]))))
    def value(self, sig):
        f = self.F.adts[TA + 'FuncSig']['v'][0]['f']
        v = {'params': ('vec', tuple(('tup', (('adt', TA + 'ValType', self.index[t], ()), NONE if n is None else some(('s', n)))) for t, n in sig[0])),
             'results': ('vec', tuple(('adt', TA + 'ValType', self.index[t], ()) for t in sig[1]))}
        return ('adt', TA + 'FuncSig', 0, tuple(v[x] for x in f))

def vt(t): return ('VAL_TYPE', [(TY[t], t)])
def par(kw, name, types):
    l = [('L_PAREN', '('), ('KEYWORD', kw)]
    if name: l += [WSP, ('IDENT', name)]
    for t in types: l += [WSP, vt(t)]
    return ({'param': 'PARAM', 'local': 'LOCAL', 'result': 'RESULT'}[kw], l + [('R_PAREN', ')')])

PARAMS = [('$x', ['i32']), (None, ['i64']), (None, ['f32', 'f64']), ('$y', []), (None, []), (None, ['externref', 'i32', 'v128'])]
RESULTS = [['i32'], ['funcref', 'f64'], []]
def sigs():
    """signatures: up to three parameter groups and two result groups, in this order"""
    one = [[]] + [[p] for p in PARAMS]
    two = [[p, q] for p in PARAMS for q in PARAMS]
    three = [[PARAMS[0], PARAMS[2], PARAMS[0]], [PARAMS[1], PARAMS[0], PARAMS[2]]]
    rs = [[]] + [[r] for r in RESULTS] + [[r, q] for r in RESULTS for q in RESULTS]
    for ps in one + two + three:
        for r in rs if len(ps) < 2 else rs[:5]: yield ps, r
def meaning(ps, rs):
    p = []
    for n, ts in ps:
        if n and ts: p.append((ts[0], n))
        else: p += [(t, None) for t in ts]
    return p, [t for r in rs for t in r]

def types(F, R, show):
    for v in sorted(set(TY) ^ set(show.names.values())): R.bad('types:' + v, 'the value types of the service are %s' % sorted(show.names.values()))
    trees = [vt(t) for t in TY] + [par(k, n, l) for k in ('param', 'local') for n in (None, '$x') for l in ([], ['i32'], ['f64'], ['externref'], ['i64', 'f32'], ['v128', 'i32'])]
    trees += [('GLOBAL_TYPE', [vt(t)]) for t in TY] + [('GLOBAL_TYPE', [('L_PAREN', '('), ('KEYWORD', 'mut'), WSP, vt(t), ('R_PAREN', ')')]) for t in TY]
    b_ = fn(F, TA + 'extract_type')
    I, paths = summarise(F, b_, [('t', 'db'), ('t', 'ROOT')], self_=False)
    R.sites |= I.analysed
    def first(W, el):
        if W.kind(el) == 'VAL_TYPE': return ('s', W.text(el))
        l = [c for c in W.nodes(el) if W.kind(c) == 'VAL_TYPE']
        return ('s', W.text(l[0])) if l else ('s', 'none')
    rows, bad = world.run(F, I, paths, trees, lambda W: first(W, ('t', 'el', 0)), lambda E, v: show.opt(v))
    if bad: R.bad('type', '%s (%s): the type of %s is taken as %s, it is %s' % (b_.path, b_.file, bad[0][0][:300], bad[0][1][1], bad[0][2][1]))
    else: R.ok('type', {'function': b_.path, 'paths': len(paths), 'table_rows': rows})
    R.count('trees', rows)
    # globals: the type of the global type, whatever else is there
    sub = (I, paths)
    b_ = fn(F, TA + 'extract_global_type')
    I2, p2 = summarise(F, b_, [('t', 'db'), ('t', 'ROOT')], self_=False)
    R.sites |= I2.analysed
    gt = trees[-14:]
    G = [('MODULE_FIELD_GLOBAL', [('L_PAREN', '('), ('KEYWORD', 'global')] + a + [g] + c + [('R_PAREN', ')')]) for g in gt for a in ([], [WSP, ('IDENT', '$g')], [('EXPORT', [('STRING', '"e"')])]) for c in ([], [('PLAIN_INSTR', [('INSTR_NAME', 'i32.const')])])]
    G += [('MODULE_FIELD_GLOBAL', [('L_PAREN', '('), ('KEYWORD', 'global'), ('R_PAREN', ')')])]
    def gspec(W):
        l = [c for c in W.nodes(('t', 'el', 0)) if W.kind(c) == 'GLOBAL_TYPE']
        return first(W, l[0]) if l else ('s', 'none')
    def gset(E, W): inline(E, W, F, sub)
    rows, bad = world.run(F, I2, p2, G, gspec, lambda E, v: show.opt(v), setup=gset)
    if bad: R.bad('global-type', '%s (%s): the type of %s is taken as %s, it is %s' % (b_.path, b_.file, bad[0][0][:300], bad[0][1][1], bad[0][2][1]))
    else: R.ok('global-type', {'function': b_.path, 'paths': len(p2), 'table_rows': rows})
    R.count('trees', rows)

def inline(E, W, F, sub):
    """a query asked for within a formula is its own formula at that element"""
    it = Intern({})
    I, paths = sub
    for t in list(I.tyof): E.I.tyof.setdefault(it(t), I.tyof[t])
    ps = [(dict(s.asm), I.deep(s, v)) for s, v in paths]
    tree = Tree([({it(t): v for t, v in g.items()}, it(v)) for g, v in ps])
    W.keep = it
    W.root = ('t', 'el', 0)
    E.ophook['ROOT'] = lambda E, g: W.root
    def q(E, g):
        if g[2] != 'extract_type': return None
        old, memo = W.root, E.memo
        W.root = g[3]; E.memo = {}
        try: return E.paths(tree)
        finally: W.root, E.memo = old, memo
    E.ophook['q'] = q

def sig(F, R, show):
    b_ = fn(F, TA + 'extract_sig')
    I, paths = summarise(F, b_, [('t', 'db'), ('t', 'ROOT')], self_=False)
    R.sites |= I.analysed
    trees, want = [], []
    for i, (ps, rs) in enumerate(sigs()):
        ch = []
        for n, ts in ps: ch += [WSP, par('param', n, ts)]
        for r in rs: ch += [WSP, par('result', None, r)]
        pre = [[], [('INDEX', [('IDENT', '$t')])]][i % 2] if i % 3 else [('KEYWORD', 'func')]
        trees.append(('FUNC_TYPE' if i % 3 == 0 else 'TYPE_USE', pre + ch)); want.append(meaning(ps, rs))
    def spec(W):
        p, r = want[W.no]
        return ('arr', (('arr', tuple(('tup', (('s', t), ('s', n or 'none'))) for t, n in p)), ('arr', tuple(('s', t) for t in r))))
    rows, bad = world.run(F, I, paths, trees, spec, lambda E, v: show.sig(v))
    if bad: R.bad('signature', '%s (%s): the signature of %s is taken as %s, it is %s' % (b_.path, b_.file, bad[0][0][:400], plain(bad[0][1]), plain(bad[0][2])))
    else: R.ok('signature', {'function': b_.path, 'paths': len(paths), 'table_rows': rows})
    R.count('trees', rows)

def plain(v):
    if v[0] in ('arr', 'tup'): return '(%s)' % ' '.join(plain(x) for x in v[1])
    return str(v[1])

def shown(F, R, show):
    """a signature as text"""
    b_, I, paths, n = display(F, R, TA + 'FuncSig')
    L = []
    for ps, rs in sigs():
        m = meaning(ps, rs)
        if m not in L: L.append(m)
    T = Table(F, I, paths, None)
    # elements are told apart by their position, not by their value
    no = lambda E: E.ch.choose('signature', range(len(L)))
    sf = F.adts[TA + 'FuncSig']['v'][0]['f']
    T.E.ophook['VALUE'] = lambda E, g: ('adt', TA + 'FuncSig', 0, tuple(('t', 'sigpart', {'params': 0, 'results': 1}[x]) for x in sf))
    T.E.srchook['sigpart'] = lambda E, v: [('t', 'sigel', v[2], i) for i in range(len(L[no(E)][v[2]]))]
    T.E.ophook['is_empty'] = lambda E, g: b(not L[no(E)][g[2][2]]) if g[2][:2] == ('t', 'sigpart') else None
    T.E.ophook['len'] = lambda E, g: ('i', len(L[no(E)][g[2][2]])) if g[2][:2] == ('t', 'sigpart') else None
    def el(E, v): return show.value(L[no(E)])[3][sf.index(('params', 'results')[v[2]])][1][v[3]]
    T.E.fldhook['sigel'] = lambda E, v, i: E.fld(el(E, v), i)
    def st(E, g):
        if g[2][:2] == ('t', 'sigel'): g = ('t', 'str', el(E, g[2]))
        if g[2][0] == 'adt' and g[2][1] == TA + 'ValType': return show.ty(g[2])
        if g[2][0] in ('s', 'cat'): return g[2]
    T.E.ophook['str'] = st
    def spec(E):
        p, r = L[E.ch.choose('signature', range(len(L)))]
        return ('s', ' '.join(['(param %s%s)' % (n + ' ' if n else '', t) for t, n in p] + ['(result %s)' % t for t in r]))
    bad = T.run(spec, lambda E, v: ('s', lit(v)))
    if bad: R.bad('signature-text', '%s (%s): a signature is written as "%s", it is "%s"' % (b_.path, b_.file, bad[0][1][1], bad[0][2][1]))
    else: R.ok('signature-text', {'function': b_.path, 'table_rows': T.rows})
    R.count('signatures', T.rows)

def header(F, R, show):
    """the header of a function: name and signature if there are any"""
    b_ = fn(F, TA + 'render_func_header')
    W = TA + 'SymbolItemWithGreenEq'
    I, paths = summarise(F, b_, [('t', 'db'), URI, ('adt', W, 0, (('t', 'sym', 0),))], self_=False)
    R.sites |= I.analysed
    rows = 0
    T = Table(F, I, paths, URI, 1)
    def setup(S):
        S.E.ophook['str'] = lambda E, g: g[2] if g[2][0] == 's' else None
    T.setup = setup
    asksig = ('t', 'q', 'get_func_sig', URI, ('adt', W, 0, (('t', 'sym', 0),)))
    def spec(S):
        if S.kind(0) != 'Func': raise Prune
        E = S.E
        out = [('s', '(func')]
        nm = S.name(0)
        if nm != NONE: out += [('s', ' '), nm[3][0]]
        if E.discr(asksig, OPT):
            sg = ('t', 'fld', ('t', 'as', asksig, 1), 0)
            if not all([E.truth(('t', 'is_empty', ('t', 'fld', sg, i))) for i in (0, 1)]): out += [('s', ' '), sg]
        return pieces(out + [('s', ')')])
    def norm(E, v):
        if v[0] not in ('s', 'cat'): raise Stuck('header')
        return pieces(v[1] if v[0] == 'cat' else (v,))
    bad = T.run(spec, norm)
    if bad: R.bad('header', '%s (%s): in the situation [%s] the header is %s, expected %s' % (b_.path, b_.file, bad[0][0][:400], str(bad[0][1])[:300], str(bad[0][2])[:300]))
    else: R.ok('header', {'function': b_.path, 'paths': len(paths), 'table_rows': T.rows})
    R.count('table rows', T.rows)

def funcsig(F, R, show):
    """inline parameters and results if there are any, else those of the type that is used"""
    b_ = fn(F, TA + 'get_func_sig')
    W = TA + 'SymbolItemWithGreenEq'
    I, paths = summarise(F, b_, [('t', 'db'), URI, ('adt', W, 0, (('t', 'sym', 0),))], self_=False)
    R.sites |= I.analysed
    TU, IX = [next((p for p in F.adts if p.startswith('wat_syntax::ast::') and p.endswith('::' + x)), None) for x in ('TypeUse', 'Index')]
    FORMS = ['none', 'empty', 'param', 'result', 'both']
    rows = 0
    for n in (1, 2, 3):
        T = Table(F, I, paths, URI, n, limit=300000, seconds=200)
        H = {}
        def form(S): return S.ch.choose('type use of the function', FORMS)
        def uses(S):
            """the symbol of the index in the type use of the function"""
            return S.ch.choose('index of the type use', [None] + [k for k in range(S.n) if S.kind(k) == 'TypeUse'])
        def setup(S):
            H['h'] = Hover(S, False)
            E = S.E
            def wrap(d, op, h):
                old = d.get(op)
                def f(*a):
                    r = h(*a)
                    return r if r is not None or old is None else old(*a)
                d[op] = f
            PARTS = {'empty': ['INDEX'], 'param': ['INDEX', 'PARAM'], 'result': ['RESULT'], 'both': ['INDEX', 'PARAM', 'RESULT']}
            def kids(E, v):
                x = v[3]
                if v[2] != GCH: return None
                if x[:2] == ('t', 'fld') and x[2] == ('t', 'sym', 0):
                    return [('t', 'ft', 'KEYWORD')] + ([('t', 'ft', 'TYPE_USE')] if form(S) != 'none' else []) + [('t', 'ft', 'LOCAL')]
                if x == ('t', 'ft', 'TYPE_USE'): return [('t', 'ft', 'WHITESPACE')] + [('t', 'ft', p) for p in PARTS[form(S)]]
            wrap(E.srchook, 'call', kids)
            E.closed = {'ft'}
            wrap(E.ophook, 'into_node', lambda E, g: (NONE if g[2][2] in ('KEYWORD', 'WHITESPACE') else some(g[2])) if g[2][:2] == ('t', 'ft') else None)
            wrap(E.ophook, 'into_token', lambda E, g: (some(g[2]) if g[2][2] in ('KEYWORD', 'WHITESPACE') else NONE) if g[2][:2] == ('t', 'ft') else None)
            wrap(E.ophook, 'discr', lambda E, v: int(v[2] in ('KEYWORD', 'WHITESPACE')) if v[:2] == ('t', 'ft') else None)
            wrap(E.fldhook, 'as', lambda E, v, i: v[2] if v[2][:2] == ('t', 'ft') else None)
            wrap(E.ophook, 'call', lambda E, g: ('tup', (('i', S.nk[g[3][2]]),)) if g[3][:2] == ('t', 'ft') and g[2].endswith('::kind') else None)
            def child(E, g):
                x = g[2]
                if x == ('t', 'symnode', 0) and g[3] == TU: return some(('adt', TU, 0, (('t', 'tunode'),))) if form(S) != 'none' else NONE
                if x == ('t', 'tunode') and g[3] == IX:
                    k = uses(S)
                    return NONE if k is None else some(('adt', IX, 0, (('t', 'symnode', k),)))
            wrap(E.ophook, 'child', child)
        T.setup = setup
        def spec(S):
            E = S.E
            if S.kind(0) != 'Func': raise Prune
            fm = form(S)
            if fm == 'none': return NONE
            if fm != 'empty': return some(Q('extract_sig', ('t', 'ft', 'TYPE_USE')))
            k = uses(S)
            if k is None: return NONE
            D = S.resolves(k)
            if not D or not H['h'].functype(D[0]): return NONE
            return some(Q('extract_sig', ('t', 'gel', D[0], 'type')))
        bad = T.run(spec, prune=lambda S: S.uniquenames())
        rows += T.rows
        if bad:
            R.bad('function-signature', '%s (%s): in the situation [%s] the signature is %s, expected %s' % (b_.path, b_.file, bad[0][0][:500], str(bad[0][1])[:300], str(bad[0][2])[:300])); return
    R.ok('function-signature', {'function': b_.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def check(F, R):
    R.rule('Reading and writing of types and signatures is summarised by abstract interpretation of MIR; the formulas are evaluated on every listed shape of syntax tree and compared with what is written there.')
    try: show = Show(F, R)
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec('types', '%s: %s' % (type(e).__name__, str(e)[:400])); return
    for f in (types, sig, shown, header, funcsig):
        try: f(F, R, show)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(f.__name__, '%s: %s' % (type(e).__name__, str(e)[:400]))
    p09.run(F, R, 'premise:')
