"""Extraction of summaries of service functions and comparison with specified decision tables."""
import time
import svc
from comp import *
from ev import *
from sym import *

def cursor_model(I, st, a, c):
    """the token under the cursor; its own definition is the subject of a separate check"""
    t = ('t', 'cursor') + tuple(I.deep(st, x) for x in a[1:])
    I.tyof[('t', 'discr', t)] = OPT
    return ret(st, t)
CURSOR = {'wat_service::features::find_meaningful_token': cursor_model}

def adtval(F, path, **kw):
    f = F.adts[path]['v'][0]['f']
    return ('adt', path, 0, tuple(kw[x] for x in f))

class Names:
    """terms for fields of the request, by field name"""
    def __init__(self, F): self.F = F
    def adt(self, name):
        l = [p for p in self.F.adts if p == name or p.startswith('lsp_types::') and p.endswith('::' + name.rsplit('::', 1)[-1])]
        if len(l) != 1: raise Incomplete('no type ' + name)
        return l[0]
    def fld(self, t, adt, name): return ('t', 'fld', t, self.F.adts[self.adt(adt)]['v'][0]['f'].index(name))
    def opt(self, t): return ('t', 'fld', ('t', 'as', t, 1), 0)
    def doc(self, params, adt, inner):
        """(uri, position) of a request whose params hold a TextDocumentPositionParams in field `inner` (None: they are one)"""
        L = 'lsp_types::'
        p = params if inner is None else self.fld(params, L + adt, inner)
        uri = self.fld(self.fld(p, L + 'TextDocumentPositionParams', 'text_document'), L + 'TextDocumentIdentifier', 'uri')
        return uri, self.fld(p, L + 'TextDocumentPositionParams', 'position')
    def range(self, li, rng):
        return self.range2(li, ('t', 'start', rng), ('t', 'end', rng))
    def pos(self, li, off):
        lc = ('t', 'line_col', li, off)
        a = self.F.adts['line_index::LineCol']['v'][0]['f'] if 'line_index::LineCol' in self.F.adts else ['line', 'col']
        return adtval(self.F, 'lsp_types::Position', line=('t', 'fld', lc, a.index('line')), character=('t', 'fld', lc, a.index('col')))
    def range2(self, li, a, z): return adtval(self.F, 'lsp_types::Range', start=self.pos(li, a), end=self.pos(li, z))

def Q(name, *a): return ('t', 'q', name) + a

def summarise(F, body, args, models=None, self_=True, max_steps=400000, seconds=150, setup=None):
    """[(assumptions, value)] of every abstract path; returns (interp, paths)"""
    m = dict(CURSOR)
    if models: m.update(models)
    I = CInterp(F, m, max_steps=max_steps)
    I.deadline = time.time() + seconds
    st = State(); st.mem[('g', 'self')] = svc.service_self(F)
    if setup: setup(st)
    a = ([('ref', ('g', 'self'), ())] if self_ else []) + list(args)
    return I, I.run(body, a, st)

def kindset(F, terms, more=()):
    """syntax kinds the formulas distinguish, and one they do not"""
    a = F.adts[KIND]['v']
    seen = set(); used = set(x for x in more)
    def walk(t):
        if id(t) in seen: return
        seen.add(id(t))
        if isinstance(t, tuple):
            if len(t) == 5 and t[0] == 't' and t[1] == 'bin' and t[2] == 'Eq':
                for x, y in ((t[3], t[4]), (t[4], t[3])):
                    if x[0] == 'i' and y[0] == 't' and y[1] == 'discr' and y[2][0] == 't' and y[2][1] == 'kind': used.add(x[1])
            if len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], tuple) and len(t[0]) == 3 and t[0][0:2] == ('t', 'discr') and t[0][2][0:2] == ('t', 'kind'):
                if t[1][0] == 'i': used.add(t[1][1])
                elif t[1][0] == 'not': used.update(t[1][1])
            if len(t) == 4 and t[0] == 'adt' and t[1] == KIND: used.add(a[t[2]]['d'])
            for x in t: 
                if isinstance(x, tuple): walk(x)
    for t in terms: walk(t)
    rest = [v['d'] for v in a if v['d'] not in used]
    return sorted(used) + rest[:1]

def literals(terms, d=None):
    """numbers that amounts are compared with or cut to"""
    seen = set(); out = set()
    def walk(t):
        if id(t) in seen or not isinstance(t, tuple): return
        seen.add(id(t))
        if len(t) > 2 and t[0] == 't' and (t[1] in ('cut', 'nthopt', 'at', 'call') or t[1] == 'bin' and (t[2] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Add', 'Sub', 'Mul', 'Rem', 'Div') or t[2] == 'Eq' and not any(x[:2] == ('t', 'discr') or "::kind'" in repr(x) for x in t[3:5]))):
            out.update(x[1] for x in t[2:] if isinstance(x, tuple) and len(x) == 2 and x[0] == 'i' and isinstance(x[1], int))
        for x in t: walk(x)
    for t in terms: walk(t)
    return out

def canon(v):
    """collections as multisets"""
    if not isinstance(v, tuple): return v
    if v and v[0] in ('vec', 'map', 'cat'): return (v[0], tuple(sorted((canon(x) for x in v[1]), key=repr)))
    return tuple(canon(x) for x in v)

class Table:
    """tabulate the extracted summary against a specification"""
    def __init__(self, F, I, paths, uri=None, n=2, limit=60000, seconds=120, maxlen=2, short={}):
        self.F = F; self.I = I; self.n = n
        self.paths = [(dict(s.asm), I.deep(s, v)) for s, v in paths] if paths and not isinstance(paths[0][0], dict) else paths
        it = Intern(short)
        for t in list(I.tyof): I.tyof.setdefault(it(t), I.tyof[t])
        self.paths = [({it(t): v for t, v in g.items()}, it(v)) for g, v in self.paths]
        self.keep = it
        self.tree = Tree(self.paths)
        self.ch = Choices(limit)
        self.E = Ev(I, self.ch)
        self.E.maxlen = maxlen
        self.uri = uri
        self.seconds = seconds
        self.kinds = kindset(F, [tuple(g.items()) for g, v in self.paths] + [v for g, v in self.paths])
        self.E.kinds = self.kinds
        self.lits = literals([x for g, v in self.paths for x in list(g) + [v]])
        self.E.lits = self.lits
        self.rows = 0
        self.setup = lambda S: None
    def run(self, spec, norm=lambda E, v: v, wf=None, prune=None):
        """yield (assignment description, got, want) for every differing row"""
        bad, stuck = self.tabulate(spec, norm, prune)
        if not bad and self.S is not None and self.lits and max(self.lits) > self.n:
            # amounts are compared with a number the small tables do not reach: tables with more symbols than that
            n = max(self.lits) + 4
            if n > 120: stuck = stuck or Stuck('amounts are compared with %d' % (n - 4))
            else:
                pins = dict(self.ch.pinned); t0 = time.time()
                for sc in scenarios(n):
                    self.ch.pinned = {**sc, **pins}
                    try: bad, st = self.tabulate(spec, norm, prune, n)
                    except Incomplete as e: st = Stuck(str(e)); bad = []
                    if time.time() - t0 > 150: st = Stuck('amounts are compared with %d' % (n - 4))
                    stuck = stuck or st
                    if bad or st and time.time() - t0 > 150: break
                self.ch.pinned = pins
        if not bad and stuck: raise stuck
        return bad
    def tabulate(self, spec, norm, prune, n=None):
        t0 = time.time()
        E = self.E
        S = self.S = Sym(E, n or self.n, self.uri) if self.uri is not None else None
        if S is not None: self.setup(S)
        bad = []; stuck = None
        def leaf():
            E.reset()
            try: return row()
            except Stuck as e: return 'stuck', e
        def row():
            want = spec(S if S is not None else E)
            got = norm(E, E.paths(self.tree))
            if S is not None: S.wellformed()
            if prune: prune(S)
            return canon(got), canon(want)
        for (got, want), asg in self.ch.rows(leaf):
            self.rows += 1
            if got == 'stuck':
                stuck = stuck or want
                if self.rows > 20000 and not bad: break
            elif got != want:
                un = unknowns(got, set()) - unknowns(want, set())
                if un:
                    stuck = stuck or Stuck('the answer depends on ' + ', '.join(sorted(un))[:300]); continue
                bad.append((describe(S, asg) if S is not None else '; '.join('%s=%s' % (short(k), short(v)) for k, v in asg.items()), got, want))
                if len(bad) >= 3: break
            if time.time() - t0 > self.seconds: raise Incomplete('table takes longer than %d s' % self.seconds)
        return bad, stuck

def scenarios(n):
    """columns of tables with many symbols: many uses of a definition, many definitions, many nested blocks"""
    def row(k, kind, region, num=None, name=None, chain=None):
        d = {('kind', k): kind, ('region', k): region}
        if kind in DEFS: d[('named', k)] = name is not None
        else: d[('byname', k)] = num is None
        if num is not None: d[('num', k)] = num
        if name is not None: d[('nm', k)] = ('t', 'name', name)
        if chain is not None: d[('chain', k)] = chain
        return d
    def done(rows, *cursors):
        base = {'family': (rows[0][('kind', 0)],)}
        for r in rows: base.update(r)
        for c in cursors: yield dict(base, cursor=('t', 'symnode', c))
    for D, R in list(FIELD.items()) + [('Param', 'LocalRef'), ('Local', 'LocalRef'), ('BlockDef', 'BlockRef')]:
        reg = ('t', 'regnode', space(D), 0)
        ch = (0,) if D == 'BlockDef' else None
        inner = ('t', 'symnode', 0) if D == 'BlockDef' else reg
        yield from done([row(0, D, reg, 0, 0)] + [row(k, R, inner, None, 0, ch) for k in range(1, n)], 0, n - 1)
        yield from done([row(0, D, reg, 0)] + [row(k, R, inner, 0, None, ch) for k in range(1, n)], 0, n - 1)
        yield from done([row(k, D, reg, k, 0) for k in range(n)], 0, n - 1)
        if D == 'BlockDef':
            for same in (False, True):
                l = [row(k, D, ('t', 'symnode', k - 1) if k else reg, 0, 0 if same else k) for k in range(n - 2)]
                up = tuple(range(n - 3, -1, -1))
                yield from done(l + [row(n - 2, R, ('t', 'symnode', n - 3), n - 3, None, up), row(n - 1, R, ('t', 'symnode', n - 3), None, 0, up)], 0, n - 2, n - 1)
        else:
            yield from done([row(k, D, reg, k, k) for k in range(n - 2)] + [row(n - 2, R, reg, n - 3), row(n - 1, R, reg, None, n - 3)], n - 3, n - 2, n - 1)

CUR, URI, REQ = ('t', 'CURSOR'), ('t', 'URI'), ('t', 'REQUEST')

def location(N, E, S, li, uri, node):
    """where a symbol is shown: its identifier, else its keyword, else the whole node"""
    for k in ('IDENT', 'KEYWORD'):
        t = S.T(('t', 'token', node, ('adt', KIND, [v['n'] for v in N.F.adts[KIND]['v']].index(k), ())))
        if E.discr(t, OPT) == 1:
            rng = ('t', 'range', t[3][0] if t[0] == 'adt' else ('t', 'fld', ('t', 'as', t, 1), 0)); break
    else: rng = ('t', 'range', node)
    return adtval(N.F, 'lsp_types::Location', uri=uri, range=N.range(li, rng))

def locations(E, v):
    """a goto response as the list of its locations"""
    if v[0] == 'adt' and v[1] == OPT: return ('vec', ()) if v[2] == 0 else locations(E, v[3][0])
    if v[0] == 'adt' and v[1] == 'lsp_types::GotoDefinitionResponse':
        x = v[3][0]
        return x if x[0] == 'vec' else ('vec', (x,))
    if v[0] in ('vec', 'map'): return v
    raise Stuck('response ' + str(v[0]))

def request(N, params, adt, inner):
    u, pos = N.doc(params, adt, inner)
    uri = Q('uri', u)
    cur = ('t', 'cursor', uri, ('t', 'newroot', Q('root', uri)), pos)
    return u, uri, cur

def brief(v):
    s = str(v)
    import re
    l = re.findall(r"'symnode', (\d+)", s)
    return ('symbols %s' % sorted(set(l)) if l else 'nothing') if len(s) > 200 or not l else s

def severity(E, v):
    """DiagnosticSeverity is a newtype with associated constants"""
    s = str(v)
    return ('s', 'error') if "'lsp_types::DiagnosticSeverity', 1)" in s else ('s', 'other ' + s[:80])

def quoted(m):
    """the first value interpolated into a formatted message"""
    if m[0] == 'cat':
        for x in m[1]:
            if x[0] == 's': continue
            while x[0] == 't' and x[1] in ('str', 'q', 'fmt'): x = x[-1]
            return x
    raise Stuck('message ' + str(m)[:60])

def argsof(F, body, byname, bytype=None):
    """arguments of a checker by parameter type"""
    out = []
    for i in range(body.n):
        t = F.ty(body.tys, body.locals[i + 1][0] if isinstance(body.locals[i + 1], (list, tuple)) else body.locals[i + 1])
        if 'LanguageService' in t: out.append(byname['service'])
        elif 'Vec' in t and 'Diagnostic' in t: out.append(byname['diags'])
        elif 'LineIndex' in t: out.append(byname['line_index'])
        elif 'SymbolTable' in t: out.append(byname['symbol_table'])
        elif 'InternUri' in t: out.append(byname['uri'])
        elif 'SyntaxToken' in t and 'token' in byname: out.append(byname['token'])
        elif 'SyntaxNode' in t: out.append(byname['root'])
        else: raise Incomplete('parameter of type ' + t)
    return out

