"""P09: the symbol table of a document holds exactly its definitions and uses, with scope, number and name."""
from tab import *
from tree import *
import tree as TR
import doc, world

USES = {'call': 'Call', 'return_call': 'Call', 'ref.func': 'Call', 'local.get': 'LocalRef', 'local.set': 'LocalRef', 'local.tee': 'LocalRef', 'global.get': 'GlobalRef', 'global.set': 'GlobalRef',
        'br': 'BlockRef', 'br_if': 'BlockRef', 'br_table': 'BlockRef', 'table.get': 'TableRef', 'table.set': 'TableRef', 'table.size': 'TableRef', 'table.grow': 'TableRef', 'table.fill': 'TableRef', 'table.copy': 'TableRef'}
INDEXED = {'MODULE_FIELD_START': 'Call', 'EXPORT_DESC_FUNC': 'Call', 'EXPORT_DESC_GLOBAL': 'GlobalRef', 'EXPORT_DESC_MEMORY': 'MemoryRef', 'EXPORT_DESC_TABLE': 'TableRef', 'TYPE_USE': 'TypeUse', 'TABLE_USE': 'TableRef', 'MEM_USE': 'MemoryRef'}
NUM = ('UNSIGNED_INT', 'INT')

class Spec:
    def __init__(self, F, T, uri):
        self.F = F; self.T = T
        self.sf = F.adts[SI]['v'][0]['f']; self.xf = F.adts[IDX]['v'][0]['f']; self.tf = F.adts[ST]['v'][0]['f']
        self.kinds = [v['n'] for v in F.adts[SK]['v']]
    def key(self, n): return ('adt', KEY, 0, (('t', 'ptr', n),))
    def idx(self, num, name): return ('adt', IDX, 0, tuple({'num': num, 'name': name}[f] for f in self.xf))
    def ident(self, tk): return Q('ident', ('t', 'str', ('t', 'text', tk)))
    def sym(self, n, region, kind, num, name):
        v = {'key': self.key(n), 'green': ('t', 'green', n), 'region': self.key(region), 'kind': ('adt', SK, self.kinds.index(kind), ()), 'idx': self.idx(num, name)}
        return ('adt', SI, 0, tuple(v[f] for f in self.sf))
    def label(self, n):
        l = self.T.sub(n, 'IDENT')
        return some(self.ident(l[0])) if l else NONE
    def refs(self, n, region, kind):
        """the use written in an operand or index node"""
        T = self.T
        l = T.sub(n, 'IDENT')
        if l: return [self.sym(n, region, kind, NONE, some(self.ident(l[0])))]
        l = [x for x in T.elems(n) if x[2] in NUM]
        if l:
            v = ('t', 'call', 'core::str::<impl str>::parse', ('t', 'text', l[0]))
            if T.ch.choose(('discr', v), [0, 1]) == 0: return [self.sym(n, region, kind, some(('t', 'fld', ('t', 'as', v, 0), 0)), NONE)]
        return []
    def up(self, n, kinds):
        for x in [n] + self.T.ups(n):
            if x[2] in kinds: return x
    def typed(self, n, kind, region, i):
        """(symbols, next number) of a param or local group"""
        T = self.T; l = T.sub(n, 'IDENT')
        if l: return [self.sym(n, region, kind, some(('i', i)), some(self.ident(l[0])))], i + 1
        out = []
        for v in T.sub(n, 'VAL_TYPE'):
            out.append(self.sym(v, region, kind, some(('i', i)), NONE)); i += 1
        return out, i
    def table(self, number, exclude=lambda instr: False):
        T = self.T; n = T.focus(); k = n[2]
        syms = []; blocks = []
        if k == 'MODULE': syms.append(self.sym(n, T.ups(n)[0], 'Module', NONE, NONE))
        elif k in DEFKIND:
            syms.append(self.sym(n, self.up(n, ('MODULE',)), DEFKIND[k], some(('i', number(T, n))), self.label(n)))
            if k == 'MODULE_FIELD_FUNC':
                i = 0
                for tu in T.sub(n, 'TYPE_USE'):
                    for p in T.sub(tu, 'PARAM'): l, i = self.typed(p, 'Param', n, i); syms += l
                for p in T.sub(n, 'LOCAL'): l, i = self.typed(p, 'Local', n, i); syms += l
        elif k in BLOCKS: syms.append(self.sym(n, T.ups(n)[0], 'BlockDef', some(('i', 0)), self.label(n)))
        elif k in INDEXED:
            for x in T.sub(n, 'INDEX'): syms += self.refs(x, self.up(n, ('MODULE',)), INDEXED[k])
        elif k == 'PLAIN_INSTR':
            name = T.text(T.sub(n, 'INSTR_NAME')[0])[1]
            ops = T.sub(n, 'OPERAND')
            if exclude(name): raise Prune
            if name == 'table.init':
                # with two indices the first one is the table
                if len(ops) < 2 or any(not self.refs(x, n, 'TableRef') for x in ops): raise Prune
                syms += self.refs(ops[0], self.up(n, ('MODULE',)), 'TableRef')
            elif name in USES:
                kd = USES[name]
                region = self.up(n, ('MODULE_FIELD_FUNC',) if kd == 'LocalRef' else BLOCKS if kd == 'BlockRef' else ('MODULE',))
                if region is None: return self.result(syms, blocks, n)
                for o in ops:
                    l = self.refs(o, region, kd); syms += l
                    if kd == 'BlockRef' and l:
                        for lvl, bl in enumerate([x for x in T.ups(n) if x[2] in BLOCKS]):
                            blocks.append(('tup', (self.key(o), self.key(bl), self.idx(some(('i', lvl)), self.label(bl)))))
        return self.result(syms, blocks, n)
    def result(self, syms, blocks, n):
        v = {'symbols': ('vec', tuple(syms)), 'blocks': ('vec', tuple(blocks))}
        return ('adt', ST, 0, tuple(v[f] for f in self.tf))

class TreeTable:
    def __init__(self, F, I, paths, focus, instrs, pre=(), limit=150000, seconds=100):
        self.F = F; self.I = I
        self.paths = [(dict(s.asm), I.deep(s, v)) for s, v in paths] if not isinstance(paths[0][0], dict) else paths
        it = Intern({}); self.keep = it
        self.paths = [({it(t): v for t, v in g.items()}, it(v)) for g, v in self.paths]
        self.tree = Tree(self.paths)
        self.ch = Choices(limit); self.E = Ev(I, self.ch); self.E.okcalls = ('core::str::<impl str>::parse',)
        self.T = Tree_(self.E, F)
        self.T.focuskinds = list(focus); self.T.instrs = list(instrs)
        self.seconds = seconds; self.rows = 0
        self.npre = len(pre); self.prekinds = pre
    def run(self, spec, norm=lambda E, v: v):
        t0 = time.time(); bad = []
        T = self.T
        def leaf():
            self.E.reset(); T.parents = {}; T.infold = 0
            T.pre = [('t', 'n', T.ch.choose(('pre', i), ks), ('pre%d' % i,)) for i, ks in enumerate(self.prekinds)]
            want = spec(T)
            got = norm(self.E, self.E.paths(self.tree))
            return canon(got), canon(want)
        for (got, want), asg in self.ch.rows(leaf):
            self.rows += 1
            if got != want:
                un = unknowns(got, set()) - unknowns(want, set())
                if un: raise Stuck('the symbols depend on ' + ', '.join(sorted(un))[:300])
                bad.append((situation(asg), got, want))
                if len(bad) >= 2: break
            if time.time() - t0 > self.seconds: raise Incomplete('table takes longer than %d s' % self.seconds)
        return bad

def situation(asg):
    out = []
    for k, v in asg.items():
        if k == 'focus': out.append('node ' + v)
        elif isinstance(k, tuple) and k[0] == 'pre': out.append('after ' + v)
        elif isinstance(k, tuple) and k[0] == 'above': out.append('in ' + '<'.join(v))
        elif isinstance(k, tuple) and k[0] == 'instr': out.append('instruction ' + v)
        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1][0] == 't' and k[1][1] == 'n': out.append('%s of %s: %s' % (k[0], k[1][2], v))
        else: out.append(short(k) + '=' + short(v))
    return '; '.join(out)

def diffsym(got, want):
    """symbols in one table and not in the other, readable"""
    def items(v):
        out = []
        for x in v[3]:
            for y in x[1]: out.append(y)
        return out
    try: g, w = items(got), items(want)
    except Exception: return 'records %s, expected %s' % (str(got)[:200], str(want)[:200])
    a = [x for x in g if x not in w]; b_ = [x for x in w if x not in g]
    return 'records %s where the rule demands %s' % ([rd(x) for x in a] or 'nothing more', [rd(x) for x in b_] or 'nothing more')
def rd(x):
    import re
    s = str(x)
    s = re.sub(r"\('t', 'n', '(\w+)', \([^()]*\)\)", r'\1', s)
    s = s.replace('wat_service::binder::', '').replace('wat_service::idx::', '').replace("'adt', ", '').replace("'core::option::Option', ", '')
    return s[:260]

def strings(terms):
    seen = set(); out = set()
    def walk(t):
        if id(t) in seen: return
        seen.add(id(t))
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 's' and isinstance(t[1], str): out.add(t[1])
            for x in t:
                if isinstance(x, tuple): walk(x)
    for t in terms: walk(t)
    return out

def binder(F):
    """summary of the symbol-table query (cached per run)"""
    r = getattr(F, '_binder', None)
    if r is None:
        l = [b_ for b_ in F.bodies.values() if b_.path == 'wat_service::binder::create_symbol_table']
        if len(l) != 1: raise Incomplete('no symbol-table query')
        uri = ('t', 'uri')
        def setup(st): st.mem[('g', 'db')] = svc.service_self(F)
        I, paths = summarise(F, l[0], [('ref', ('g', 'db'), ()), uri], self_=False, setup=setup)
        ps = [(dict(s.asm), I.deep(s, v)) for s, v in paths]
        r = F._binder = (l[0], I, ps)
    return r

class Written:
    """the elements of an explicit tree, seen the way Spec reads nodes"""
    def __init__(self, W):
        self.W = W; self.ch = W.E.ch; self.at = None
    def view(self, el): return None if el is None else ('t', 'n', self.W.kind(el), el)
    def focus(self): return self.view(self.at)
    def sub(self, n, kind): return [self.view(c) for c in self.W.kids(n[3]) if self.W.kind(c) == kind]
    def elems(self, n): return [self.view(c) for c in self.W.kids(n[3])]
    def ups(self, n): return [self.view(c) for c in self.W.anc(n[3])[1:]]
    def text(self, n): return ('s', self.W.text(n[3]))

class Doc(Spec):
    """the symbol table of a whole document: what each of its nodes contributes, in order"""
    def ident(self, tk): return Q('ident', ('s', self.T.W.text(tk[3])))
    def refs(self, n, region, kind):
        T = self.T
        for x in T.elems(n):
            t = T.W.text(x[3])
            if x[2] == 'IDENT': return [self.sym(n, region, kind, NONE, some(self.ident(x)))]
            if x[2] in NUM: return [self.sym(n, region, kind, some(('i', int(t.replace('_', ''), 0))), NONE)] if t.isdigit() else []
        return []
    def whole(self):
        T = self.T; W = T.W; syms = []; blocks = []; n = [0]
        def number(T, x): n[0] += 1; return n[0] - 1
        i = [v for v in self.F.adts[ST]['v'][0]['f']]
        for el in W.desc(('t', 'el', 0)):
            if W.istoken(el): continue
            T.at = el
            if W.kind(el) == 'MODULE': n[0] = 0
            r = self.table(number)
            syms += r[3][i.index('symbols')][1]; blocks += r[3][i.index('blocks')][1]
        def plain(v):
            if isinstance(v, tuple) and v[:2] in (('t', 'ptr'), ('t', 'green')) and len(v) == 3: return plain(v[2])
            return v[3] if isinstance(v, tuple) and v[:2] == ('t', 'n') and len(v) == 4 else tuple(plain(x) for x in v) if isinstance(v, tuple) else v
        return plain(self.result(syms, blocks, None))

def documents(n):
    """documents with n of everything that can be repeated"""
    r = range(n); j = ' '.join
    return [
        '(module (func ' + j('(param $p%d i32)' % i for i in r) + j(' (local $l%d i32)' % i for i in r) + j(' local.get %d' % i for i in range(2 * n)) + j(' local.get $p%d' % i for i in r) + '))',
        '(module (func (param ' + j('i32' for i in r) + ') (local ' + j('i64' for i in r) + ') ' + j('local.set %d' % i for i in range(2 * n)) + '))',
        '(module (func ' + j('(param i32)' for i in r) + ' ' + j('(local f32)' for i in r) + '))',
        '(module ' + j('(func $f%d call $f%d call %d)' % (i, n - 1 - i, i) for i in r) + ')',
        '(module ' + j('(type $t%d (func))' % i for i in r) + ' ' + j('(func (type %d) (param i32 i64))' % i for i in r) + ' ' + j('(global $g%d i32 global.get $g%d)' % (i, i) for i in r) + ')',
        '(module (func ' + j('block $b%d' % i for i in r) + ' ' + j('br $b%d' % i for i in r) + ' ' + j('br_if %d' % i for i in r) + ' br_table ' + j(str(i) for i in r) + ' ' + j('end' for i in r) + '))',
        '(module (func ' + j('(loop (block $x' for i in r) + ' ' + j('(br %d)' % i for i in range(2 * n)) + ' ' + '))' * n + '))',
        '(module (func $a (param i32) (local $x i64) local.get $x local.get 0) ' + j('(memory $m%d 1)' % i for i in r) + ' ' + j('(export "e%d" (func $a))' % i for i in r) + ' (start $a))',
        '(module (func ' + '(i32.add (i32.const 1) ' * n + '(call $f)' + ')' * n + ') (func $f (result i32) i32.const 1))',
    ]

def root(E, W): E.ophook['newroot'] = lambda E, g: ('t', 'el', 0)

def whole(F, R, prefix, I, paths):
    """whole documents, larger than every number the query compares an amount with"""
    lits = [x for x in literals([y for g, v in paths for y in list(g.items()) + [v]]) if 0 <= x]
    for n in sorted({3, max([x for x in lits if x <= 60] + [3]) + 3}):
        key = prefix + ('documents' if n == 3 else 'large-documents')
        try:
            if any(x > 60 for x in lits): R.undec(prefix + 'large-documents:%d' % max(lits), 'amounts are compared with %d' % max(lits))
            texts = documents(n)
            rows, bad = world.run(F, I, paths, [doc.read(t) for t in texts], lambda W: Doc(F, Written(W), None).whole(), plain=True, setup=root)
            R.count('whole documents', len(texts))
            if bad: R.bad(key, '%s: for the document %s the symbol table %s' % ('create_symbol_table', bad[0][0][:400], diffsym(bad[0][1], bad[0][2])))
            else: R.ok(key, {'rule': 'whole documents with %d of everything that can be repeated' % n, 'documents': len(texts)})
        except (Incomplete, Stuck, KeyError, IndexError) as e:
            R.undec(key, '%s: %s' % (type(e).__name__, e))

def run(F, R, prefix=''):
    """obligations of the symbol table; also the premise of the properties about names"""
    try: body, I, paths = binder(F)
    except (Incomplete, Stuck, KeyError, IndexError) as e:
        R.undec(prefix + 'symbol-table', '%s: %s' % (type(e).__name__, e)); return
    R.sites |= I.analysed
    consts = strings([tuple(g.items()) for g, v in paths] + [v for g, v in paths])
    names = sorted(set(USES) | {'table.init', 'nop'} | {s for s in consts if all(c.isalnum() or c in '._' for c in s)})
    fk = kindset(F, [tuple(g.items()) for g, v in paths] + [v for g, v in paths])
    kn = {v['d']: v['n'] for v in F.adts[KIND]['v']}
    nodekinds = {'MODULE', 'PLAIN_INSTR', 'PARAM', 'LOCAL', 'FUNC_TYPE', 'MODULE_FIELD_ELEM', 'MODULE_FIELD_DATA', 'MODULE_FIELD_EXPORT', 'MODULE_FIELD_IMPORT'} | set(DEFKIND) | set(INDEXED) | set(BLOCKS)
    nodekinds &= set(v['n'] for v in F.adts[KIND]['v'])
    def table(key, focus, instrs, number, pre=(), exclude=lambda n: False, what='', S=Spec, thin=False, above=None):
        key = prefix + key
        try:
            T = TreeTable(F, I, paths, focus, instrs, pre)
            sp = S(F, T.T, None)
            T.T.thin = thin
            T.T.chains = above
            bad = T.run(lambda t: sp.table(number, exclude))
            R.count('table rows', T.rows)
            if bad: R.bad(key, '%s (%s): for [%s] the symbol table %s' % (body.path, body.file, bad[0][0], diffsym(bad[0][1], bad[0][2])))
            else: R.ok(key, {'function': body.path, 'rule': what, 'table_rows': T.rows})
        except (Incomplete, Stuck, KeyError, IndexError) as e:
            R.undec(key, '%s: %s' % (type(e).__name__, e))
    first = lambda T, n: 0
    FUNC = TR.FUNC
    for k in sorted(nodekinds - {'PLAIN_INSTR'}): table('node:' + k, [k], ['nop'], first, what='what a node of this kind contributes')
    for nm in names:
        if nm in UNBOUND: continue
        table('instr:' + nm, ['PLAIN_INSTR'], [nm], first, what='uses in the operands of this instruction')
    def number(T, n):
        i = 0
        for p in T.pre:
            if p[2] == 'MODULE': i = 0
            elif p[2] in DEFKIND: i += 1
        return i
    defs = sorted(DEFKIND); others = ['MODULE', 'PLAIN_INSTR', 'BLOCK_BLOCK', 'MODULE_FIELD_EXPORT', 'MODULE_FIELD_IMPORT', 'PARAM', 'TYPE_USE']
    bare = lambda f: [f]
    table('numbering', defs, ['nop', 'call'], number, pre=[defs + others], thin=True, what='definitions are numbered in order within their module')
    table('numbering:two', ['MODULE_FIELD_TYPE', 'IMPORT_DESC_GLOBAL_TYPE'], ['nop', 'call'], number, pre=[defs + ['MODULE'], defs + ['MODULE', 'PLAIN_INSTR']], thin=True, what='definitions are numbered in order within their module')
    whole(F, R, prefix, I, paths)
    if prefix: return
    def spaces(T, n):
        i = 0
        for p in T.pre:
            if p[2] == 'MODULE': i = 0
            elif DEFKIND.get(p[2]) == DEFKIND[n[2]]: i += 1
        return i
    table('index-spaces', ['MODULE_FIELD_TYPE', 'MODULE_FIELD_FUNC'], ['nop'], spaces, pre=[['MODULE_FIELD_TYPE', 'MODULE_FIELD_FUNC']], thin=True, what='each kind of definition has an index space of its own')
    class Elem(Spec):
        def table(self, number, exclude):
            T = self.T; n = T.focus(); syms = []
            for x in T.sub(n, 'INDEX'): syms += self.refs(x, self.up(n, ('MODULE',)), 'Call')
            return self.result(syms, [], n)
    table('elem-indices', ['ELEM', 'ELEM_LIST'], ['nop'], first, S=Elem, what='functions listed in element segments are uses')
    class Indirect(Spec):
        def table(self, number, exclude):
            T = self.T; n = T.focus(); syms = []
            for x in T.sub(n, 'OPERAND')[:1]: syms += self.refs(x, self.up(n, ('MODULE',)), 'TableRef')
            return self.result(syms, [], n)
    table('call_indirect-table', ['PLAIN_INSTR'], ['call_indirect', 'return_call_indirect'], first, S=Indirect, what='the table of an indirect call is a use')
    class Outside(Spec):
        def table(self, number, exclude):
            T = self.T; n = T.focus(); syms = []
            for x in T.sub(n, 'OPERAND'): syms += self.refs(x, self.up(n, BLOCKS) or self.up(n, ('MODULE_FIELD_FUNC',)), 'BlockRef')
            return self.result(syms, [], n)
    table('label-outside-blocks', ['PLAIN_INSTR'], ['br', 'br_if', 'br_table'], first, S=Outside, above=[FUNC], what='labels used outside every block are uses')
UNBOUND = {}

def check(F, R):
    R.rule('the symbol-table query is summarised as a formula over the syntax tree by abstract interpretation of its MIR (one generic node per collection, counters as folds) and tabulated, per kind of node and per instruction, over every combination of surroundings the parser can produce')
    run(F, R)
