"""P19: inlay hints and hovers describe the definition that is meant."""
from tab import *
import cursor, strcol, checks.p09 as p09
from checks.p17 import LSPR, asked

CONTAINS = 'text_size::range::TextRange::contains_range'
LAST = 'rowan::api::SyntaxNode::last_child_or_token'

def hints(F, R):
    key = 'inlay-hints'
    N = Names(F)
    body = svc.method(F, 'inlay_hint')
    I, paths = summarise(F, body, [('t', 'params')], models={LSPR: asked})
    R.sites |= I.analysed
    P = ('t', 'params')
    u0 = N.fld(N.fld(P, 'InlayHintParams', 'text_document'), 'lsp_types::TextDocumentIdentifier', 'uri')
    uri0 = Q('uri', u0)
    ask0 = ('t', 'asked', Q('line_index', uri0), N.fld(P, 'InlayHintParams', 'range'))
    ASK = ('t', 'ASKED')
    IH = N.adt('InlayHint')
    rows = 0
    for n in (1, 2, 3):
        T = Table(F, I, paths, URI, n, limit=300000, seconds=250, short={ask0: ASK, uri0: URI, u0: REQ})
        def setup(S):
            E = S.E
            old = E.ophook.get('discr'); oldcall = E.ophook.get('call')
            def d(E, v):
                if v[0] == 't' and v[1] == 'lastel': return None
                return old(E, v) if old else None
            def call(E, g):
                if g[2] == LAST and g[3][1] == 'symnode': return some(('t', 'lastel', g[3][2]))
                if g[2] == CONTAINS:
                    r = g[4]
                    if g[3] != N.opt(ASK): raise Stuck('range ' + str(g[3])[:100])
                    if r[:2] != ('t', 'range') or r[2][1] not in ('symnode', 'lastel'): raise Stuck('contains ' + str(r)[:100])
                    return b(inside(S, r[2]))
                return oldcall(E, g)
            E.ophook['call'] = call
        T.setup = setup
        def inside(S, nd): return S.ch.choose(('in the range', nd), [True, False])
        def spec(S):
            E = S.E
            if E.discr(ASK, OPT) == 0: return ('s', 'none')
            out = []
            li = Q('line_index', URI)
            g = S.fields.index('green')
            for k in range(S.n):
                kd = S.kind(k)
                if kd == 'Func':
                    nm = S.name(k)
                    if nm == NONE or not inside(S, ('t', 'lastel', k)): continue
                    out.append(('tup', (N.pos(li, ('t', 'end', ('t', 'range', ('t', 'symnode', k)))), ('s', '(func '), nm[3][0], ('s', ')'))))
                elif kd in ('LocalRef', 'GlobalRef'):
                    if not inside(S, S.nodeof(k)): continue
                    D = S.resolves(k)
                    if not D: continue
                    ty = ('t', 'q', 'extract_type' if kd == 'LocalRef' else 'extract_global_type', E.fld(('t', 'sym', D[0]), g))
                    if E.discr(ty, OPT) == 0: continue
                    out.append(('tup', (N.pos(li, ('t', 'end', ('t', 'range', S.nodeof(k)))), ('t', 'str', N.opt(ty)))))
            return ('vec', tuple(out))
        def norm(E, v):
            if v == NONE: return ('s', 'none')
            if not (v[0] == 'adt' and v[1] == OPT and v[3][0][0] == 'vec'): raise Stuck('answer')
            out = []
            for x in v[3][0][1]:
                if x[0] != 'adt' or x[1] != IH: raise Stuck('hint')
                g = dict(zip(F.adts[IH]['v'][0]['f'], x[3]))
                l = g['label']
                if l[0] != 'adt' or l[2] != 0: raise Stuck('label')
                l = l[3][0]
                ps = repl(g['position'])
                if l[0] == 'cat':
                    parts = []
                    for y in l[1]:
                        while y[0] == 't' and (y[1] == 'str' or y[1:3] == ('q', 'lookup_ident')): y = y[-1]
                        if y[0] == 's' and parts and parts[-1][0] == 's': parts[-1] = ('s', parts[-1][1] + y[1])
                        else: parts.append(y)
                    out.append(('tup', (ps,) + tuple(parts)))
                else: out.append(('tup', (ps, l)))
            return ('vec', tuple(out))
        def repl(t):
            """a node ends where its last element ends"""
            if t[:2] == ('t', 'end') and t[2][:2] == ('t', 'range') and t[2][2][:2] == ('t', 'lastel'): return ('t', 'end', ('t', 'range', ('t', 'symnode', t[2][2][2])))
            return tuple(repl(x) if isinstance(x, tuple) and x else x for x in t)
        bad = T.run(spec, norm, prune=lambda S: S.uniquenames())
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): in the situation [%s] the hints are %s, expected %s' % (body.path, body.file, bad[0][0][:600], str(bad[0][1])[:600], str(bad[0][2])[:600])); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

WS, LC, BC, ND = 'WHITESPACE', 'LINE_COMMENT', 'BLOCK_COMMENT', 'MODULE_FIELD_TYPE'
W = (WS, '\n')
DOCS = [[], [W, (LC, ';;; a')], [W, (LC, ';;;b')], [W, (LC, ';;;\tc')], [W, (LC, ';;; last'), W, (LC, ';;; first')], [(LC, ';;; last'), W, (LC, ';;; middle'), (WS, ' '), (LC, ';;; first')],
        [W, (LC, ';; no')], [W, (LC, ';; no'), W, (LC, ';;; a')], [W, (LC, ';;; near'), W, (LC, ';; no'), W, (LC, ';;; far')], [W, (ND, None), W, (LC, ';;; of another')],
        [W, (BC, '(; x ;)'), W, (LC, ';;; a')], [W, (LC, ';;; a'), W, (BC, '(; x ;)'), W, (LC, ';;; b')], [W, (LC, ';;;  three'), W, (LC, ';;;'), W, (LC, ';;; one')]]

def doctext(l):
    """the nearest run of ;;; comments before a function, the others and blanks passed over, in the order of the text"""
    out = []
    for k, t in l:
        if k == WS: continue
        if k != LC: break
        if t.startswith(';;;'): t = t[3:]; out.insert(0, t[1:] if t[:1] in (' ', '\t') else t)
        elif out: break
    return '\n'.join(out)

GT, VT = 'wat_syntax::ast::ty::GlobalType', 'wat_syntax::ast::ty::ValType'
GCH, GKIND, SIB = 'rowan::green::node::GreenNodeData::children', 'rowan::green::node::GreenNodeData::kind', 'rowan::api::SyntaxNode::siblings_with_tokens'

class Hover:
    """what is written around definitions: comments before functions, types of globals, signatures of types"""
    def __init__(self, S, docs):
        self.S = S; E = S.E; self.E = E; self.docs = docs
        self.names = [v['n'] for v in S.F.adts[KIND]['v']]
        strcol.install(E, ['unused'])
        oc = E.ophook['call']
        def call(E, g):
            if g[2] == GKIND and g[3][1] == 'gel': return ('tup', (('i', S.nk['FUNC_TYPE' if g[3][3] == 'type' else 'VAL_TYPE']),))
            return oc(E, g)
        E.ophook['call'] = call
        def scall(E, v):
            if v[2] == GCH and v[3][:2] == ('t', 'fld') and v[3][2][:2] == ('t', 'sym'):
                k = v[3][2][2]
                return [('t', 'gel', k, 'token'), ('t', 'gel', k, 'other')] + ([('t', 'gel', k, 'type')] if self.functype(k) else [])
            if v[2] == SIB and v[3][1] == 'symnode':
                if v[4][2] != 1: raise Stuck('siblings after')
                k = v[3][2]
                return [v[3]] + [('t', 'sib', k, i) for i in range(len(self.doc(k)))]
        E.srchook['call'] = scall
        def wrap(op, h, d):
            old = d.get(op)
            def f(*a):
                r = h(*a)
                return r if r is not None or old is None else old(*a)
            d[op] = f
        def discr(E, v):
            if v[0] != 't': return None
            if v[1] == 'gel': return int(v[3] == 'token')
            if v[1] == 'sib': return int(self.sib(v)[0] != ND)
            if v[1] == 'symnode': return 0
        wrap('discr', discr, E.ophook)
        wrap('as', lambda E, v, i: v[2] if v[2][0] == 't' and v[2][1] in ('gel', 'sib') else None, E.fldhook)
        wrap('kind', lambda E, g: ('adt', KIND, self.names.index(self.sib(g[2])[0]), ()) if g[2][1] == 'sib' else None, E.ophook)
        wrap('text', lambda E, g: ('s', self.sib(g[2])[1]) if g[2][1] == 'sib' else None, E.ophook)
        wrap('into_token', lambda E, g: (some(g[2]) if self.sib(g[2])[0] != ND else NONE) if g[2][1] == 'sib' else None, E.ophook)
    def doc(self, k): return DOCS[self.S.ch.choose(('comments before', k), range(len(DOCS)))] if self.docs else []
    def sib(self, v): return self.doc(v[2])[v[3]]
    def functype(self, k): return self.S.ch.choose(('function type in type', k), [True, False])

def describe_def(F, S, H, k):
    """text shown for a definition, as literal pieces and values"""
    E = S.E; out = []
    kd = S.kind(k); g = S.fields.index('green'); nm = S.name(k)
    def s(t): out.append(('s', t))
    def name():
        if nm != NONE: s(' '); out.append(nm[3][0])
    if kd in ('Param', 'Local'):
        s('(' + kd.lower()); name()
        ty = ('t', 'q', 'extract_type', E.fld(('t', 'sym', k), g))
        if E.discr(ty, OPT): s(' '); out.append(('t', 'fld', ('t', 'as', ty, 1), 0))
        s(')')
    elif kd == 'Func':
        s('```wat\n'); out.append(('t', 'header', k)); s('\n```')
        d = doctext(H.doc(k))
        if d: s('\n---\n' + d)
    elif kd == 'Type':
        s('(type'); name()
        if H.functype(k):
            s(' (func')
            sig = ('t', 'q', 'extract_sig', ('t', 'gel', k, 'type'))
            if not all([E.truth(('t', 'is_empty', ('t', 'fld', sig, i))) for i in (0, 1)]): s(' '); out.append(sig)
            s(')')
        s(')')
    elif kd == 'GlobalDef':
        s('(global'); name()
        gt = ('t', 'child', S.nodeof(k), GT)
        if E.discr(gt, OPT):
            node = ('t', 'fld', ('t', 'fld', ('t', 'as', gt, 1), 0), 0)
            mut = E.discr(('t', 'token', node, ('adt', KIND, [v['n'] for v in F.adts[KIND]['v']].index('KEYWORD'), ())), OPT)
            if mut: s(' (mut')
            vt = ('t', 'child', node, VT)
            if E.discr(vt, OPT): s(' '); out.append(('t', 'syntax', ('t', 'fld', ('t', 'as', vt, 1), 0)))
            if mut: s(')')
        s(')')
    return out

def pieces(l):
    out = []
    l = list(l)
    while l:
        y = l.pop(0)
        while y[0] == 't' and (y[1] == 'str' or y[1:3] == ('q', 'lookup_ident')): y = y[-1]
        if y[0] == 'cat': l[:0] = y[1]; continue
        if y[0] == 't' and y[1:3] == ('q', 'render_func_header'):
            z = y[-1]
            if z[0] != 'adt' or z[3][0][:2] != ('t', 'sym') or y[3] != URI: raise Stuck('header')
            y = ('t', 'header', z[3][0][2])
        if y[0] == 's' and out and out[-1][0] == 's': out[-1] = ('s', out[-1][1] + y[1])
        elif y != ('s', ''): out.append(y)
    return ('tup', tuple(out))

def texts(F, v):
    """contents of a hover as a list of pieces"""
    n = v[1].rsplit('::', 1)[-1] if v[0] == 'adt' else v[0]
    if n == 'HoverContents':
        x = v[3][0]
        return [y for z in x[1] for y in texts(F, z)] if x[0] == 'vec' else texts(F, x)
    if n == 'MarkedString': return texts(F, v[3][0])
    if n in ('LanguageString', 'MarkupContent'):
        g = dict(zip(F.adts[v[1]]['v'][0]['f'], v[3]))
        x = g['value']
        return [pieces(x[1] if x[0] == 'cat' else (x,))]
    if n in ('cat', 's'): return [pieces(v[1] if n == 'cat' else (v,))]
    raise Stuck('contents ' + n)

HOVERED = {'LocalRef': None, 'Call': None, 'TypeUse': None, 'GlobalRef': None}
TYPES = ['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref']

def hover(F, R):
    key = 'hover'
    N = Names(F)
    body = svc.method(F, 'hover')
    I, paths = summarise(F, body, [('t', 'params')])
    R.sites |= I.analysed
    u0, uri0, cur0 = request(N, ('t', 'params'), 'HoverParams', 'text_document_position_params')
    tok = N.opt(CUR)
    HV = N.adt('Hover')
    METAS = 'wat_service::data_set::instr_meta::INSTR_METAS'
    rows = 0
    for n, docs in ((1, True), (2, False), (3, False)):
        T = Table(F, I, paths, URI, n, limit=300000, seconds=250, short={cur0: CUR, uri0: URI, u0: REQ})
        W = {}
        def setup(S):
            S.cursor = tok
            W['h'] = H = Hover(S, docs)
            E = S.E
            ot = E.ophook['text']
            def text(E, g):
                if g[2] != tok: return ot(E, g)
                k = E.discr(('t', 'kind', tok))
                if k == S.nk['INSTR_NAME']: return ('s', E.ch.choose('instruction', ['i32.add', 'bogus']))
                return ('s', E.ch.choose('type', {'NUM_TYPE': TYPES[:4], 'VEC_TYPE': TYPES[4:5], 'REF_TYPE': TYPES[5:]}.get({v: k for k, v in S.nk.items()}[k], ['other'])))
            E.ophook['text'] = text
            oc = E.ophook['call']
            def call(E, g):
                if g[2] == 'std::collections::hash::map::HashMap::get' and g[3] == ('t', 'static', METAS):
                    if g[4][0] != 's': raise Stuck('instruction ' + str(g[4])[:100])
                    return some(('t', 'meta', g[4][1])) if g[4][1] != 'bogus' else NONE
                return oc(E, g)
            E.ophook['call'] = call
        T.setup = setup
        def spec(S):
            E = S.E; H = W['h']
            if E.discr(CUR, OPT) == 0: return ('s', 'nothing')
            if S.n > 1: S.ch.asg.setdefault(('discr', ('t', 'kind', tok)), S.nk['IDENT'])
            k = {v: x for x, v in S.nk.items()}[E.discr(('t', 'kind', tok))]
            if k in ('NUM_TYPE', 'VEC_TYPE', 'REF_TYPE'):
                return ('tup', (('s', 'type'), E.ophook['text'](E, ('t', 'text', tok))))
            if k == 'INSTR_NAME':
                t = E.ophook['text'](E, ('t', 'text', tok))
                if t == ('s', 'bogus'): return ('s', 'nothing')
                return ('arr', (('tup', (('s', '```wat\ni32.add\n```\nBinary Opcode: '), ('t', 'fld', ('t', 'meta', 'i32.add'), F.adts['wat_service::data_set::instr_meta::InstrMeta']['v'][0]['f'].index('bin_op')))),))
            if k not in ('IDENT', 'INT', 'UNSIGNED_INT', 'KEYWORD') or E.discr(('t', 'parent', tok), OPT) == 0: return ('s', 'nothing')
            node = S.cursornode()
            if node[1] != 'symnode': return ('s', 'nothing')
            i = node[2]; kd = S.kind(i)
            if kd in REFS:
                if kd not in HOVERED or k == 'KEYWORD': return ('s', 'nothing')
                D = S.resolves(i)
            else: D = [i] if kd in ('Param', 'Local', 'Func', 'Type', 'GlobalDef') else []
            if not D: return ('s', 'nothing')
            return ('arr', tuple(pieces(describe_def(F, S, H, d)) for d in D))
        def norm(E, v):
            if v == NONE: return ('s', 'nothing')
            if not (v[0] == 'adt' and v[1] == OPT and v[3][0][0] == 'adt' and v[3][0][1] == HV): raise Stuck('answer')
            g = dict(zip(F.adts[HV]['v'][0]['f'], v[3][0][3]))
            ts = texts(F, g['contents'])
            if not [t for t in ts if t[1]]: return ('s', 'nothing')
            want = N.range(Q('line_index', URI), ('t', 'range', tok))
            if g['range'] != NONE and g['range'] != some(want): return ('tup', (('s', 'wrong range'), g['range']))
            if 'type' in E.ch.asg and 'string' not in E.ch.asg and len(ts) == 1 and len(ts[0][1]) == 1 and ts[0][1][0][0] == 's':
                l = ts[0][1][0][1].split('\n')
                if l[0] == '```wat' and l[2:3] == ['```'] and ''.join(l[3:]).strip(): return ('tup', (('s', 'type'), ('s', l[1])))
            return ('arr', tuple(ts))
        bad = T.run(spec, norm, prune=lambda S: S.uniquenames())
        rows += T.rows
        if bad:
            R.bad(key, '%s (%s): in the situation [%s] the hover shows %s, expected %s' % (body.path, body.file, bad[0][0][:600], str(bad[0][1])[:600], str(bad[0][2])[:600])); return
    R.ok(key, {'function': body.path, 'paths': len(paths), 'table_rows': rows}); R.count('table rows', rows)

def check(F, R):
    R.rule('Each answer is summarised as a formula over the symbol table by abstract interpretation of MIR and tabulated over every combination of symbols against the scoping rules.')
    for f in (hints, hover):
        try: f(F, R)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(f.__name__, '%s: %s' % (type(e).__name__, str(e)[:400]))
    cursor.run(F, R, 'premise:')
    p09.run(F, R, 'premise:')
