"""Document synchronisation and publishing of diagnostics."""
from srv import *
from checks.p06 import method_of, pathname
import svc

def fld(F, ty, t, name):
    f = F.adts[ty]['v'][0]['f']
    return ('t', 'fld', t, f.index(name))

def strip(t):
    """forget dereferences, copies and string conversions"""
    while t[0] == 't' and t[1] in ('deref',): t = t[2]
    if t[0] == 't': return tuple(strip(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
    return t

PUB = 'textDocument/publishDiagnostics'

def check(F, R):
    import checks.p16; checks.p16.texts(F, R, 'service:')
    R.rule('per received message, from any state of the server: didOpen and didChange store exactly the text of the notification (for several changes the last one) under exactly its URI, once, and nothing else does; '
           'afterwards, and only for clients without pull diagnostics, the diagnostics of that document are published; didClose publishes an empty list for its document; the service stores what it is given')
    R.assumptions += ['clients send full texts, as the capabilities demand', 'sending on the connection succeeds']
    I, res, names = run_server(F)
    for p in I.analysed: R.sites.add(p)
    TD = {'textDocument/didOpen': 'DidOpenTextDocumentParams', 'textDocument/didChange': 'DidChangeTextDocumentParams', 'textDocument/didClose': 'DidCloseTextDocumentParams'}
    T = lambda m: ('t', 'params', m)
    L = 'lsp_types::'
    def uri(m):
        inner = {'textDocument/didOpen': ['uri', 'language_id', 'version', 'text'], 'textDocument/didChange': ['uri', 'version'], 'textDocument/didClose': ['uri']}[m]
        return ('t', 'fld', fld(F, L + TD[m], T(m), 'text_document'), inner.index('uri'))
    opent = ('t', 'fld', fld(F, L + TD['textDocument/didOpen'], T('textDocument/didOpen'), 'text_document'), 3)
    cc = fld(F, L + TD['textDocument/didChange'], T('textDocument/didChange'), 'content_changes')
    n = 0
    pull = pull_term(F)
    vague = generic(res, cc, method_of)
    for st, v in res:
        k = st.mem.get(KIND)
        if k is None: continue
        m = method_of(st)
        evs = [e for e in st.mem.get(EV, ()) if not (e[0] == 'svc' and e[1] == 'initialize') and e[0] != 'init']
        commits = [e for e in evs if e[0] == 'svc' and e[1] == 'commit']
        pubs = [(i, e[1][3][0]) for i, e in enumerate(evs) if e[0] == 'send' and e[1][0] == 'adt' and e[1][2] == 2]
        n += 1
        if k != 'noti' or m not in TD or st.mem.get(JSON) == FALSE:
            R.check(not commits, 'nocommit:%s:%s' % (k, pathname(st)), 'a %s message (%s) changes a stored document' % (k, pathname(st)))
            R.check(not pubs or k == 'noti' and m is not None and m not in TD, 'nopublish:%s:%s' % (k, pathname(st)), 'a %s message (%s) publishes diagnostics' % (k, pathname(st)))
            continue
        key = m
        haspull = st_pull(st, pull)
        others = {t: x for t, x in st.asm.items() if not method_eq(t) and not is_pull_atom(t)}
        if m == 'textDocument/didClose':
            R.check(not commits, key + ':commit', 'closing a document changes a stored text')
            good = len(pubs) == 1 and is_pub(pubs[0][1]) and payload(pubs[0][1])[3][:2] == (uri(m), ('vec', ())) if pubs and is_pub(pubs[0][1]) and payload(pubs[0][1]) else False
            if haspull is not False and not pubs: good = True
            R.check(good, key + ':clear', 'closing a document does not publish an empty list of diagnostics for it: %r' % (pubs,))
            continue
        if m == 'textDocument/didChange':
            try:
                sizes = [i for i in range(4) if possible(st, cc, i)]
                if not sizes: continue
                if sizes == [0] and not (vague and commits):
                    R.check(not commits, key + ':commit', 'a change notification without changes stores a text'); continue
                lasts = len(commits) == 1 and all(last_text(F, strip(commits[0][2][1]), cc, i) for i in sizes)
            except Stuck:
                R.undec(key + ':text', 'cannot tell which change is stored: %r' % ([c[2][1] for c in commits],)); continue
        if len(commits) != 1 and m == 'textDocument/didChange' and vague:
            R.undec(key + ':commit', 'the changes are walked one by one'); continue
        if len(commits) != 1:
            R.bad(key + ':commit', '%s stores the document %d times on the path where %s' % (m, len(commits), show(others) or 'nothing special holds')); continue
        cu, ct = strip(commits[0][2][0]), strip(commits[0][2][1])
        R.check(cu == uri(m), key + ':uri', '%s stores the text under %r' % (m, cu), 'uri of the notification')
        if m == 'textDocument/didOpen': R.check(ct == opent, key + ':text', 'didOpen stores %r' % (ct,), 'text of the notification')
        else: R.check(lasts, key + ':text', 'didChange does not store the latest full text: %r' % (ct,), 'text of the last change')
        ci = evs.index(commits[0])
        mine = [p for p in pubs if is_pub(p[1])]
        if haspull is True: R.check(not mine, key + ':publish', 'diagnostics are published to a client that pulls them')
        elif haspull is False:
            if len(mine) != 1: R.bad(key + ':publish', '%s publishes diagnostics %d times to a client that does not pull them (%s)' % (m, len(mine), show(others))); continue
            want = ('t', 'json', ('t', 'svc', 'publish_diagnostics', uri(m)))
            p = mine[0]
            R.check(strip(p[1][3][1]) == want and p[0] > ci, key + ':publish', '%s does not publish the diagnostics of the new text: %r' % (m, p[1][3][1]), 'after the text was stored')
            call = [i for i, e in enumerate(evs) if e[0] == 'svc' and e[1] == 'publish_diagnostics']
            R.check(call and all(i > ci for i in call), key + ':order', 'diagnostics are computed before the new text is stored')
        elif any(is_pull_atom(t) and "'call'" in repr(t) for t in st.asm): R.undec(key + ':publish', 'cannot tell whether the client pulls diagnostics')
        else: R.bad(key + ':publish', 'whether diagnostics are published does not depend on whether the client pulls them (published: %s)' % bool(mine))
    R.count('paths', n); R.floor('paths', n, 60)
    # the service side
    cb = svc.method(F, 'commit')
    evs = []
    def setsrc(I_, st, a, c):
        s = st.copy(); ev(s, ('set', I_.deep(s, a[1]), I_.deep(s, a[2]))); return [(s, UNIT)]
    def uri_(I_, st, a, c): return [(st, ('t', 'interned', I_.deep(st, a[1])))]
    M = {}
    for b in F.bodies.values():
        if b.crate == 'wat_service' and 'FilesCtx' in b.path and b.path.endswith('::set_source'): M[norm(b.path)] = setsrc
        if b.crate == 'wat_service' and 'FilesCtx' in b.path and b.path.endswith('>::uri'): M[norm(b.path)] = uri_
    M['wat_service::files::FilesCtx::set_source'] = setsrc
    M['wat_service::files::FilesCtx::uri'] = uri_
    I2 = Interp(F, M, max_steps=50000)
    st = State(); st.mem[('g', 'self')] = svc.service_self(F)
    for s, v in I2.run(cb, [('ref', ('g', 'self'), ()), ('t', 'uri'), ('t', 'text')], st):
        e = s.mem.get(EV, ())
        R.check(e == (('set', ('t', 'interned', ('t', 'uri')), ('t', 'text')),), 'commit', 'committing a document does not store exactly its text under its URI: %r' % (e,), 'source(uri) := text')
    R.sites.add(cb.path)

def pull_term(F): return None
def is_pull_atom(t): return 'init.raw' in repr(t)
def st_pull(st, _):
    """does the client announce pull diagnostics on this path: capabilities.text_document.diagnostic is present"""
    P = ('t', 'parsed', ('t', 'init.raw'))
    td = ('t', 'fld', ('t', 'fld', P, 4), 1)
    d = ('t', 'fld', ('t', 'fld', ('t', 'as', td, 1), 0), 29)
    a = st.asm.get(('t', 'discr', td)); b_ = st.asm.get(('t', 'discr', d))
    if a in (('i', 0), ('not', (1,))): return False
    if a is None: return None
    if b_ in (('i', 1), ('not', (0,))): return True
    if b_ in (('i', 0), ('not', (1,))): return False
    return None

def is_pub(n): return n[0] == 'adt' and len(n[3]) == 2 and (n[3][0] == ('s', PUB) or (n[3][0][0] == 't' and n[3][0][-1] == ('s', PUB)))
def payload(n):
    p = n[3][1]
    return p[2] if p[0] == 't' and p[1] == 'json' and p[2][0] == 'adt' else None

class Stuck(Exception): pass
SOME = lambda x: ('some', x)
def lists(t, cc, n):
    """the value of a term when the notification carries the changes 0 … n-1: a list, an option, a number, a truth value, or
    ('E', i, rest), something made of change i"""
    def opt(l, i): return SOME(l[i]) if l else None
    def go(t):
        if t == cc: return ['list'] + [('E', i) for i in range(n)]
        k = t[0]
        if k in ('i', 'b'): return t[1]
        if k == 'rv': return go(t[1])
        if k in ('it', 'vec', 'arr'):
            out = ['list']
            for x in t[1]:
                if x[0] in ('spread', 'spreadne'): out += items(go(x[1]))
                elif x[0] in ('star', 'plus', 'compr', 'multi'): raise Stuck
                else: out.append(go(x))
            return out
        if k == 'adt' and t[1].endswith('::Option'): return SOME(go(t[3][0])) if t[2] == 1 else None
        if k != 't' or not mentions(t, cc): return ('free', t)
        op = t[1]
        if op == 'deref' or op in ('clone', 'as_ref', 'str', 'cloned', 'copied'): return go(t[2])
        if op == 'fld' and t[2][0] == 't' and t[2][1] == 'as':
            x = go(t[2][2])
            if isinstance(x, tuple) and x[0] == 'some' and t[2][3] == 1: return x[1]
            raise Stuck
        if op == 'bin':
            x, y = go(t[3]), go(t[4])
            if not (type(x) is type(y) is int): return made(('bin', t[2]), x, y)
            f = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Add': x + y, 'Sub': x - y}
            if t[2] not in f or t[2] == 'Sub' and x < y: raise Stuck
            return f[t[2]]
        if op == 'not':
            x = go(t[2])
            return not x if isinstance(x, bool) else made(('not',), x)
        args = [go(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:]]
        x = args[0]
        if isinstance(x, list):
            l = items(x)
            if op in ('last', 'pop', 'next_back', 'lastopt'): return opt(l, -1)
            if op in ('first', 'next'): return opt(l, 0)
            if op == 'rev': return ['list'] + l[::-1]
            if op in ('len', 'count'): return len(l)
            if op in ('isempty', 'is_empty'): return not l
            if op in ('idx', 'get', 'at', 'remove', 'swap_remove', 'nth') and len(args) > 1 and isinstance(args[1], int):
                i = args[1]
                if op in ('get', 'nth'): return SOME(l[i]) if i < len(l) else None
                if i < len(l): return l[i]
            raise Stuck
        if op == 'discr' and (x is None or isinstance(x, tuple) and x[0] == 'some'): return int(x is not None)
        if op == 'is_some' and (x is None or x[0] == 'some'): return x is not None
        return made((op,), *args)
    def items(x):
        if x is None: return []
        if isinstance(x, tuple) and x[0] == 'some': return [x[1]]
        if not isinstance(x, list): raise Stuck
        return x[1:]
    def made(how, *xs):
        """something made of at most one change"""
        if any(isinstance(x, list) or x is None or isinstance(x, tuple) and x and x[0] == 'some' for x in xs): raise Stuck
        e = {x[1] for x in xs if isinstance(x, tuple) and x[0] == 'E'}
        if not e: raise Stuck
        return ('E', min(e), how + xs)
    return go(t)
def generic(res, cc, method_of):
    """does some path for a change notification speak of a change without saying which: then a path says nothing about how many
    changes there are"""
    def has(t):
        if not isinstance(t, tuple): return False
        if len(t) > 2 and t[0] == 't' and t[1] == 'elem' and mentions(t[2], cc): return True
        if t and t[0] in ('star', 'plus', 'spreadne', 'compr', 'multi') and mentions(t, cc): return True
        return any(has(y) for y in t if isinstance(y, tuple))
    return any(method_of(st) == 'textDocument/didChange' and (has(tuple(st.asm)) or has(tuple(e for e in st.mem.get(EV, ()) if e[0] == 'svc'))) for st, _ in res)
def mentions(t, x): return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))
def possible(st, cc, n):
    """can this path be taken with n changes"""
    for t, x in st.asm.items():
        t = strip(t)
        if not mentions(t, cc): continue
        v = lists(t, cc, n)
        if isinstance(v, tuple): continue        # depends on what is in a change
        if v is None or isinstance(v, list): raise Stuck
        want = x[1] if x[0] in ('i', 'b') else x
        if x[0] == 'not':
            if v in x[1]: return False
        elif bool(v) != want if x[0] == 'b' else v != want: return False
    return True
def last_text(F, t, cc, n):
    f = F.adts['lsp_types::TextDocumentContentChangeEvent']['v'][0]['f'].index('text')
    return lists(t, cc, n) == ('E', n - 1, ('fld', ('E', n - 1), f))
def show(a): return ', '.join('%s = %s' % (k[1:], v[1]) for k, v in a.items())[:300]
