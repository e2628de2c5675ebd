"""One iteration of the server loop, abstractly: which messages lead to which service calls and replies."""
from absint import *

MSG = 'lsp_server::msg::Message'
REQ = 'lsp_server::msg::Request'
RESP = 'lsp_server::msg::Response'
RERR = 'lsp_server::msg::ResponseError'
NOTI = 'lsp_server::msg::Notification'
EXT = 'lsp_server::error::ExtractError'
EV = ('ghost', 'ev'); IT_ = ('ghost', 'iter'); KIND = ('ghost', 'kind'); METH = ('ghost', 'method'); JSON = ('ghost', 'json'); SNAP = ('ghost', 'snap'); SELF = ('ghost', 'self')

def ev(st, e):
    """log an event; the same events over and over (a loop) are logged twice"""
    l = st.mem.get(EV, ()) + (e,)
    for k in range(1, len(l) // 3 + 1):
        if l[-k:] == l[-2 * k:-k] == l[-3 * k:-2 * k]: l = l[:-k]; break
    st.mem[EV] = l

class SrvInterp(Interp):
    def consistent(self, st, v):
        eq = set(); ne = set()
        for t, val in st.asm.items():
            m = method_eq(t)
            if m is not None and val[0] == 'b': (eq if val[1] else ne).add(m)
        return len(eq) <= 1 and not (eq & ne)

def method_eq(t):
    if t[0] == 't' and t[1] == 'bin' and t[2] == 'Eq':
        for x, y in ((t[3], t[4]), (t[4], t[3])):
            if x == ('t', 'method') and y[0] == 's': return y[1]
    return None

def split_method(I, st, m):
    """fork on 'the method of this message is m'"""
    t = I.binop('Eq', ('t', 'method'), m)
    out = []
    for val in (True, False):
        cur = st.asm.get(t)
        if cur is not None and cur != b(val): continue
        s2 = st.copy(); s2.asm[t] = b(val)
        if I.consistent(s2, t): out.append((s2, val))
    return out

def m_extract(kind):
    def f(I, st, a, c):
        m = I.deref(st, a[1])
        if m[0] != 's': raise Incomplete('extract with a method that is not constant: %r' % (m,))
        msg = a[0]
        out = []
        for s2, hit in split_method(I, st, m):
            if not hit: out.append((s2, err(('adt', EXT, 0, (msg,))))); continue
            for ok_ in (True, False):
                s3 = s2.copy(); s3.mem[JSON] = ('b', ok_)
                if s2.mem.get(JSON) not in (None, ('b', ok_)): continue
                if ok_: s3_v = ok(('tup', (('t', 'id'), ('t', 'params', m[1])))) if kind == 'req' else ok(('t', 'params', m[1]))
                else: s3_v = err(('adt', EXT, 1, (('t', 'method'), ('t', 'jsonerror'))))
                out.append((s3, s3_v))
        return out
    return f

def m_send(I, st, a, c):
    s = st.copy()
    ev(s, ('send', I.deep(s, a[1])))
    return [(s, ok(UNIT))]

def m_next_recv(I, st, a, c):
    it = I.deref(st, a[0])
    if not (it[0] == 't' and 'receiver' in repr(it)): return m_next(I, st, a, c)
    n = st.mem.get(IT_, 0)
    s = st.copy(); s.mem[IT_] = n + 1
    if n:
        # what the iteration changed is unknown at the start of an arbitrary iteration
        for c0, v0 in s.mem.get(SNAP, ()):
            v1 = s.mem.get(c0)
            if v1 is not None and v1 != v0: diff(I.unstable, (c0,), v0, v1)
        return [(s, NONE)]
    for path in I.havoc:
        c0, pr = path[0], path[1:]
        if c0 in s.mem: I.write(s, c0, pr, ('t', 'earlier', len(repr(path)), repr(path)))
    s.mem[SNAP] = tuple(sorted(((k, x) for k, x in s.mem.items() if k[0] != 'ghost' or k == SELF), key=repr))
    out = []
    for i, p, v in ((0, 'req', ('adt', REQ, 0, (('t', 'id'), ('t', 'method'), ('t', 'params')))), (1, 'resp', ('t', 'response')), (2, 'noti', ('adt', NOTI, 0, (('t', 'method'), ('t', 'params'))))):
        s2 = s.copy(); s2.mem[KIND] = p
        out.append((s2, some(('adt', MSG, i, (v,)))))
    return out

def diff(out, path, a, b_):
    if a == b_: return
    if a[0] == 'adt' and b_[0] == 'adt' and a[1] == b_[1] and a[2] == b_[2] and len(a[3]) == len(b_[3]):
        for i, (x, y) in enumerate(zip(a[3], b_[3])): diff(out, path + (i,), x, y)
        return
    if a[0] == 'u' or b_[0] == 'u': return
    out.add(path)

def m_into_recv(I, st, a, c):
    if I.deep(st, a[0]) == ('t', 'receiver'): return [(st, ('t', 'receiver'))]
    return m_intoiter(I, st, a, c)

def m_recv(I, st, a, c): return [(s, ok(v[3][0]) if v != NONE else err(('t', 'RecvError'))) for s, v in m_next_recv(I, st, [('rv', ('t', 'receiver'))], c)]

def m_shutdown(I, st, a, c):
    out = []
    for v, n in ((ok(FALSE), None), (ok(TRUE), 'shutdown'), (err(('t', 'ProtocolError')), 'shutdown')):
        for s2, hit in split_method(I, st, ('s', 'shutdown')):
            if hit != bool(n): continue
            if n: ev(s2, ('shutdown',))
            out.append((s2, v))
    return out

def tojson(t): return t if t[0] == 't' and t[1] == 'json' else ('t', 'json', t)
def m_tovalue(I, st, a, c): return [(st, ok(tojson(I.deep(st, a[0]))))]
def m_newok(I, st, a, c): return [(st, ('adt', RESP, 0, (a[0], some(tojson(I.deep(st, a[1]))), NONE)))]
def m_newerr(I, st, a, c): return [(st, ('adt', RESP, 0, (a[0], NONE, some(('adt', RERR, 0, (a[1], a[2], NONE))))))]
def m_newnoti(I, st, a, c): return [(st, ('adt', NOTI, 0, (a[0], tojson(I.deep(st, a[1])))))]
def m_newreq(I, st, a, c): return [(st, ('adt', REQ, 0, (a[0], a[1], tojson(I.deep(st, a[2])))))]

def models():
    M = {}
    M['core::iter::traits::iterator::Iterator::next'] = m_next_recv
    M['crossbeam_channel::channel::Receiver::recv'] = m_recv
    M['core::iter::traits::collect::IntoIterator::into_iter'] = m_into_recv
    M['crossbeam_channel::channel::Receiver::iter'] = lambda I, st, a, c: [(st, ('t', 'receiver'))]
    for p in ('lsp_server::msg::Request::extract', 'lsp_server::Request::extract'): M[p] = m_extract('req')
    for p in ('lsp_server::msg::Notification::extract', 'lsp_server::Notification::extract'): M[p] = m_extract('noti')
    M['crossbeam_channel::channel::Sender::send'] = m_send
    M['lsp_server::Connection::handle_shutdown'] = m_shutdown
    M['serde_json::value::to_value'] = m_tovalue
    M['lsp_server::msg::Response::new_ok'] = m_newok
    M['lsp_server::msg::Response::new_err'] = m_newerr
    M['lsp_server::msg::Notification::new'] = m_newnoti
    M['lsp_server::msg::Request::new'] = m_newreq
    return M

def service_models(F, M):
    """every method of the language service is one recorded, opaque step"""
    names = {}
    def mk(path, ispub):
        def f(I, st, a, c):
            s = st.copy()
            args = tuple(I.deep(s, x) for x in a[1:])
            ev(s, ('svc', path, args))
            return [(s, ('t', 'svc', path) + args)]
        return f
    for b in F.bodies.values():
        if b.crate != 'wat_service' or '{closure' in b.path or '#p' in b.key: continue
        if 'LanguageService' in (b.path if '<impl wat_service::LanguageService>' in b.path or b.path.startswith('wat_service::LanguageService::') else ''):
            n = b.path.rsplit('::', 1)[1]
            M[norm(b.path)] = mk(n, True); names[n] = b
    return names

def server_self(F):
    a = F.adts.get('wat_server::server::Server')
    return ('adt', 'wat_server::server::Server', 0, tuple(('t', 'self', f['n'] if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f) for f in a['v'][0]['f']))

def m_stdio(I, st, a, c): return [(st, ('tup', (('adt', 'lsp_server::Connection', 0, (('t', 'sender'), ('t', 'receiver'))), ('t', 'io_threads'))))]
def m_initstart(I, st, a, c): return [(st, ok(('tup', (('t', 'init.id'), ('t', 'init.raw')))))]
def m_initfinish(I, st, a, c):
    s = st.copy(); ev(s, ('init', I.deep(s, a[1]), I.deep(s, a[2])))
    return [(s, ok(UNIT))]
def m_fromvalue(I, st, a, c):
    v = I.deep(st, a[0])
    while v[0] == 't' and v[1] in ('deref', 'clone'): v = v[2]
    if v == ('t', 'params'):
        # the parameters of the message at hand, read as those of the method it has on this path
        for t, x in st.asm.items():
            m = method_eq(t)
            if m is None or x != TRUE: continue
            out = []
            for good in (True, False):
                if st.mem.get(JSON) not in (None, ('b', good)): continue
                s = st.copy(); s.mem[JSON] = ('b', good)
                out.append((s, ok(('t', 'params', m)) if good else err(('t', 'jsonerror'))))
            return out
    return [(st, ok(('t', 'parsed', I.deep(st, a[0]))))]
def m_join(I, st, a, c): return [(st, ok(UNIT))]

def run_server(F):
    """paths of Server::run with exactly one received message"""
    r = getattr(F, 'srv', None)
    if r is not None: return r
    M = models()
    M['lsp_server::Connection::stdio'] = m_stdio
    M['lsp_server::Connection::initialize_start'] = m_initstart
    M['lsp_server::Connection::initialize_finish'] = m_initfinish
    M['serde_json::value::from_value'] = m_fromvalue
    M['lsp_server::stdio::IoThreads::join'] = m_join
    names = service_models(F, M)
    roots = [b for b in F.bodies.values() if b.crate == 'wat_server' and any(c and norm(c['p']) == 'lsp_server::Connection::stdio' for c, *_ in F.calls(b))]
    if len(roots) != 1: raise Incomplete('no single function opens the connection')
    havoc = set()
    for rnd in range(4):
        I = SrvInterp(F, M, max_steps=400000)
        I.havoc = sorted(havoc, key=repr); I.unstable = set()
        st = State()
        st.mem[SELF] = server_self(F)
        args = [('ref', SELF, ())] if roots[0].n >= 1 else []
        res = I.run(roots[0], args, st)
        if I.unstable <= havoc: break
        havoc |= I.unstable
    F.srv = (I, res, names)
    return F.srv
