"""Every request is answered exactly once, under its own id."""
from srv import *

def responses(st): return [e[1][3][0] for e in st.mem.get(EV, ()) if e[0] == 'send' and e[1][0] == 'adt' and e[1][2] == 1]

def method_of(st):
    for t, x in st.asm.items():
        m = method_eq(t)
        if m and x == TRUE: return m
    return None

def pathname(st):
    m = method_of(st) or 'any other method'
    j = st.mem.get(JSON)
    return '%s%s' % (m, '' if j is None else ', valid params' if j == TRUE else ', invalid params')

def check(F, R):
    R.rule('abstract interpretation of the server from start-up through one arbitrary message: on every path a request produces exactly one response, carrying the id of the request and exactly one of result and error; '
           'the loop then goes on to the next message; notifications and responses produce no response; only shutdown ends the loop')
    R.assumptions += ['sending on the connection and serialising results succeed', 'lsp_server answers shutdown itself (Connection::handle_shutdown)', 'a handler that panics is out of scope here (see the crash property)']
    I, res, names = run_server(F)
    for p in I.analysed: R.sites.add(p)
    n = 0
    meths = set()
    for st, v in res:
        k = st.mem.get(KIND)
        if k is None:
            R.bad('start', 'the server can return without serving: %r' % (v,)); continue
        n += 1
        rs = responses(st)
        key = '%s:%s' % (k, pathname(st))
        shut = any(e[0] == 'shutdown' for e in st.mem.get(EV, ()))
        cont = st.mem.get(IT_) == 2
        if k != 'req':
            R.check(not rs, key + ':none', 'a %s message makes the server send a response' % k)
            R.check(cont, key + ':goes-on', 'the server stops after a %s message (%s)' % (k, pathname(st)))
            continue
        meths.add(method_of(st))
        if shut:
            R.check(not rs, key + ':once', 'shutdown is answered twice'); continue
        R.check(cont, key + ':goes-on', 'the server stops serving after a request (%s)' % pathname(st))
        if len(rs) != 1:
            R.bad(key + ':once', 'a request (%s) gets %d responses' % (pathname(st), len(rs))); continue
        r = rs[0]
        if r[0] != 'adt' or len(r[3]) != 3: R.undec(key + ':once', 'response of unknown shape %r' % (r,)); continue
        R.check(r[3][0] == ('t', 'id'), key + ':id', 'the response to %s carries the id %r, not the one of the request' % (pathname(st), r[3][0]))
        def some_(x): return {True: 1, False: 0}.get(x[2] == 1) if x[0] == 'adt' else None
        a, b_ = some_(r[3][1]), some_(r[3][2])
        if a is None or b_ is None: R.undec(key + ':shape', 'result %r error %r' % (r[3][1], r[3][2]))
        else: R.check(a + b_ == 1, key + ':shape', 'the response to %s has %s' % (pathname(st), 'both result and error' if a else 'neither result nor error'))
        if st.mem.get(JSON) == FALSE: R.check(b_ == 1, key + ':error', 'invalid parameters of %s are not answered with an error' % method_of(st))
        if method_of(st) is None: R.check(b_ == 1, key + ':error', 'an unknown request is not answered with an error')
    R.count('paths', n); R.count('request methods', len(meths))
    R.floor('paths', n, 60); R.floor('request methods', len(meths), 15)
