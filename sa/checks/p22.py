"""P22: what the service answers is a function of the current texts, not of how they came about."""
import re
from tab import *
import comp, svc

SVC = 'wat_service::LanguageService'
CELLS = re.compile(r'\b(core::cell::(once::OnceCell|lazy::LazyCell|Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell)|std::sync::[\w:]*(Mutex|RwLock|OnceLock|Condvar|ReentrantLock)|core::sync::(atomic::\w+|exclusive::\w+)|std::sync::mpsc\w*|std::thread::local::LocalKey|std::thread::LocalKey)\b')
WORLD = re.compile(r'^(<)?(std::time::|std::env::|std::fs::|std::net::|std::process::|std::thread::|std::io::stdio::stdin|std::hash::random::|std::random::|core::random::)')
CRATES = ('wat_service', 'wat_parser', 'wat_syntax', 'wat_formatter')
# types of other crates whose equality compares everything they hold
STRUCTURAL = ('core::option::Option', 'core::result::Result', 'alloc::', 'core::', 'rowan::', 'text_size::', 'lsp_types::', 'line_index::', 'salsa::intern_id::', 'salsa::InternId', 'fluent_uri::', 'std::collections::hash::', 'rustc_hash::',
              'url::', 'serde_json::')
INTERNED = ('uri', 'lookup_uri', 'ident', 'lookup_ident')

def names(ty): return [x for x in re.findall(r'[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)+', ty)]

def equality(F, adt):
    """fields two equal values of the type may differ in: None if none, else (fields that agree, fields that may differ)"""
    a = F.adts.get(adt)
    l = [b for b in F.bodies.values() if b.selfty == adt and b.trait == 'core::cmp::PartialEq' and b.method == 'eq']
    if a is None or not l: return None
    b = l[0]
    if b.derived: return None
    if a['enum'] or len(a['v']) != 1: raise Stuck('equality of the enum ' + adt)
    I, paths = summarise(F, b, [('t', 'A'), ('t', 'B')], self_=False)
    common = None
    for s, v in paths:
        v = I.deep(s, v)
        if v == ('b', False): continue
        conds = [k for k, x in s.asm.items() if x == ('b', True)] + ([v] if v != ('b', True) else [])
        same = set()
        for c in conds:
            if c[:3] != ('t', 'bin', 'Eq'): continue
            x, y = chain(c[3]), chain(c[4])
            if x and y and x[1] == y[1] and {x[0], y[0]} == {('t', 'A'), ('t', 'B')}: same.add(x[1])
        common = same if common is None else common & same
    return common or set()

def chain(t):
    """(root, field path) of a projection"""
    p = ()
    while True:
        if not isinstance(t, tuple) or t[0] != 't' or len(t) < 3:
            break
        if t[1] == 'deref': t = t[2]
        elif t[1] == 'fld': p = (t[3],) + p; t = t[2]
        else: break
    return (t, p) if isinstance(t, tuple) and t[0] == 't' and len(t) == 2 else None

def layout(F, ty, path=()):
    """named leaves of a type made of workspace structs with written equality or one field: {path: name}"""
    a = F.adts.get(ty)
    if a is None or a['enum'] or not ty.startswith('wat_'): return {path: ''}
    out = {}
    for i, (f, t) in enumerate(zip(a['v'][0]['f'], a['v'][0]['ft'])):
        sub = F.adts.get(t)
        if sub and not sub['enum'] and t.startswith('wat_') and equality_kind(F, t) == 'written':
            for p, n in layout(F, t, path + (i,)).items(): out[p] = n
        elif sub and not sub['enum'] and t.startswith('wat_') and len(sub['v'][0]['f']) > 1:
            for j, g in enumerate(sub['v'][0]['f']): out[path + (i, j)] = f + '.' + g
        else: out[path + (i,)] = f
    return out

def equality_kind(F, adt):
    l = [b for b in F.bodies.values() if b.selfty == adt and b.trait == 'core::cmp::PartialEq' and b.method == 'eq']
    return 'none' if not l else 'derived' if l[0].derived else 'written'

def loose(F, ty, seen=None):
    """workspace types inside ty whose equality is written by hand: {type: agreeing fields}"""
    seen = set() if seen is None else seen; out = {}
    for n in names(ty):
        if n in seen: continue
        seen.add(n)
        if n in F.adts and n.startswith('wat_'):
            c = equality(F, n)
            if c is not None: out[n] = c
            for v in F.adts[n]['v']:
                for t in v.get('ft', []): out.update(loose(F, t, seen))
        elif not n.startswith(STRUCTURAL): raise Stuck('equality of the type ' + n)
    return out

def cells(F, ty, seen=None):
    """interior mutability inside a type"""
    seen = set() if seen is None else seen
    m = CELLS.search(ty)
    if m: return m.group(0)
    for n in names(ty):
        if n in seen: continue
        seen.add(n)
        if n in F.adts and n.startswith('wat_'):
            for v in F.adts[n]['v']:
                for t in v.get('ft', []):
                    c = cells(F, t, seen)
                    if c: return c
    return None

def statics(b, F):
    out = []; seen = set()
    def walk(t):
        if isinstance(t, dict):
            if t.get('k') == 'static': out.append((t['p'], F.ty(b.tys, t['t'])))
            for v in t.values(): walk(v)
        elif isinstance(t, (list, tuple)):
            for v in t: walk(v)
    walk(b.blocks)
    return out

def reads(F, path, args, R):
    """formula of a query body: [terms of each path]"""
    l = [x for x in F.bodies.values() if x.path == path]
    if len(l) != 1: raise Incomplete('no function ' + path)
    def setup(st): st.mem[('g', 'db')] = svc.service_self(F)
    # which queries were called, also where the answer does not show it
    def log(m):
        def f(I, st, a, c):
            out = list(m(I, st, a, c))
            for st2, v in out:
                if v[:2] == ('t', 'q'): st2.mem[('g', 'called')] = st2.mem.get(('g', 'called'), ()) + (v,)
            return out
        return f
    models = {p + n: log(comp.CMODELS[p + n]) for p, ns in comp.QUERIES.items() for n in ns if p + n in comp.CMODELS}
    I, paths = summarise(F, l[0], args, models=models, self_=False, setup=setup)
    R.sites |= I.analysed
    return [list(dict(s.asm)) + [I.deep(s, v)] + list(s.mem.get(('g', 'called'), ())) for s, v in paths]

def subterms(t, f):
    seen = set()
    def walk(t):
        if not isinstance(t, tuple) or id(t) in seen: return
        seen.add(id(t))
        if len(t) > 1 and f(t) is False: return
        for x in t: walk(x)
    walk(t)

def queries(F):
    """{name: (function, argument types, result type)} of the memoised queries"""
    out = {}
    for b in F.bodies.values():
        if b.trait != 'salsa::plumbing::QueryFunction' or b.method != 'execute': continue
        l = [c['p'] for c, *_ in F.calls(b) if c and c['p'].startswith('wat_') and len(F.by_path.get(c['p'], [])) == 1]
        if len(l) != 1: raise Incomplete('the function of ' + b.path)
        f = F.fn(l[0])
        n = b.selfty.rsplit('::', 1)[-1]; n = re.sub(r'(?<!^)(?=[A-Z])', '_', n[:-5] if n.endswith('Query') else n).lower()
        out[n] = (l[0], [F.ty(f.tys, f.locals[i + 1]) for i in range(1, f.n)], F.ty(f.tys, f.locals[0]))
    return out

def known(R, key, what): R.ok(key, what)

def state(F, R):
    a = F.adts.get(SVC)
    if a is None: raise Incomplete('no ' + SVC)
    fs = list(zip(a['v'][0]['f'], a['v'][0]['ft']))
    for i, (f, t) in enumerate(fs):
        if t.startswith('salsa::'): continue
        c = cells(F, t)
        if c: R.bad('state:' + f, '%s keeps %s: %s, which requests can change without changing a text (%s)' % (SVC, f, t, c)); continue
        w = writers(F, i, f)
        bad = [b for b in w if not only(F, b, ('initialize', 'default'))]
        if bad: R.bad('state:' + f, '%s (%s) changes %s of the service, which answers may depend on' % (bad[0].path, bad[0].file, f))
        else: R.ok('state:' + f, {'field': f, 'type': t, 'written by': sorted(b.path for b in w)})
    # stored texts change by commit alone
    for b in F.bodies.values():
        if b.crate not in CRATES or b.exp: continue
        for c, a_, d, l, i, f in F.calls(b):
            if c and re.search(r'::(set_\w+|remove_\w+)$', c['p']) and ('FilesCtx' in c['p'] or 'QueryTableMut' in c['p']) and not only(F, b, ('commit',)):
                R.bad('input:' + b.path, '%s (%s:%s) sets an input of the queries' % (b.path, b.file, l))

def only(F, b, methods, seen=()):
    """the function is one of these operations of the service or a helper of theirs"""
    if b.parent: b = F.fn(b.parent) or b
    if b.method in methods: return True
    cs = {x.key: x for x in F.bodies.values() if x.crate in ('wat_service', 'wat_server') and x.path != b.path for c, *_ in F.calls(x) if c and c['p'] == b.path}
    return bool(cs) and b.path not in seen and all(only(F, x, methods, seen + (b.path,)) for x in cs.values())

def writers(F, i, f):
    """functions that assign to or borrow mutably the i-th field of the service"""
    out = []
    for b in F.bodies.values():
        if b.crate not in ('wat_service', 'wat_server'): continue
        tys = [F.ty(b.tys, t) for t in b.locals]
        def isfield(pl):
            base, proj = pl[0], [x for x in pl[1:] if x != '*']
            return isinstance(base, int) and tys[base].replace('&mut ', '').replace('&', '') == SVC and proj[:1] == [i]
        hit = False
        for x in b.blocks:
            if x['c']: continue
            for s in x['s']:
                if s[0] == '=' and isfield(s[1]): hit = True
                if s[0] == '=' and isinstance(s[2], list) and s[2] and s[2][0] == 'ref' and s[2][2] and isfield(s[2][1]): hit = True
            t = x['t']
            if t[0] == 'call' and isfield(t[3]): hit = True
            if t[0] == 'drop' and isfield(t[1]): hit = True
        if hit: out.append(b)
    return out

def effects(F, R):
    n = 0; st = {}
    for b in F.bodies.values():
        if b.crate not in CRATES: continue
        n += 1
        for p, t in statics(b, F):
            st.setdefault((p, t), b)
        for c, a_, d, l, i, f in F.calls(b):
            if not c: continue
            p = c['p']
            if WORLD.match(p): R.bad('world:%s:%s' % (b.path, p.split('<')[0]), '%s (%s:%s) reads something other than the texts: %s' % (b.path, b.file, l, p))
            if p.startswith('std::thread::local::LocalKey') or 'thread::local' in p and p.endswith('::with'): st.setdefault((p, 'std::thread::local::LocalKey'), b)
    for (p, t), b in sorted(st.items(), key=lambda x: x[0]):
        inner = t
        m = re.match(r'^&std::sync::lazy_lock::LazyLock<(.*),(fn\(\).*|closure.*)>$', t)
        if m: inner = m.group(1)   # filled once by a function without arguments
        c = cells(F, inner)
        if '*mut' in t: c = 'static mut'
        if c and 'OnceLock' in c: R.undec('static:' + p, 'what the static is filled with'); continue
        if c: R.bad('static:' + p, '%s (%s) uses the static %s: %s, which keeps something beyond a request' % (b.path, b.file, p, t[:200]))
        else: R.ok('static:' + p, {'static': p, 'type': t[:200]})
    R.count('functions searched for effects', n)
    R.ok('effects', {'rule': 'no clock, environment, file, thread or random source is read', 'functions': n})

def keys(F, R, Qs):
    for q, (path, args, ret) in sorted(Qs.items()):
        key = 'key:' + q
        try:
            c = [cells(F, t) for t in args + [ret]]
            if any(c): R.bad('value:' + q, '%s memoises values of the type %s, which can change later (%s)' % (path, ret, [x for x in c if x][0])); continue
            ls = [loose(F, t) for t in args]
            if not any(ls): R.ok(key, {'query': path, 'arguments': args, 'rule': 'equality of the arguments compares everything they hold'}); continue
            terms = reads(F, path, [('ref', ('g', 'db'), ())] + [('t', 'ARG', i) for i in range(len(args))], R)
            for i, (t, l) in enumerate(zip(args, ls)):
                if not l: continue
                if not t.startswith('wat_') or equality_kind(F, t) != 'written': raise Stuck('key ' + t)
                agree = equality(F, t); lay = layout(F, t)
                same = {n for p, n in lay.items() if any(p[:len(a)] == a for a in agree)}
                # a symbol's name is the identifier in its node (P09)
                if 'green' in same: same.add('idx.name')
                root = ('t', 'ARG', i); used = {}
                def visit(x):
                    if x == root: raise Stuck('%s uses its whole argument' % path)
                    if x[0] == 't' and x[1:2] == ('q',) and root in x[3:]:
                        for y in x[3:]:
                            if y != root: subterms(y, visit)
                        return False
                    if x[0] == 't' and x[1:2] in (('fld',), ('deref',)):
                        p = (); y = x
                        while isinstance(y, tuple) and y[0] == 't' and y[1] in ('fld', 'deref'):
                            if y[1] == 'fld': p = (y[3],) + p
                            y = y[2]
                        if y == root:
                            hit = [n for lp, n in lay.items() if p[:len(lp)] == lp] or [n for lp, n in lay.items() if lp[:len(p)] == p]
                            for n in hit: used.setdefault(n, short(x))
                            return False
                for l_ in terms:
                    for x in l_: subterms(x, visit)
                over = sorted(set(used) - same)
                if over: R.bad(key, '%s depends on %s of its argument %s, but two of them count as the same when they agree on %s: the answer computed for one is given for the other' % (path, ', '.join(over), t, ', '.join(sorted(same)) or 'nothing'))
                else: R.ok(key, {'query': path, 'reads': sorted(used), 'key compares': sorted(same)})
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:200]))

def cutoff(F, R, Qs):
    """a query that is found equal although it is not must not be all that its users depend on"""
    dull = {}
    for q, (path, args, ret) in Qs.items():
        l = loose(F, ret)
        if l: dull[q] = l
    inputs = {}
    for q, (path, args, ret) in sorted(Qs.items()):
        key = 'cutoff:' + q
        try:
            A = [('t', 'ARG', i) for i in range(len(args))]
            terms = reads(F, path, [('ref', ('g', 'db'), ())] + A, R)
            stale = None; n = 0
            for l in terms:
                qs = set()
                for x in l: subterms(x, lambda x: qs.add(x) if x[0] == 't' and x[1:2] == ('q',) and len(x) > 2 else None)
                for x in qs:
                    if x[2] not in dull: continue
                    n += 1
                    if x[2] not in inputs:
                        s = set()
                        for l2 in reads(F, Qs[x[2]][0], [('ref', ('g', 'db'), ())] + [('t', 'ARG', i) for i in range(len(Qs[x[2]][1]))], R):
                            for y in l2: subterms(y, lambda y: s.add(y) if y[0] == 't' and y[1:2] == ('q',) and y[2] not in INTERNED else None)
                        inputs[x[2]] = s
                    it = {('t', 'ARG', i): y for i, y in enumerate(x[3:])}
                    need = {subst(y, it) for y in inputs[x[2]]}
                    if not need <= qs:
                        fields = hidden(F, dull[x[2]], l, x)
                        if fields: stale = stale or (x[2], fields)
                        else: raise Stuck('what is read of ' + x[2])
            if stale: R.bad(key, '%s depends on %s, whose new value counts as unchanged when only the %s of its parts changed, and on nothing else that changes with the text: an old answer is kept' % (path, stale[0], ', '.join(stale[1])))
            else: R.ok(key, {'query': path, 'uses of values with partial equality': n, 'paths': len(terms)})
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:200]))

def subst(t, m):
    if t in m: return m[t]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t

def hidden(F, l, terms, q):
    """fields equality ignores that the formula reads of elements of the query's value"""
    out = set()
    for ty, agree in l.items():
        fs = F.adts[ty]['v'][0]['f']
        ign = {i for i in range(len(fs)) if (i,) not in agree}
        def visit(x):
            if x[0] == 't' and x[1:2] == ('fld',) and x[3] in ign:
                y = x[2]
                while isinstance(y, tuple) and y[0] == 't' and y[1] == 'deref': y = y[2]
                if isinstance(y, tuple) and y[0] == 't' and (y[1] == 'bv' or y[1] in ('as', 'fld')): out.add(fs[x[3]])
        for t in terms: subterms(t, visit)
    return sorted(out)

def interned(F, R):
    done = 0
    l = [b for b in F.bodies.values() if b.trait == 'salsa::interned::InternKey']
    for ty in sorted({b.selfty for b in l}):
        key = 'intern:' + ty
        try:
            m = {b.method: b for b in l if b.selfty == ty}
            I, paths = summarise(F, m['from_intern_id'], [('t', 'ID')], self_=False)
            if len(paths) != 1: raise Stuck('paths')
            s, v = paths[0]; v = I.deep(s, v)
            def setup(st): st.mem[('g', 'key')] = v
            I2, p2 = summarise(F, m['as_intern_id'], [('ref', ('g', 'key'), ())], self_=False, setup=setup)
            R.sites |= I.analysed | I2.analysed
            got = {I2.deep(s, x) for s, x in p2}
            if got == {('t', 'ID')}: R.ok(key, {'type': ty, 'rule': 'the number of an interned value is given back unchanged'}); done += 1
            elif len(got) == 1 and not unknowns(list(got)[0], set()) - {'ID'}: R.bad(key, '%s: an interned value gets the number %s back for ID' % (ty, short(list(got)[0])))
            else: raise Stuck('numbers ' + str(got)[:100])
        except (Incomplete, Stuck, KeyError, IndexError, TypeError) as e: R.undec(key, '%s: %s' % (type(e).__name__, str(e)[:200]))
    R.floor('interned types', done, 1)

def check(F, R):
    R.rule('No storage outside the tracked inputs survives a request (fields of the service, statics, thread locals, clocks and files, by type and by resolved callee); every memoised query is a function of its key: '
           'what its extracted formula reads of an argument is compared by the equality of that argument; a query that reads a value with partial equality also reads the inputs of that value.')
    R.assumptions += ['salsa re-runs a memoised function exactly when one of the queries it called has changed', 'derived equality compares all fields; equality of types from rowan, lsp-types and line-index compares all they hold']
    Qs = queries(F)
    for f, a in ((state, ()), (effects, ()), (keys, (Qs,)), (cutoff, (Qs,)), (interned, ())):
        try: f(F, R, *a)
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec(f.__name__, '%s: %s' % (type(e).__name__, str(e)[:300]))
    R.count('memoised queries', len(Qs))
    R.floor('memoised queries', len(Qs), 5)
