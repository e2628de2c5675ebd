"""Typed syntax tree: which node kinds each AST type accepts, read off the MIR of `can_cast` / `cast`."""
from comp import *
KIND = 'wat_syntax::kind::SyntaxKind'

def kinds(F):
    """{AST type: set of kind names}"""
    r = getattr(F, '_astkinds', None)
    if r is not None: return r
    r = {}
    for b_ in F.bodies.values():
        if not b_.path.endswith('as rowan::ast::AstNode>::can_cast'): continue
        ty = b_.path.split(' as ')[0].lstrip('<')
        r[ty] = accepts(F, b_)
    F._astkinds = r
    return r

def accepts(F, body):
    I = CInterp(F, max_steps=4000)
    k = ('t', 'kindarg'); d = ('t', 'discr', k); I.tyof[d] = KIND
    out = set()
    names = {v['d']: v['n'] for v in F.adts[KIND]['v']}
    for s, v in I.run(body, [k], State()):
        if set(s.asm) - {d}: raise Incomplete('can_cast depends on more than the kind')
        a = s.asm.get(d)
        ks = set(names) if a is None else {a[1]} if a[0] == 'i' else set(names) - set(a[1])
        if v[0] != 'b':
            if v[0] == 't' and v[1] == 'bin' and v[2] == 'Eq' and d in (v[3], v[4]):
                c = v[4] if v[3] == d else v[3]
                ks &= {c[1]}
            else: raise Incomplete('can_cast of ' + body.path)
        elif not v[1]: continue
        out |= {names[x] for x in ks}
    return out

def variants(F, ty):
    """[(variant index, inner AST type)] of an AST enum, [] for a struct"""
    a = F.adts.get(ty)
    if not a or not a['enum']: return []
    out = []
    for i, v in enumerate(a['v']):
        t = v.get('t') or []
        out.append((i, t[0] if t else None))
    return out

def casts(F, ty):
    """{kind name: value of `cast` on a node N of that kind}, kinds that are refused are absent; read off the MIR of `cast`"""
    m = F.__dict__.setdefault('_astcasts', {})
    if ty in m: return m[ty]
    l = F.by_path.get('<%s as rowan::ast::AstNode>::cast' % ty, [])
    if len(l) != 1: raise Incomplete('no cast to ' + ty)
    I = CInterp(F, max_steps=20000)
    d = ('t', 'discr', ('t', 'kind', ('t', 'N')))
    names = {v['d']: v['n'] for v in F.adts[KIND]['v']}
    out = {}
    for s, v in I.run(l[0], [('t', 'N')], State()):
        if set(s.asm) - {d}: raise Incomplete('cast to %s depends on more than the kind' % ty)
        a = s.asm.get(d); v = I.deep(s, v)
        if v[0] != 'adt': raise Incomplete('cast to ' + ty)
        if v[2] == 0: continue
        for k in (set(names) if a is None else {a[1]} if a[0] == 'i' else set(names) - set(a[1])): out[names[k]] = v[3][0]
    m[ty] = out
    return out
