"""Loading of the MIR facts written by driver/ (see DESIGN.md, "Facts")."""
import json, os, glob, re

class Body:
    __slots__ = ('key', 'path', 'crate', 'file', 'lo', 'hi', 'exp', 'gen', 'selfty', 'trait', 'method', 'parent',
                 'derived', 'n', 'locals', 'blocks', 'prom', 'tys', 'preds', 'joins', 'ta')

class Facts:
    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.fns = []
        self.crates = []
        for f in sorted(glob.glob(os.path.join(d, '*.json'))):
            j = json.load(open(f))
            tys = j['tys']
            self.crates.append(os.path.basename(f)[:-5])
            for p, a in j['adts'].items():
                if p not in self.adts:
                    self.adts[p] = a
            for fn in j['fns']:
                fn['crate'] = os.path.basename(f).split('.')[0]
                self.fns.append(fn)
            for k, b in j['bodies'].items():
                if k in self.bodies and self.bodies[k].crate != b['cr']:
                    continue
                self.bodies[k] = self._body(k, b, b['b'], tys, [self._body(k + '#p%d' % i, b, p, tys, []) for i, p in enumerate(b['prom'])])
        self.by_path = {}
        for b in self.bodies.values():
            self.by_path.setdefault(b.path, []).append(b)

    def _body(self, k, b, bb, tys, prom):
        o = Body()
        o.key, o.path, o.crate, o.file, o.lo, o.hi, o.exp, o.gen = k, b['p'], b['cr'], b['file'], b['lo'], b['hi'], b['exp'], b['gen']
        o.selfty, o.trait, o.method, o.parent = b.get('self'), b.get('tr'), b.get('m'), b.get('parent')
        o.derived = bool(b.get('derived'))
        o.n, o.locals, o.blocks, o.prom, o.tys, o.ta = bb['n'], bb['l'], bb['bb'], prom, tys, b['ta']
        preds = [0] * len(o.blocks)
        for x in o.blocks:
            for t in succs(x['t']):
                preds[t] += 1
        o.preds = preds
        o.joins = {i for i, n in enumerate(preds) if n > 1}
        return o

    def fn(self, path):
        """the unique non-generic body with that def path"""
        l = self.by_path.get(path, [])
        return l[0] if l else None

    def find(self, rx):
        r = re.compile(rx)
        return [b for b in self.bodies.values() if r.search(b.path)]

    # ---- types
    def ty(self, tys, i, dep=0):
        t = tys[i]
        k = t['k']
        if dep > 6: return '..'
        if k == 'adt': return t['p'] + ('<' + ','.join(self.ty(tys, a, dep + 1) for a in t['a']) + '>' if t['a'] else '')
        if k == 'closure': return 'closure:' + t['p']
        if k == 'fndef': return 'fn:' + t['c']['p']
        if k == 'ref': return '&' + ('mut ' if t['m'] else '') + self.ty(tys, t['t'], dep + 1)
        if k == 'ptr': return '*' + self.ty(tys, t['t'], dep + 1)
        if k == 'tuple': return '(' + ','.join(self.ty(tys, a, dep + 1) for a in t['a']) + ')'
        if k in ('array', 'slice'): return '[' + self.ty(tys, t['t'], dep + 1) + ']'
        return t['s']

    def variant(self, adt, name):
        a = self.adts.get(adt)
        if not a: return None
        for i, v in enumerate(a['v']):
            if v['n'] == name: return i
        return None

    def calls(self, body):
        """(callee-dict or None, args, dest, line, block index) for each call in non-cleanup blocks"""
        for i, b in enumerate(body.blocks):
            if b['c']: continue
            t = b['t']
            if t[0] == 'call':
                f = t[1]
                c = None
                if f[0] == 'c' and f[1]['k'] == 'fn':
                    c = body.tys[f[1]['t']]['c']
                yield c, t[2], t[3], t[5], i, f

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'sw': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[3]]
    return []
