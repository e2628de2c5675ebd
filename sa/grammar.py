"""Interpretation of the winnow parsers of wat_parser (text accounting, nullability, grammar).

The input is a cell ('IN',) holding the sequence of chunks consumed so far in the current scope:
  ('L', s)            exactly the text s
  ('A', id)           a chunk consumed by one parser occurrence (id -> self.atoms[id] describes it)
  ('plus', seq)       one or more repetitions
  ('junk',)           an unknown amount of text (position after a failed parser)
Text-carrying values: ('t','txt',seq) strings, ('t','tok',kind,seq) green tokens, ('t','node',kind,items) green nodes,
('t','G',atom) an element produced elsewhere, and ('spread', ('t','G*',atom)) a list of such elements.
"""
import time
from absint import *
import absint

IN = ('IN',)
ERR = ('ERRS',)
DEBUG = False
INP = 'winnow::stream::Recoverable'

def seq_norm(items):
    out = ()
    for x in items: out = in_push(out, x)
    return out

def in_push(items, x):
    if x[0] == 'E': return items if items and items[-1] == x else items + (x,)
    if x[0] == 'L':
        if x[1] == '': return items
        if items and items[-1][0] == 'L': return items[:-1] + (('L', items[-1][1] + x[1]),)
        return items + (x,)
    items = items + (x,)
    n = len(items)
    if x[0] == 'plus' and n >= 2 and items[-2] == x: return items[:-1]
    for w in range(1, 8):
        g = items[n - w:]
        if len(g) < w: break
        if not any(y[0] in ('A', 'plus') for y in g): continue
        if n >= w + 1 and items[n - w - 1][0] == 'plus' and items[n - w - 1][1] == g: return items[:n - w]
        if n >= 2 * w and items[n - 2 * w:n - w] == g: return items[:n - 2 * w] + (('plus', g),)
    return items

def kind_of(F, v):
    """SyntaxKind variant index from a rowan kind value"""
    while v[0] in ('adt', 'tup', 'rv') and v[0] != 'i':
        if v[0] == 'adt' and v[1].endswith('wat_syntax::kind::SyntaxKind') or v[0] == 'adt' and v[1].endswith('SyntaxKind') and not v[3]: return v[2]
        f = v[3] if v[0] == 'adt' else (v[1] if v[0] == 'tup' else (v[1],))
        if len(f) != 1: return None
        v = f[0]
    return v[1] if v[0] == 'i' else None

class Grammar:
    def __init__(self, F):
        self.F = F
        self.atoms = {}       # id -> dict(kind=..., label=..., null=bool)
        self.ids = {}
        self.sites = []
        self.siteids = {}
        self.I = Interp(F, MODELS, max_steps=3000000)
        self.I.G = self
        self.I.on_join = self.on_join
        self.nt = {}          # body key -> summary
        self.order = []
        self.lost = []        # (where, what)
        self.calls0 = {}      # nt key -> set of nt keys called with nothing consumed
        self.items_null = []
        self.alts = {}        # atom id -> list of (value, seq, err flag) for repeat items
        self.cuts = []
        self.cur = None
        self.panics = []
        self.first = None
        self.roots = set()
        self.rejected = set(); self.repeats = set(); self.stuck = {}
        K = F.adts.get('wat_syntax::kind::SyntaxKind')
        self.kinds = [v['n'] for v in K['v']]
        self.kn = {v['n']: i for i, v in enumerate(K['v'])}

    # -------------------------------------------------- atoms
    def atom(self, path, **d):
        key = (tuple(self.I.sitestack), path, d.get('label'))
        i = self.ids.get(key)
        if i is None:
            i = len(self.ids); self.ids[key] = i
        self.atoms[i] = d
        return ('A', i)

    def nullable(self, seq):
        for x in seq:
            if x[0] == 'L': return False
            if x[0] == 'A' and not self.atoms[x[1]].get('null'): return False
            if x[0] == 'plus' and not self.nullable(x[1]): return False
        return True

    # -------------------------------------------------- flatten
    def flat(self, st, v, d=0):
        """text sequence carried by a value; None if it carries none"""
        if d > 60: return None
        k = v[0]
        if k in ('ref', 'rv'): return self.flat(st, self.I.deref(st, v), d + 1)
        if k == 't':
            if v[1] == 'txt':
                a = st.asm
                for s in self.I.str_assumed(st, v): return (('L', s),)
                return v[2]
            if v[1] == 'tok': return v[3]
            if v[1] == 'node': return self.flat_items(st, v[3], d + 1)
            if v[1] in ('G', 'G*', 'optG'): return self.norm_in(st, (v[2],))
            return None
        if k == 's': return (('L', v[1]),)
        if k == 'adt' and v[1].endswith('NodeOrToken'): return self.flat(st, v[3][0], d + 1)
        if k == 'adt' and v[1] == OPT: return () if v[2] == 0 else self.flat(st, v[3][0], d + 1)
        if k in ('vec', 'arr', 'tup', 'it'): return self.flat_items(st, v[1], d + 1)
        if k == 'adt': return self.flat_items(st, v[3], d + 1)
        return None

    def flat_items(self, st, items, d=0):
        out = ()
        for x in items:
            if x[0] in ('plus', 'star'):
                f = self.flat_items(st, x[1], d + 1)
                if f is None: return None
                if f: out = out + ((x[0], seq_norm(f)),)
            elif x[0] in ('spread', 'spreadne'):
                f = self.flat(st, x[1], d + 1)
                if f is None: return None
                out = out + f
            else:
                f = self.flat(st, x, d + 1)
                if f is None: return None
                out = out + f
        return seq_norm(out)

    def norm_in(self, st, seq, eof=False):
        out = ()
        for x in seq:
            if x[0] == 'E' and not eof: continue
            if x[0] == 'A':
                s = list(self.I.str_assumed(st, ('t', 'txt', (x,))))
                if s: x = ('L', s[0])
                elif st.asm.get(('t', 'discr', ('t', 'optG', x))) == ('i', 0): continue
            out = in_push(out, x)
        return out

    def show(self, seq):
        r = []
        for x in seq or ():
            if x[0] == 'L': r.append(repr(x[1]))
            elif x[0] == 'A': r.append(self.atoms[x[1]].get('label', '?'))
            elif x[0] in ('plus', 'star'): r.append('(%s)%s' % (self.show(x[1]), '+' if x[0] == 'plus' else '*'))
            else: r.append('<skipped>')
        return ' '.join(r)

    # -------------------------------------------------- nonterminals
    def is_nt(self, body):
        if body.n != 1 or body.crate != 'wat_parser': return None
        t = body.tys[body.locals[1]]
        if t['k'] != 'ref' or not t['m']: return None
        if not self.F.ty(body.tys, t['t']).startswith(INP): return None
        r = body.tys[body.locals[0]]
        if r['k'] != 'adt' or r['p'] != RES: return None
        return self.F.ty(body.tys, r['a'][0])

    def out_kind(self, t):
        if t.startswith('rowan::utility_types::NodeOrToken<rowan::green::node::GreenNode') or t.startswith('rowan::') and 'NodeOrToken<' in t.split(',')[0]: return 'el'
        if t.startswith('rowan::') and t.endswith('GreenNode'): return 'el'
        if t.startswith('alloc::vec::Vec<rowan::') and 'NodeOrToken' in t: return 'vec'
        if t.startswith(OPT + '<alloc::vec::Vec<rowan::') and 'NodeOrToken' in t: return 'optvec'
        if t == '&str': return 'str'
        return None

    def call_nt(self, I, st, body, path):
        t = self.is_nt(body)
        ok_ = self.out_kind(t)
        if ok_ is None: return None
        if self.nullable(st.mem[IN][1]) and st.mem.get(('OUTER',), TRUE) == TRUE:
            self.calls0.setdefault(self.cur, set()).add(body.key)
        summ = self.nt.get(body.key, {})
        label = body.path.split('::')[-1]
        a = self.atom(path, label=label, nt=body.key, kind=ok_, null=summ.get('null', False))
        outs = []
        if summ.get('ok', True):
            s = st.copy()
            self.consume(s, a)
            if ok_ == 'el': v = ('t', 'G', a)
            elif ok_ == 'vec': v = ('vec', (('spread', ('t', 'G*', a)),))
            elif ok_ == 'optvec': v = some(('vec', (('spread', ('t', 'G*', a)),)))
            else: v = ('rv', ('t', 'txt', (a,)))
            outs.append((s, 'ok', v))
        if ok_ == 'optvec':
            s = st.copy()
            if summ.get('noneerr', False): s.mem[ERR] = TRUE
            outs.append((s, 'ok', NONE))
        if summ.get('err', True): outs.append(self.fail(st))
        if summ.get('errjunk', False): outs.append(self.fail(st, False))
        return outs

    def consume(self, st, *xs):
        cur = st.mem[IN][1]
        for x in xs: cur = in_push(cur, x)
        st.mem[IN] = ('seq', cur)

    def fail(self, st, clean=True):
        """a failed parser: clean = the position is unchanged"""
        s = st.copy()
        cur = s.mem[IN][1]
        if not clean and not (cur and cur[-1] == ('junk',)): s.mem[IN] = ('seq', cur + (('junk',),))
        return (s, 'err', None)

    def fails(self, st, errs):
        """summarise failed outcomes relative to the entry state: at most one with the position unchanged, one elsewhere"""
        out = []
        ins = {s.mem[IN] for s, k, v in errs}
        if st.mem[IN] in ins: out.append(self.fail(st))
        if any(i != st.mem[IN] for i in ins): out.append(self.fail(st, False))
        return out

    def scoped(self, st, f):
        """run f from an empty input scope; results get the chunk sequence consumed inside"""
        saved = st.mem[IN]; outer = st.mem.get(('OUTER',))
        s = st.copy(); s.mem[IN] = ('seq', ())
        s.mem[('OUTER',)] = TRUE if (outer is None or outer == TRUE) and self.nullable(saved[1]) else FALSE
        out = []
        for s2, k, v in f(s):
            d = s2.mem[IN][1]
            s2 = s2.copy(); s2.mem[IN] = saved
            if outer is None: s2.mem.pop(('OUTER',), None)
            else: s2.mem[('OUTER',)] = outer
            out.append((s2, k, v, d))
        return out

    # -------------------------------------------------- parsers
    def parse(self, st, p, path):
        I = self.I
        I.steps += 1
        k = p[0]
        if k in ('ref', 'rv'):
            w = I.deref(st, p)
            if w[0] == 'clo' and k == 'ref':
                return self.from_results(I, I.call_closure(st, p, [('ref', IN, ())], None))
            return self.parse(st, w, path)
        if k in ('ch', 's', 'i'):
            text = p[1] if k == 's' else chr(p[1])
            s = st.copy(); self.consume(s, ('L', text))
            okr = (s, 'ok', ('rv', p) if k == 's' else ('ch', p[1]))
            if self.at_first(st) and text:
                if ord(text[0]) != self.first: return [self.fail(st)]
                if len(text) == 1: return [okr]
            return [okr, self.fail(st)]
        if k == 'tup': return self.p_tup(st, p, path)
        if k == 'clo':
            return self.from_results(I, I.call_closure(st, p, [('ref', IN, ())], None))
        if k == 'fn':
            c = p[1]
            prim = PRIM.get(c.p)
            if prim: return prim(self, st, path)
            bd = self.F.bodies.get(c.sym) if c.sym else None
            if bd is not None and self.at_first(st) and all(b_.key != bd.key for b_ in I.stack):
                return self.from_results(I, I.run(bd, [('ref', IN, ())], st))
            if bd is not None and self.is_nt(bd):
                r = self.call_nt(I, st, bd, path)
                if r is not None: return r
                if any(b_.key == bd.key for b_ in I.stack): raise Incomplete('recursive parser with unsummarised output ' + bd.path)
            if bd is not None:
                return self.from_results(I, I.run(bd, [('ref', IN, ())], st))
            return self.unknown(st, c.p, path)
        if k == 'wp':
            return getattr(self, 'p_' + p[1])(st, p, path)
        if k == 'adt' and p[1].startswith('winnow'):
            return self.unknown(st, p[1], path)
        return self.unknown(st, str(p)[:60], path)

    def p_tup(self, st, p, path):
        """sequence: outcomes on which a syntax error was recorded are merged component by component
        (only when every component carries exactly the text it consumed, or carries none)"""
        states = [(st.copy(), ())]
        errs = []
        base = st.mem[IN][1]
        for i, q in enumerate(p[1]):
            nx = []
            for s, vs in states:
                for s2, kk, v, d in self.memo(s, q, path + (i,)):
                    d = self.norm_in(s2, d, True)
                    pre = tuple(x for _, dd in vs for x in dd)
                    if pre:
                        s2 = s2.copy()
                        for t in [t for t in s2.asm if t[:2] == ('t', 'nostart') and t not in s.asm]:
                            s2.asm[('t', 'nostart', seq_norm(pre + t[2]), t[3])] = s2.asm.pop(t)
                    if kk == 'ok':
                        s2 = s2.copy(); self.consume(s2, *d); nx.append((s2, vs + ((v, d),)))
                    else:
                        s2 = s2.copy(); self.consume(s2, *d); errs.append((s2, 'err', None))
            if len(nx) > 1:
                keep, bad = [], []
                for x in nx: (bad if x[0].mem.get(ERR) == TRUE else keep).append(x)
                if len(bad) > 1:
                    m = self.merge_states(st, base, bad, path + ('mg', i))
                    nx = keep + (m if m is not None else bad)
            states = nx
        return self.fails(st, errs) + [(s, 'ok', ('tup', tuple(v for v, d in vs))) for s, vs in states]

    def memo(self, st, q, path):
        """scoped parse, remembered when the parser depends on nothing of the state"""
        if not closed(q): return self.scoped(st, lambda z: self.parse(z, q, path))
        zero = self.nullable(st.mem[IN][1]) and st.mem.get(('OUTER',), TRUE) == TRUE
        key = (tuple(self.I.sitestack), path, q, st.mem.get(ERR), zero, len(self.I.stack))
        r = self.cache.get(key)
        if r is None:
            z = State(); z.mem = dict(st.mem); z.hc = st.hc
            r = []
            for s, k, v, d in self.scoped(z, lambda y: self.parse(y, q, path)):
                if any(c not in (IN, ERR, ('OUTER',)) and s.mem.get(c) != w for c, w in st.mem.items()): r = False; break
                r.append((dict(s.asm), s.mem.get(ERR), k, v, d))
            self.cache[key] = r
        if r is False: return self.scoped(st, lambda z: self.parse(z, q, path))
        out = []
        for asm, er, k, v, d in r:
            s = st.copy(); s.asm.update(asm); s.mem[ERR] = er
            out.append((s, k, v, d))
        return out

    def merge_states(self, st, base, group, path):
        s0 = group[0][0]
        for s, _ in group:
            for c, v in st.mem.items():
                if c not in (IN, ERR) and s.mem.get(c) != v:
                    if DEBUG: print('NOMERGE mem', c, v, s.mem.get(c))
                    return None
        comps = []
        for j in range(len(group[0][1])):
            col = [(s, vs[j][0], vs[j][1]) for s, vs in group]
            r = self.merge_col(st, col, path + (j,))
            if r is None: return None
            comps.append(r)
        s = st.copy(); s.mem[ERR] = TRUE
        for v, d in comps: self.consume(s, *d)
        return [(s, tuple(comps))]

    def merge_col(self, st, col, path):
        v0, d0 = col[0][1], col[0][2]
        if all(v == v0 and d == d0 for _, v, d in col):
            f = self.flat(st, v0)
            if f is None and d0 == () or f is not None and seq_norm(f) == d0: return (v0, d0)
        if all(v[0] == 'tup' and len(v[1]) == len(v0[1]) for _, v, d in col):
            for j in range(len(v0[1])):
                c2 = [(s, v[1][j], d) for s, v, d in col]
                if all(f is not None and seq_norm(f) == self.norm_in(s, d) for (s, v, d), f in ((x, self.flat(x[0], x[1])) for x in c2)):
                    r = self.merge_col(st, c2, path + ('t', j))
                    if r is None: return None
                    vs = []
                    for i in range(len(v0[1])):
                        if i == j: vs.append(r[0])
                        elif all(v[1][i] == v0[1][i] for _, v, _ in col): vs.append(v0[1][i])
                        else: vs.append(('t', 'unk', path, i))
                    return (('tup', tuple(vs)), r[1])
        shapes = set()
        for s, v, d in col:
            f = self.flat(s, v); dn = self.norm_in(s, d)
            if f is None or seq_norm(f) != dn:
                if DEBUG: print('NOMERGE', v, self.show(f), '|', self.show(dn))
                if f is None or ('junk',) not in dn: return None
                self.lost.append((self.cur, 'recovered text', self.show(dn), self.show(f)))
            if v[0] == 'vec': shapes.add('vec')
            elif v[0] == 'adt' and v[1] == OPT and (v[2] == 0 or v[3][0][0] == 'vec'): shapes.add('opt')
            elif v[0] == 't' and v[1] == 'optG': shapes.add('opt')
            elif v[0] == 't' or v[0] == 'adt' and v[1].endswith('NodeOrToken'): shapes.add('el')
            else: return None
        if len(shapes) != 1: return None
        sh = shapes.pop()
        a = self.atom(path, label='recovered', null=any(self.nullable(self.norm_in(s, d)) for s, _, d in col), kind=sh, err=True)
        if sh == 'vec': return (('vec', (('spread', ('t', 'G*', a)),)), (a,))
        if sh == 'opt': return (('t', 'optG', a), (a,))
        return (('t', 'G', a), (a,))

    def on_join(self, st, body, fr, bi):
        """a loop that runs a parser must have consumed something when it comes back to the same point"""
        if body.crate != 'wat_parser': return
        v = st.mem.get(IN)
        if v is None: return
        c = (fr, 'loop', bi)
        old = st.mem.get(c)
        if old is not None and old[2] and not self.progress(old[1], v[1]):
            self.stuck[short_path(body.path)] = 'a loop in %s (%s) runs a parser again without having consumed anything' % (short_path(body.path), body.file)
        st.mem[c] = ('loop', v[1], False)

    def progress(self, a, b):
        if a == b: return any(x[0] == 'plus' for x in b)   # a folded repetition has absorbed the new chunk
        if b[:len(a)] == a: return not self.nullable(b[len(a):])
        return True

    def merged(self, st, q, path):
        st = st.copy()
        for c in [c for c in st.mem if len(c) == 3 and c[1] == 'loop']: st.mem[c] = ('loop', st.mem[c][1], True)
        return self.merged_(st, q, path)

    def merged_(self, st, q, path):
        """parse; several outcomes that are tokens of one kind, each carrying exactly its text, become one"""
        rs = self.scoped(st, lambda s: self.parse(s, q, path))
        if self.cur in self.roots and any(k == 'err' and not d for s, k, v, d in rs) and self.accepts(st, q, path) == []:
            rs = [(s, k, v, d + (('E',),) if k == 'err' and not d else d) for s, k, v, d in rs]
        toks = [r for r in rs if r[1] == 'ok' and r[2][0] == 'adt' and r[2][1].endswith('NodeOrToken') and r[2][3][0][:2] == ('t', 'tok')]
        groups = {}
        if len(toks) > 1:
            for r in toks: groups.setdefault((r[2][3][0][2], r[0].mem.get(ERR)), []).append(r)
        out = []
        for r in rs:
            if not any(r is x for g in groups.values() for x in g if len(g) > 1):
                s = r[0].copy(); self.consume(s, *r[3]); out.append((s, r[1], r[2]))
        for (kd, er), g in groups.items():
            if len(g) < 2: continue
            for s, k, v, d in g:
                f = self.flat(s, v); dn = self.norm_in(s, d)
                if f is None or seq_norm(f) != dn: self.lost.append((self.cur, 'token', self.show(dn), self.show(f)))
            a = self.atom(path + ('merged', kd), label=self.kinds[kd] if kd is not None else 'token', null=any(self.nullable(self.norm_in(s, d)) for s, _, _, d in g))
            s = st.copy(); s.mem[ERR] = er; self.consume(s, a)
            out.append((s, 'ok', ('adt', g[0][2][1], g[0][2][2], (('t', 'tok', kd, (a,)),))))
        return out

    def unknown(self, st, what, path):
        raise Incomplete('unmodelled parser ' + what)

    def from_results(self, I, rs):
        out = []
        for s, v in rs:
            for s2, kk, pl in fork_res(I, s, v):
                out.append((s2, 'ok', pl) if kk == 0 else (s2, 'err', None))
        return out

    def at_first(self, st):
        return self.first is not None and st.mem[IN][1] == () and st.mem.get(('OUTER',), TRUE) == TRUE

    def accepts(self, st, q, path):
        """the characters (representatives) on which q is not sure to succeed on non-empty input"""
        if not closed(q) or self.first is not None: return None
        key = ('acc', tuple(self.I.sitestack), path, q)
        if key in self.cache: return self.cache[key]
        bad = []
        sl, sn, sc = len(self.lost), len(self.items_null), self.cache
        s0 = State(); s0.mem = dict(st.mem); s0.mem[IN] = ('seq', ()); s0.mem.pop(('OUTER',), None); s0.hc = st.hc
        for c in REPR:
            self.first = c; self.cache = {}
            try: ok_ = all(k == 'ok' for s, k, v in self.parse(s0.copy(), q, path + ('acc',)))
            except Incomplete: ok_ = False
            finally: self.first = None; self.cache = sc
            if not ok_:
                bad.append(c); self.rejected.add(c); break
        del self.lost[sl:]; del self.items_null[sn:]
        self.cache[key] = bad
        return bad

    def chunk(self, st, path, label, null, mkval):
        a = self.atom(path, label=label, null=null)
        s = st.copy(); self.consume(s, a)
        return [(s, 'ok', mkval(a)), self.fail(st)]

    def contains(self, st, cs, ch):
        """winnow ContainsToken on a concrete character; None when unknown"""
        I = self.I
        cs = I.deref(st, cs)
        if cs[0] in ('ch', 'i'): return cs[1] == ch
        if cs[0] == 's': return chr(ch) in cs[1]
        if cs[0] in ('arr', 'tup', 'vec'):
            r = [self.contains(st, x, ch) for x in cs[1]]
            return True if True in r else None if None in r else False
        if cs[0] == 'adt':
            n = cs[1].split('::')[-1]; f = [x[1] for x in cs[3] if x[0] in ('ch', 'i')]
            if n == 'RangeInclusive': return f[0] <= ch <= f[1]
            if n == 'Range': return f[0] <= ch < f[1]
            if n == 'RangeFrom': return f[0] <= ch
            if n == 'RangeFull': return True
            return None
        if cs[0] in ('clo', 'fn'):
            rs = {self.I.simplify_bool(s, v) for s, v in callf(I, st.copy(), cs, [('ch', ch)])}
            if rs == {TRUE}: return True
            if rs == {FALSE}: return False
        return None

    def p_text(self, st, p, path):
        # ('wp','text',label,null)
        return self.chunk(st, path, p[2], p[3], lambda a: ('rv', ('t', 'txt', (a,))))
    def p_char(self, st, p, path):
        if self.at_first(st):
            t = True if p[2] == 'any' else self.contains(st, p[3], self.first) if len(p) > 3 else None
            if t is not None and p[2] == 'none_of': t = not t
            if t is False: return [self.fail(st)]
            s = st.copy(); self.consume(s, ('L', chr(self.first)))
            return [(s, 'ok', ('ch', self.first))] + ([] if t else [self.fail(st)])
        return self.chunk(st, path, p[2], False, lambda a: ('t', 'char', a))

    def p_map(self, st, p, path):
        out = []
        for s, k, v in self.parse(st, p[2], path + ('m',)):
            if k != 'ok': out.append((s, k, v)); continue
            for s2, v2 in callf(self.I, s, p[3], [v]): out.append((s2, 'ok', v2))
        return out
    def p_verify(self, st, p, path):
        out = []
        for s, k, v in self.parse(st, p[2], path + ('v',)):
            if k != 'ok': out.append((s, k, v)); continue
            for s2, v2 in callf(self.I, s, p[3], [v if v[0] in ('ref', 'rv') else ('rv', v)]):
                for s3, t in fork_bool(self.I, s2, v2):
                    if not t: s3.mem[IN] = st.mem[IN]
                    out.append((s3, 'ok', v) if t else self.fail(s3))
        return out
    def p_verify_map(self, st, p, path):
        out = []
        for s, k, v in self.parse(st, p[2], path + ('v',)):
            if k != 'ok': out.append((s, k, v)); continue
            for s2, v2 in callf(self.I, s, p[3], [v]):
                for s3, t in fork_opt(self.I, s2, v2):
                    if t is None: s3 = s3.copy(); s3.mem[IN] = st.mem[IN]
                    out.append((s3, 'ok', t) if t is not None else self.fail(s3))
        return out
    def p_pass(self, st, p, path): return self.parse(st, p[2], path + ('p',))
    def p_void(self, st, p, path): return [(s, k, UNIT if k == 'ok' else v) for s, k, v in self.parse(st, p[2], path + ('p',))]
    def p_value(self, st, p, path): return [(s, k, p[3] if k == 'ok' else v) for s, k, v in self.parse(st, p[2], path + ('p',))]
    def p_take(self, st, p, path):
        rs = self.scoped(st, lambda s: self.parse(s, p[2], path + ('t',)))
        oks = {}
        for s, k, v, d in rs:
            if k == 'ok': oks.setdefault(self.norm_in(s, d), s)
        out = []
        if len(oks) == 1:
            (d, s), = oks.items()
            if any(x == ('junk',) for x in d): d = (self.atom(path, label='text', null=True),)
            s = s.copy(); self.consume(s, *d)
            out.append((s, 'ok', ('rv', ('t', 'txt', d))))
        elif oks:
            nl = any(self.nullable(d) for d in oks)
            a = self.atom(path, label='text', null=nl)
            s = st.copy(); self.consume(s, a)
            out.append((s, 'ok', ('rv', ('t', 'txt', (a,)))))
        for cl in {d == () for _, k, _, d in rs if k == 'err'}: out.append(self.fail(st, cl))
        return out
    def p_opt(self, st, p, path):
        out = []
        failed = False
        for s, k, v in self.parse(st, p[2], path + ('o',)):
            if k == 'ok': out.append((s, 'ok', some(v)))
            else: failed = True
        if failed:
            s = st.copy()
            q = self.I.deref(s, p[2])
            if q[0] == 's': s.asm[('t', 'nostart', s.mem[IN][1], q[1])] = TRUE
            out.append((s, 'ok', NONE))
        return out
    def p_alt(self, st, p, path):
        out = []
        errs = []
        for i, q in enumerate(p[2]):
            errs = []
            for s, k, v in self.parse(st.copy(), q, path + ('a', i)):
                if k == 'ok': out.append((s, k, v))
                else: errs.append((s, k, v))
            if not errs: break
        return out + self.fails(st, errs)
    def p_peek(self, st, p, path):
        out = []
        for s, k, v in self.parse(st.copy(), p[2], path + ('k',)):
            if k == 'ok':
                s = s.copy(); s.mem[IN] = st.mem[IN]; s.mem[ERR] = st.mem.get(ERR, FALSE)
                out.append((s, 'ok', v))
            else: out += self.fails(st, [(s, k, v)])
        oks = [r for r in out if r[1] == 'ok']
        if len(oks) > 1 and all(v[0] == 'tup' for s, k, v in oks):
            # what a sequence looked ahead at is only inspected as a whole
            out = [r for r in out if r[1] != 'ok'] + [(st.copy(), 'ok', ('t', 'peeked', path))]
        return dedup(out)
    def p_not(self, st, p, path):
        out = []
        for s, k, v in self.parse(st.copy(), p[2], path + ('n',)):
            if k == 'ok': out.append(self.fail(st))
            else: out.append((st.copy(), 'ok', UNIT))
        return dedup(out)
    def p_cond(self, st, p, path):
        out = []
        for s, t in fork_bool(self.I, st, p[2]):
            if t: out += [(s2, k, some(v) if k == 'ok' else v) for s2, k, v in self.parse(s, p[3], path + ('c',))]
            else: out.append((s, 'ok', NONE))
        return out
    def p_seqsel(self, st, p, path):
        # preceded / terminated / delimited: parsers and the index kept
        return [(s, k, v[1][p[3]] if k == 'ok' else v) for s, k, v in self.parse(st, ('tup', p[2]), path + ('q',))]
    def p_sepp(self, st, p, path):
        return [(s, k, ('tup', (v[1][0], v[1][2])) if k == 'ok' else v) for s, k, v in self.parse(st, ('tup', p[2]), path + ('q',))]

    # ---- repetition
    def items(self, st, q, path):
        """summary of one iteration: list of alternatives (value, seq, errflag), or None when no outcome is ok"""
        rs = self.memo(st, q, path)
        alts = []
        for s, k, v, d in rs:
            if k != 'ok': continue
            d = self.norm_in(s, d)
            alts.append((s, v, d))
        return alts

    def unreachable_null(self, s, d, till):
        """an empty iteration is impossible: the text at this point starts with the terminator, which is tried first"""
        if till is None or till[0] != 's' or len(d) != 1 or d[0][0] != 'A': return False
        u = self.atoms[d[0][1]].get('until')
        if not u: return False
        ex = {t[3] for t in s.asm if t[:2] == ('t', 'nostart') and t[2] == d}
        return set(u) - ex <= {till[1]}

    def rep_elem(self, st, q, path, where, till=None):
        """abstract element of a repetition: list of (element value, chunk)"""
        self.repeats.add((self.F.bodies[self.cur].path, path))
        alts = self.items(st, q, path)
        if not alts: return []
        nul = [d for s, v, d in alts if self.nullable(d) and not self.unreachable_null(s, d, till)]
        if nul: self.items_null.append((self.cur, where, self.show(nul[0])))
        fl = [self.flat(s, v) for s, v, d in alts]
        carries = all(f is not None for f in fl)
        if carries and all(v[0] in ('vec', 't', 'adt') or v[0] == 'rv' for s, v, d in alts):
            good = True
            for (s, v, d), f in zip(alts, fl):
                if seq_norm(f) != d:
                    good = False
                    self.lost.append((self.cur, 'repeated item', self.show(d), self.show(f)))
            isvec = all(v[0] == 'vec' for s, v, d in alts)
            iselem = not isvec and all(v[0] in ('t', 'adt') and not (v[0] == 'adt' and v[1] in (OPT,)) for s, v, d in alts)
            if isvec or iselem:
                a = self.atom(path, label='item', null=False, kind='vec' if isvec else 'el', alt=True)
                self.alts[a[1]] = [(self.I.deep(s, v), d, s.mem.get(ERR, FALSE) == TRUE) for s, v, d in alts]
                return [(('vec', (('spread', ('t', 'G*', a)),)) if isvec else ('t', 'G', a), (a,), st)]
        out = []
        seen = set()
        for s, v, d in alts:
            v = self.I.deep_rv(s, v)
            if (v, d) in seen: continue
            seen.add((v, d)); out.append((v, d, s))
        return out

    def p_repeat(self, st, p, path):
        # ('wp','repeat',q,min,max,elemty)
        q, lo, hi = p[2], p[3], p[4]
        out = []
        els = self.rep_elem(st, q, path + ('r',), 'repeat')
        s0 = st.copy()
        total = self.cur in self.roots and hi is None and self.accepts(st, q, path + ('r',)) == []
        if total: self.consume(s0, ('E',))
        if lo == 0: out.append((s0, 'ok', self.coll(p, ())))
        for v, d, s in els:
            s2 = st.copy()
            g = (v,)
            if hi == 1: self.consume(s2, *d); out.append((s2, 'ok', self.coll(p, g)))
            else:
                self.consume(s2, ('plus', d))
                if total: self.consume(s2, ('E',))
                out.append((s2, 'ok', self.coll(p, (('plus', g),))))
        if lo > 0: out += [self.fail(st), self.fail(st, False)]
        return out
    def coll(self, p, items):
        return UNIT if p[5] == '()' else (('i', len(items)) if p[5] == 'usize' and not items else ('t', 'count') if p[5] == 'usize' else ('vec', items))

    def p_repeat_till(self, st, p, path):
        q, till, lo = p[2], p[3], p[4]
        out = []
        els = self.rep_elem(st, q, path + ('r',), 'repeat_till', self.I.deref(st, till))
        starts = []
        if lo == 0: starts.append((st.copy(), ()))
        for v, d, s in els:
            s2 = st.copy(); self.consume(s2, ('plus', d)); starts.append((s2, (('plus', (v,)),)))
        failed = False
        for s, items in starts:
            for s2, k, v in self.parse(s, till, path + ('u',)):
                if k == 'ok': out.append((s2, 'ok', ('tup', (UNIT if p[5] == '()' else ('vec', items), v))))
                else: failed = True
        out += [self.fail(st), self.fail(st, False)]
        return out

    def p_fold(self, st, p, path):
        # ('wp','fold',repeat,init,g): inductive check of the accumulator
        rep, init, g = p[2], p[3], p[4]
        I = self.I
        out = []
        els = self.rep_elem(st, rep[2], path + ('r',), 'repeat')
        for s, acc0 in callf(I, st.copy(), init, []):
            f0 = self.flat(s, acc0)
            if rep[3] == 0: out.append((s.copy(), 'ok', acc0))
            if f0 is None or acc0[0] != 'vec':
                raise Incomplete('fold over an accumulator that carries no text')
            acca = self.atom(path + ('acc',), label='acc', null=True)
            bad = seq_norm(f0) != ()
            for v, d, sx in els:
                s2 = s.copy(); s2.mem[IN] = ('seq', ())
                for s3, acc in callf(I, s2, g, [('vec', (('spread', ('t', 'G*', acca)),)), v]):
                    f = self.flat(s3, acc)
                    want = seq_norm((acca,) + d)
                    if f is None or seq_norm(f) != want:
                        bad = True
                        self.lost.append((self.cur, 'fold step', self.show(want), self.show(f)))
            a = self.atom(path + ('fold',), label='folded', null=False, kind='vec', alt=True)
            self.alts[a[1]] = []
            s2 = s.copy(); self.consume(s2, a)
            if els: out.append((s2, 'ok', ('vec', (('spread', ('t', 'G*', a)),))))
        if rep[3] > 0: out += [self.fail(st), self.fail(st, False)]
        return out

    # -------------------------------------------------- driver
    def run_nt(self, body):
        self.cur = body.key
        st = State(); st.mem[IN] = ('seq', ()); st.mem[ERR] = FALSE
        I = self.I
        I.steps = 0; I.sitestack = []
        self.cache = {}
        I.deadline = time.time() + 40
        res = []
        for s, v in I.run(body, [('ref', IN, ())], st):
            for s2, k, pl in fork_res(I, s, v):
                res.append((s2, 'ok' if k == 0 else 'err', I.deep(s2, pl)))
        return res

    def solve(self):
        """nullability / failure summaries by fixpoint, then a final pass"""
        nts = [b_ for b_ in self.F.bodies.values() if '#p' not in b_.key and self.is_nt(b_) and '{closure' not in b_.path]
        self.nts = sorted(nts, key=lambda b_: b_.path)
        self.incomplete = {}
        for b_ in self.nts: self.nt[b_.key] = {'null': False, 'ok': True, 'err': True, 'errjunk': False, 'noneerr': True}
        for rnd in range(6):
            ch = False
            self.lost = []; self.items_null = []; self.calls0 = {}; self.results = {}
            for b_ in self.nts:
                try: rs = self.run_nt(b_)
                except Incomplete as e:
                    self.incomplete[b_.key] = str(e); continue
                self.results[b_.key] = rs
                opt = self.out_kind(self.is_nt(b_)) == 'optvec'
                n = {'null': any(k == 'ok' and v != NONE and self.nullable(self.norm_in(s, s.mem[IN][1])) for s, k, v in rs),
                     'ok': any(k == 'ok' for s, k, v in rs), 'err': any(k == 'err' and s.mem[IN][1] == () for s, k, v in rs), 'errjunk': any(k == 'err' and s.mem[IN][1] != () for s, k, v in rs),
                     'noneerr': all(s.mem[ERR] == TRUE for s, k, v in rs if k == 'ok' and v == NONE)}
                if n != self.nt[b_.key]: self.nt[b_.key] = n; ch = True
            if not ch: break
        self.rounds = rnd + 1
        return self

def short_path(p): return p.replace('wat_parser::parser::', '')

def closed(q):
    if not isinstance(q, tuple): return True
    if q and q[0] in ('ref', 't', 'u'): return False
    return all(closed(x) for x in q)

def dedup(rs):
    out = []; seen = set()
    for s, k, v in rs:
        key = (s.freeze(), k, v)
        if key not in seen: seen.add(key); out.append((s, k, v))
    return out

# ---------------------------------------------------------------- primitives
REPR = [41, 40, 12, 34, 36, 59, 0x85, 0xa0] + [c for c in range(0, 256) if c not in (41, 40, 12, 34, 36, 59, 0x85, 0xa0)] + [0x2028, 0x3000, 0xfeff, 0x4e2d, 0x1f600]
ASCII1 = {'multispace': ' \t\r\n', 'space': ' \t', 'digit': '0123456789', 'hex_digit': '0123456789abcdefABCDEF', 'oct_digit': '01234567'}
def _first1(n):
    def f(G, st, path):
        r = _text(n + '1', False)(G, st, path)
        if G.at_first(st) and n in ASCII1: return r[:1] if chr(G.first) in ASCII1[n] else r[1:]
        return r
    return f
def _eof(G, st, path):
    s = st.copy(); G.consume(s, ('E',))
    if G.at_first(st): return [G.fail(st)]
    return [(s, 'ok', ('rv', ('s', ''))), G.fail(st)]
def _rest(G, st, path):
    r = _text('rest', True)(G, st, path)[0]
    G.consume(r[0], ('E',))
    return [r]
def _text(label, null): return lambda G, st, path: G.p_text(st, ('wp', 'text', label, null), path)
PRIM = {
    'winnow::token::any': lambda G, st, path: G.p_char(st, ('wp', 'char', 'any'), path),
    'winnow::combinator::core::empty': lambda G, st, path: [(st.copy(), 'ok', UNIT)],
    'winnow::combinator::core::fail': lambda G, st, path: [G.fail(st)],
    'winnow::combinator::core::eof': lambda G, st, path: _eof(G, st, path),
    'winnow::token::rest': lambda G, st, path: _rest(G, st, path),
}
for n in ('multispace', 'space', 'digit', 'hex_digit', 'alpha', 'alphanumeric', 'oct_digit'):
    PRIM['winnow::ascii::%s0' % n] = (lambda n: lambda G, st, path: [_text(n + '0', True)(G, st, path)[0]])(n)
    PRIM['winnow::ascii::%s1' % n] = _first1(n)
PRIM['winnow::ascii::till_line_ending'] = lambda G, st, path: _text('till_line_ending', True)(G, st, path) + [G.fail(st, False)]
PRIM['winnow::ascii::line_ending'] = _text('line_ending', False)
PRIM['winnow::ascii::newline'] = lambda G, st, path: G.parse(st, ('ch', 10), path)

MODELS = {}
def wm(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
P = 'winnow::parser::Parser::'

@wm(P + 'parse_next', 'winnow::parser::Parser::parse_next')
def _(I, st, a, c):
    G = I.G
    out = []
    inp = I.deref(st, a[1])
    if inp[0] != 'seq': raise Incomplete('parse_next on an unknown input')
    return [(s, ok(v)) if k == 'ok' else (s, err(('adt', 'winnow::error::ErrMode', 1, (('t', 'serr'),)))) for s, k, v in G.merged(st, a[0], ())]
@wm(P + 'map')
def _(I, st, a, c): return ret(st, ('wp', 'map', a[0], a[1]))
@wm(P + 'verify')
def _(I, st, a, c): return ret(st, ('wp', 'verify', a[0], a[1]))
@wm(P + 'verify_map')
def _(I, st, a, c): return ret(st, ('wp', 'verify_map', a[0], a[1]))
@wm(P + 'context', P + 'by_ref', 'winnow::combinator::parser::Context::new')
def _(I, st, a, c): return ret(st, ('wp', 'pass', a[0]))
@wm('winnow::combinator::debug::trace')
def _(I, st, a, c): return ret(st, ('wp', 'pass', a[1]))
@wm(P + 'void')
def _(I, st, a, c): return ret(st, ('wp', 'void', a[0]))
@wm(P + 'value', P + 'default_value')
def _(I, st, a, c): return ret(st, ('wp', 'value', a[0], a[1]))
@wm(P + 'take', P + 'recognize')
def _(I, st, a, c): return ret(st, ('wp', 'take', a[0]))
@wm('winnow::combinator::core::opt')
def _(I, st, a, c): return ret(st, ('wp', 'opt', a[0]))
@wm('winnow::combinator::branch::alt')
def _(I, st, a, c):
    t = a[0]
    if t[0] not in ('tup', 'arr'): raise Incomplete('alt of unknown tuple')
    return ret(st, ('wp', 'alt', t[1]))
@wm('winnow::combinator::core::peek')
def _(I, st, a, c): return ret(st, ('wp', 'peek', a[0]))
@wm('winnow::combinator::core::not')
def _(I, st, a, c): return ret(st, ('wp', 'not', a[0]))
@wm('winnow::combinator::core::cond')
def _(I, st, a, c): return ret(st, ('wp', 'cond', a[0], a[1]))
@wm('winnow::combinator::sequence::preceded')
def _(I, st, a, c): return ret(st, ('wp', 'seqsel', (a[0], a[1]), 1))
@wm('winnow::combinator::sequence::terminated')
def _(I, st, a, c): return ret(st, ('wp', 'seqsel', (a[0], a[1]), 0))
@wm('winnow::combinator::sequence::delimited')
def _(I, st, a, c): return ret(st, ('wp', 'seqsel', (a[0], a[1], a[2]), 1))
@wm('winnow::combinator::sequence::separated_pair')
def _(I, st, a, c): return ret(st, ('wp', 'sepp', (a[0], a[1], a[2])))

def rng(v):
    """(min, max|None) of a winnow Range argument"""
    if v[0] == 'i': return v[1], v[1]
    if v[0] == 'adt':
        n = v[1].split('::')[-1]
        f = [x[1] for x in v[3] if x[0] == 'i']
        if n == 'RangeFrom': return f[0], None
        if n == 'RangeFull': return 0, None
        if n == 'Range': return f[0], f[1] - 1
        if n == 'RangeInclusive': return f[0], f[1]
        if n == 'RangeTo': return 0, f[0] - 1
        if n == 'RangeToInclusive': return 0, f[0]
    raise Incomplete('unknown range')

@wm('winnow::combinator::multi::repeat')
def _(I, st, a, c):
    lo, hi = rng(I.deep(st, a[0]))
    coll = [I.F.ty(c.tys, x) for x in c.c['ta']]
    cty = '()' if '()' in coll[2:3] else ('usize' if 'usize' in coll[2:3] else 'vec')
    return ret(st, ('wp', 'repeat', a[1], lo, hi, cty))
@wm('winnow::combinator::multi::repeat_till')
def _(I, st, a, c):
    lo, hi = rng(I.deep(st, a[0]))
    coll = [I.F.ty(c.tys, x) for x in c.c['ta']]
    return ret(st, ('wp', 'repeat_till', a[1], a[2], lo, '()' if '()' in coll[2:3] else 'vec'))
@wm('winnow::combinator::multi::Repeat::fold')
def _(I, st, a, c): return ret(st, ('wp', 'fold', a[0], a[1], a[2]))
@wm('winnow::token::take_while', 'winnow::token::take_till')
def _(I, st, a, c):
    lo, hi = rng(I.deep(st, a[0]))
    return ret(st, ('wp', 'cls', c.p.split('::')[-1], lo, a[1]))
@wm('winnow::token::one_of', 'winnow::token::none_of')
def _(I, st, a, c): return ret(st, ('wp', 'cls', c.p.split('::')[-1], 1, a[0]))
@wm('winnow::token::take_until')
def _(I, st, a, c):
    lo, hi = rng(I.deep(st, a[0]))
    u = I.deep_rv(st, a[1])
    lits = tuple(I.deref(st, x)[1] for x in (u[1] if u[0] in ('tup', 'arr') else (u,)) if I.deref(st, x)[0] == 's')
    return ret(st, ('wp', 'until', lo == 0, lits))
@wm('winnow::token::literal', 'winnow::token::tag')
def _(I, st, a, c): return ret(st, I.deref(st, a[0]))
@wm('winnow::token::take')
def _(I, st, a, c): return ret(st, ('wp', 'text', 'take', True))
@wm('winnow::ascii::take_escaped')
def _(I, st, a, c): return ret(st, ('wp', 'escaped', a[0], a[1], a[2]))
def p_cls(self, st, p, path):
    if p[2] in ('one_of', 'none_of'): return self.p_char(st, ('wp', 'char', p[2], p[4]), path)
    r = self.p_text(st, ('wp', 'text', p[2], p[3] == 0), path)
    if p[3] == 1 and self.at_first(st):
        t = self.contains(st, p[4], self.first)
        if t is not None and p[2] == 'take_till': t = not t
        if t is True: return r[:1]
        if t is False: return r[1:]
    return r[:1] if p[3] == 0 else r
Grammar.p_cls = p_cls
def p_until(self, st, p, path):
    r = self.p_text(st, ('wp', 'text', 'take_until', p[2]), path)
    for x in r[0][0].mem[IN][1]:
        if x[0] == 'A' and self.atoms[x[1]].get('label') == 'take_until': self.atoms[x[1]]['until'] = p[3]
    return r
Grammar.p_until = p_until
def p_escaped(self, st, p, path): return self.p_text(st, ('wp', 'text', 'take_escaped', True), path) + [self.fail(st, False)]
Grammar.p_escaped = p_escaped

@wm('winnow::stream::Stream::checkpoint')
def _(I, st, a, c):
    v = I.deref(st, a[0])
    if v[0] != 'seq': raise Incomplete('checkpoint of an unknown input')
    return ret(st, ('t', 'cp', v))
@wm('winnow::stream::Stream::reset')
def _(I, st, a, c):
    cp = I.deref(st, a[1])
    if cp[0] != 't' or cp[1] != 'cp': raise Incomplete('reset to an unknown checkpoint')
    st = st.copy(); st.mem[IN] = cp[2]
    return ret(st, UNIT)
@wm('winnow::stream::Stream::eof_offset')
def _(I, st, a, c): return ret(st, ('t', 'eof', I.deref(st, a[0])))
@wm('winnow::stream::Location::location')
def _(I, st, a, c): return ret(st, ('t', 'loc', I.deref(st, a[0])))
@wm('winnow::stream::Recover::record_err')
def _(I, st, a, c):
    s1 = st.copy(); s1.mem[ERR] = TRUE
    return [(s1, ok(UNIT)), (st.copy(), err(a[3]))]
@wm('winnow::error::ErrMode::map', 'winnow::error::FromRecoverableError::from_recoverable_error')
def _(I, st, a, c): return ret(st, I.deref(st, a[0]) if c.p.endswith('map') else ('t', 'serr'))

@wm('rowan::green::token::GreenToken::new')
def _(I, st, a, c):
    f = I.G.flat(st, a[1])
    k = kind_of(I.F, I.deep(st, a[0]))
    return ret(st, ('t', 'tok', k, f if f is not None else (('junk',),)))
@wm('rowan::green::node::GreenNode::new')
def _(I, st, a, c):
    k = kind_of(I.F, I.deep(st, a[0]))
    out = []
    for s, its in drain(I, st, owned_iter(I, st, a[1])):
        out.append((s, ('t', 'node', k, its)))
    return out

def str_assumed(self, st, v):
    """string constants the text v is assumed to equal on this path"""
    for k, x in st.asm.items():
        if x == TRUE and k[0] == 't' and k[1] == 'bin' and k[2] == 'Eq':
            if k[3] == v and k[4][0] == 's': yield k[4][1]
            elif k[4] == v and k[3][0] == 's': yield k[3][1]
Interp.str_assumed = str_assumed
