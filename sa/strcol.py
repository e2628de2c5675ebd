"""A string parameter as a column: it takes the given values, and operations on it are evaluated."""
from ev import *

ATOM = ('t', 'STRING')
IDCHARS = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&'*+-./:<=>?@\\^_`|~")
ASCII_PUNCT = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')

def pat(v):
    if v[0] == 'ch': return chr(v[1])
    if v[0] == 's': return v[1]
    if v[0] in ('arr', 'vec') and all(x[0] == 'ch' for x in v[1]): return tuple(chr(x[1]) for x in v[1])
    raise Stuck('pattern')

def install(E, values):
    def o_string(E, g): return ('s', E.ch.choose('string', values))
    def o_call(E, g):
        a = g[3:]
        while a and isinstance(a[0], tuple) and a[0][0] == 't' and a[0][1] == 'deref': a = (a[0][2],) + a[1:]
        if not a or not isinstance(a[0], tuple) or a[0][0] != 's': return None
        s = a[0][1]; f = g[2].rsplit('::', 1)[-1]
        if f == 'strip_prefix':
            p = pat(a[1]); return some(('s', s[1 if isinstance(p, tuple) else len(p):])) if s.startswith(p) else NONE
        if f == 'strip_suffix':
            p = pat(a[1]); return some(('s', s[:len(s) - (1 if isinstance(p, tuple) else len(p))])) if s.endswith(p) else NONE
        if f == 'starts_with': return b(s.startswith(pat(a[1])))
        if f == 'ends_with': return b(s.endswith(pat(a[1])))
        if f in ('as_str', 'to_string', 'to_owned', 'clone', 'deref', 'as_ref', 'borrow', 'into', 'from'): return ('s', s)
        if f == 'len': return ('i', len(s.encode()))
        if f == 'is_empty': return b(not s)
        if f == 'chars': return ('vec', tuple(('i', ord(c)) for c in s))
        if f == 'bytes': return ('vec', tuple(('i', c) for c in s.encode()))
        if f == 'char_indices': return ('vec', tuple(('tup', (('i', len(s[:i].encode())), ('i', ord(c)))) for i, c in enumerate(s)))
        if f == 'trim': return ('s', s.strip())
        if f == 'trim_start': return ('s', s.lstrip())
        if f == 'trim_end': return ('s', s.rstrip())
        if f in ('matches', 'contains', 'find', 'rfind', 'split', 'replace', 'split_once') and len(a) > 1 and pat(a[1]):
            p = pat(a[1])
            if isinstance(p, tuple) or not all(isinstance(x, tuple) and x[0] in ('s', 'ch', 't') for x in a[1:]): raise Stuck('string pattern')
            if f == 'matches': return ('vec', (('s', p),) * s.count(p))
            if f == 'contains': return b(p in s)
            if f in ('find', 'rfind'):
                i = s.find(p) if f == 'find' else s.rfind(p)
                return NONE if i < 0 else some(('i', len(s[:i].encode())))
            if f == 'split': return ('vec', tuple(('s', x) for x in s.split(p)))
            if f == 'split_once': return some(('tup', tuple(('s', x) for x in s.split(p, 1)))) if p in s else NONE
        if f in ('index', 'get') and len(a) > 1 and a[1][0] == 'adt' and '::range::Range' in a[1][1] and all(x[0] == 'i' for x in a[1][3]):
            n = a[1][1].rsplit('::', 1)[-1]; B = s.encode(); v = [x[1] for x in a[1][3]]
            lo, hi = {'Range': lambda: v, 'RangeFrom': lambda: (v[0], len(B)), 'RangeTo': lambda: (0, v[0]), 'RangeFull': lambda: (0, len(B))}.get(n, lambda: (None, None))()
            if lo is None: raise Stuck('string range')
            good = 0 <= lo <= hi <= len(B)
            if good:
                try: r = ('s', B[lo:hi].decode())
                except UnicodeDecodeError: good = False
            if not good and f == 'index': raise Stuck('slice outside of the text')
            return r if f == 'index' else some(r) if good else NONE
        if f == 'lines': return ('vec', tuple(('s', x[:-1] if x.endswith('\r') else x) for x in (s[:-1] if s.endswith('\n') else s).split('\n'))) if s else ('vec', ())
        if f == 'parse' and not s.startswith('-') and not (s.isdigit() and int(s) > 127):
            # a number type (which one does not matter for these texts)
            t = s[1:] if s.startswith('+') else s
            if t.isdigit() and t.isascii(): return ('adt', 'core::result::Result', 0, (('i', int(t)),))
            return ('adt', 'core::result::Result', 1, (('t', 'parseerror'),))
        raise Stuck('string operation ' + f)
    def o_charp(E, g):
        if g[3][0] not in ('ch', 'i'): return None
        c = chr(g[3][1]); asc = ord(c) < 128
        f = {'is_ascii_alphanumeric': asc and c.isalnum(), 'is_ascii_punctuation': c in ASCII_PUNCT, 'is_ascii_alphabetic': asc and c.isalpha(), 'is_ascii_digit': asc and c.isdigit(),
             'is_ascii': asc, 'is_ascii_graphic': asc and 32 < ord(c) < 127, 'is_ascii_lowercase': asc and c.islower(), 'is_ascii_uppercase': asc and c.isupper(),
             'is_ascii_hexdigit': c in '0123456789abcdefABCDEF', 'is_ascii_whitespace': c in ' \t\n\r\x0c', 'is_whitespace': c.isspace(), 'is_alphanumeric': c.isalnum(), 'is_alphabetic': c.isalpha()}
        if g[2] not in f: raise Stuck('character class ' + g[2])
        return b(f[g[2]])
    def wrap(op, h):
        old = E.ophook.get(op)
        def f(E, g):
            r = h(E, g)
            return r if r is not None or old is None else old(E, g)
        E.ophook[op] = f
    def o_empty(E, g): return b(not g[2][1]) if g[2][0] == 's' else None
    def o_len(E, g): return ('i', len(g[2][1].encode())) if g[2][0] == 's' else None
    wrap('STRING', o_string); wrap('call', o_call); wrap('charp', o_charp); wrap('is_empty', o_empty); wrap('len', o_len)
    def o_str(E, g):
        v = g[2]
        while v[0] == 'rv' or v[0] == 'adt' and v[1] == 'alloc::borrow::Cow': v = v[1] if v[0] == 'rv' else v[3][0]
        return v if v[0] == 's' else None
    wrap('str', o_str)
