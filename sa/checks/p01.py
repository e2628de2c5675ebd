"""Lossless parsing: the text of the tree is the text that was parsed."""
from gram import *

def check(F, R):
    import checks.p16; checks.p16.texts(F, R, 'service:')
    R.rule('every parser function of the winnow grammar is interpreted over its MIR: for every outcome the text carried by the produced green tokens/nodes must be, piece by piece and in order, '
           'the text consumed from the input; repetitions and folds by induction on one iteration; the root must reach the end of input for every first character')
    R.rule('the public entry points return exactly the tree of the root parser run on the whole source, and the errors it recorded')
    R.assumptions += ['winnow 0.6 combinators, rowan green trees and std behave as documented (models in sa/grammar.py, sa/absint.py)',
                      'character classes are decided on U+0000..U+00FF and five representatives above']
    G = solved(F)
    R.count('parser functions', len(G.nts))
    for b in G.nts:
        R.sites.add(b.path)
        n = short(b.path)
        if b.key in G.incomplete:
            R.undec('text:' + n, G.incomplete[b.key]); continue
        bad = und = None
        cnt = 0
        for s, k, v in G.results[b.key]:
            if k != 'ok': continue
            cnt += 1
            con = G.norm_in(s, s.mem[IN][1]); f = G.flat(s, v)
            if f is None or ('junk',) in f: und = 'the text of a produced element is not known to the analysis'; continue
            if seq_norm(f) != con: bad = bad or (con, seq_norm(f))
        R.count('parser outcomes', cnt)
        # a path on which some text is unknown may be the one of which the other is the rest
        if bad and not und: R.bad('text:' + n, '%s (%s): consumes  %s  but produces  %s' % (n, b.file, G.show(bad[0]), G.show(bad[1])))
        elif und: R.undec('text:' + n, und)
        else: R.ok('text:' + n, '%d outcomes' % cnt)
    for cur, what, want, got in G.lost:
        if got is not None:
            R.bad('step:%s:%s' % (short(F.bodies[cur].path), what), '%s of %s consumes  %s  but keeps  %s' % (what, short(F.bodies[cur].path), want, got))
    R.floor('parser functions', len(G.nts), 45)
    # the root reaches the end of input
    R.floor('root parser', len(G.roots), 1)
    for k in sorted(G.roots):
        b = F.bodies[k]
        if k in G.incomplete: continue
        for s, kk, v in G.results[k]:
            if kk != 'ok': continue
            seq = G.norm_in(s, s.mem[IN][1], True)
            if ('E',) in seq: R.ok('eof:' + short(b.path), G.show(tuple(x for x in seq if x != ('E',))))
            else: R.bad('eof:' + short(b.path), 'after  %s  the root parser %s can stop before the end of the input, and the rest of the text is in no node (first character not accepted: %s)' %
                        (G.show(seq) or 'nothing', short(b.path), ', '.join(repr(chr(c)) for c in sorted(G.rejected))))
    wiring(F, R, G)

def wiring(F, R, G):
    root = F.bodies[sorted(G.roots)[0]] if G.roots else None
    new = [b for b in F.bodies.values() if b.path.startswith('wat_parser::parser::Parser::') and b.path.endswith('::new')]
    pg = [b for b in F.bodies.values() if b.path.startswith('wat_parser::parser::Parser::') and b.path.endswith('::parse_to_green')]
    pa = [b for b in F.bodies.values() if b.path.startswith('wat_parser::parser::Parser::') and b.path.endswith('::parse')]
    er = [b for b in F.bodies.values() if b.path.startswith('wat_parser::parser::Parser::') and b.path.endswith('::errors')]
    R.floor('entry points', len(new) + len(pg) + len(pa) + len(er), 4)
    if not (new and pg and pa and er): return
    SRC = ('t', 'arg', 'source')
    try:
        I = Interp(F, {}, max_steps=20000)
        (st, v), = I.run(new[0], [SRC], State())
        v = I.deep(st, v)
        inp = next((x for x in v[3] if mentions(x, SRC)), None)
        if inp is None: R.bad('entry:new', 'the parser does not keep the source it is given'); return
        # only constructor-like library calls between the source and the stream
        ops = ops_of(inp, SRC)
        if ops is None: R.undec('entry:new', 'unknown construction of the input stream')
        else: R.check(all(o in ('winnow::stream::Recoverable::new', 'winnow::stream::Located::new') for o in ops), 'entry:new',
                      'the input stream is not the whole source: it is built with %s' % ops, 'Parser::new keeps the whole source')
        R.sites.add(new[0].path)
        # parse_to_green
        st = State(); cell = ('self',); st.mem[cell] = v
        calls = []
        def rp(I2, st, a, c):
            calls.append((I2.deep(st, a[0]), I2.deep(st, a[1])))
            return [(st, ('tup', (('t', 'rest'), some(('t', 'tree')), ('t', 'errors'))))]
        I = Interp(F, {'winnow::parser::RecoverableParser::recoverable_parse': rp, 'winnow::parser_::RecoverableParser::recoverable_parse': rp}, max_steps=20000)
        rs = I.run(pg[0], [('ref', cell, ())], st)
        R.sites.add(pg[0].path)
        if not calls: R.undec('entry:parse_to_green', 'no call of recoverable_parse'); return
        for q, i in calls:
            R.check(q[0] == 'fn' and root is not None and q[1].sym == root.key, 'entry:root', 'parse_to_green does not run the root parser', 'runs ' + short(root.path))
            R.check(mentions(i, SRC), 'entry:input', 'parse_to_green does not parse the source it was given', 'parses the whole source')
        for s, r in rs:
            R.check(r == ('t', 'tree'), 'entry:tree', 'parse_to_green returns something other than the tree of the root parser', 'returns the root tree')
            self_ = s.mem[cell]
            R.check(self_[0] == 'adt' and ('t', 'errors') in self_[3], 'entry:errors', 'the errors recorded by the root parser are not kept', 'errors kept')
            # errors() gives them back
            for s2, r2 in I.run(er[0], [('ref', cell, ())], s):
                R.check(I.deep(s2, r2) in (('t', 'errors'), ('rv', ('t', 'errors'))) or mentions(I.deep(s2, r2), ('t', 'errors')) and r2[0] != 'vec', 'entry:geterrors', 'errors() does not return the recorded errors', 'errors() returns them')
        def pgm(I2, st, a, c): return [(st, ('t', 'green'))]
        I = Interp(F, {pg[0].path: pgm}, max_steps=20000)
        I.models[norm(pg[0].path)] = pgm
        st = State(); st.mem[cell] = v
        for s, r in I.run(pa[0], [('ref', cell, ())], st):
            r = I.deep(s, r)
            R.check(mentions(r, ('t', 'green')) and r[0] == 't' and r[2].endswith('SyntaxNode::new_root'), 'entry:parse', 'parse() does not return the tree of parse_to_green', 'parse() wraps the green tree')
        R.sites.add(pa[0].path)
    except Incomplete as e:
        R.undec('entry', e)

def mentions(t, x):
    if t == x: return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))

def ops_of(t, x):
    """operators applied between x and t when t is a chain of unary calls"""
    out = []
    while t != x:
        if t[0] in ('rv',): t = t[1]; continue
        if t[0] == 't' and t[1] == 'deref': t = t[2]; continue
        if t[0] == 't' and t[1] == 'call':
            out.append(norm(t[2])); a = [y for y in t[3:] if mentions(y, x)]
            if len(a) != 1: return None
            t = a[0]; continue
        if t[0] == 'adt':
            a = [y for y in t[3] if mentions(y, x)]
            if len(a) != 1: return None
            t = a[0]; continue
        return None
    return out
