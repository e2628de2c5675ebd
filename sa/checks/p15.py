"""P15: what the service knows about instructions is what the WebAssembly specification says."""
from tab import *
import wasmspec

META = 'wat_service::data_set::instr_meta::InstrMeta'
CONTROL = {'unreachable', 'nop', 'block', 'loop', 'if', 'then', 'else', 'end', 'br', 'br_if', 'br_table', 'return', 'call', 'call_indirect', 'return_call', 'return_call_indirect'}

def text(v):
    while v[0] == 'rv': v = v[1]
    if v[0] != 's': raise Incomplete('not a known text')
    return v[1]

def table(F):
    """the instruction table: {name: [entry]} in insertion order, from the body that builds it"""
    res = []
    for b in F.bodies.values():
        if not b.path.startswith('wat_service::data_set'): continue
        t = F.ty(b.tys, b.locals[0][0] if isinstance(b.locals[0], (list, tuple)) else b.locals[0])
        if 'HashMap' in t and 'InstrMeta' in t and 'LazyLock' not in t: res.append(b)
    if len(res) != 1: raise Incomplete('%d bodies build the instruction table' % len(res))
    b = res[0]
    I, paths = summarise(F, b, [('u',)] * b.n, self_=False, max_steps=4000000)
    if len(paths) != 1: raise Incomplete('table depends on conditions')
    v = I.deep(*paths[0])
    if v[0] != 'map': raise Incomplete('not a map')
    out = {}
    for x in v[1]:
        if x[0] != 'tup': raise Incomplete('entries of the table are not explicit')
        out.setdefault(text(x[1][0]), []).append(x[1][1])
    return b, I, out

def operand(F, v):
    a = F.adts[v[1]]['v'][v[2]]['n']
    if a == 'Generic': return '*'
    if v[3][0][0] != 'adt': raise Incomplete('operand type')
    t = F.adts[v[3][0][1]]['v'][v[3][0][2]]['n'].lower()
    return '*' if t == 'any' else t

def static(F, name):
    b = [x for x in F.bodies.values() if x.path == 'wat_service::data_set::' + name]
    if len(b) != 1: raise Incomplete('no list ' + name)
    I, paths = summarise(F, b[0], [], self_=False)
    v = I.deep(*paths[0])
    while v[0] == 'rv': v = v[1]
    if v[0] not in ('arr', 'vec', 'tup'): raise Incomplete('list ' + v[0])
    return b[0], [text(x) for x in v[1]]

def check(F, R):
    R.rule('the function that fills the instruction table is evaluated abstractly to the table it builds; every entry (opcode, parameter types, result types, immediates) is compared with the entry of the specification, every name in the word lists with the names of the specification')
    try:
        b, I, tab = table(F)
        R.sites |= I.analysed
        f = F.adts[META]['v'][0]['f']
        for n, (ops, imm, par, res) in wasmspec.SIG.items():
            key = 'signature:' + n
            if n not in tab: R.bad(key, '%s (%s): instruction %s is missing in the table' % (b.path, b.file, n)); continue
            e = dict(zip(f, tab[n][-1][3]))
            try:
                p = tuple(operand(F, x) for x in e['params'][1]); r = tuple(operand(F, x) for x in e['results'][1])
                try: o = tuple(int(x, 16) for x in text(e['bin_op']).split())
                except ValueError: o = text(e['bin_op'])
                bad = []
                if p != par: bad.append('takes %s, the specification says %s' % (p, par))
                if r != res: bad.append('gives %s, the specification says %s' % (r, res))
                if o not in ops: bad.append('has opcode %s, the specification says %s' % (text(e['bin_op']), ' or '.join(' '.join('0x%02X' % y for y in x) for x in ops)))
                if e['operands_count'][0] != 'i' or e['operands_count'][1] not in imm: bad.append('has %s immediates, the specification says %s' % (e['operands_count'][1], sorted(imm)))
                if bad: R.bad(key, '%s (%s): %s %s' % (b.path, b.file, n, '; '.join(bad)))
                else: R.ok(key, {'function': b.path, 'entry': n})
            except (Incomplete, KeyError, IndexError) as x: R.undec(key, '%s: %s' % (type(x).__name__, x))
        for n in tab:
            if n not in wasmspec.SIG: R.note(n) if hasattr(R, 'note') else None
        R.count('instructions', len(tab))
    except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('signatures', '%s: %s' % (type(e).__name__, e))
    for name, good in (('INSTR_NAMES', set(wasmspec.SIG) | CONTROL), ('VALUE_TYPES', {'i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref'}),
                       ('MODULE_FIELDS', {'func', 'type', 'import', 'table', 'memory', 'global', 'export', 'start', 'elem', 'data'}), ('PORT_DESC', {'func', 'table', 'memory', 'global'})):
        try:
            b, l = static(F, name)
            for w in l:
                if w not in good: R.bad('word:' + w, '%s (%s): %r is suggested, but is no such word of the text format' % (b.path, b.file, w))
            if len(set(l)) != len(l): R.bad('words:' + name + ':twice', '%s (%s): listed twice: %s' % (b.path, b.file, sorted(x for x in set(l) if l.count(x) > 1)))
            if name != 'INSTR_NAMES' and good - set(l): R.bad('words:' + name + ':missing', '%s (%s): missing: %s' % (b.path, b.file, sorted(good - set(l))))
            R.ok('words:' + name, {'function': b.path, 'words': len(l)})
        except (Incomplete, Stuck, KeyError, IndexError) as e: R.undec('words:' + name, '%s: %s' % (type(e).__name__, e))
