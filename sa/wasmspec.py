"""Instruction signatures and opcodes of the WebAssembly core specification (2.0), written down from the specification.

SIG[name] = (opcodes, immediates, parameters, results): opcodes a set of byte tuples; immediates the set of admissible
numbers of immediates written after the name (a memory argument, and the lanes of v128.const and i8x16.shuffle, may be counted as one); parameters and results are lists of value
types, '*' where the type depends on the context."""
SIG = {}

def put(name, op, imm, par, res):
    o = op if isinstance(op, tuple) else (op,)
    imm = imm if isinstance(imm, (set, frozenset)) else {imm}
    if name in SIG: SIG[name] = (SIG[name][0] | {o}, SIG[name][1] | imm, SIG[name][2], SIG[name][3])
    else: SIG[name] = (frozenset({o}), frozenset(imm), tuple(par), tuple(res))

I32, I64, F32, F64, V = 'i32', 'i64', 'f32', 'f64', 'v128'
put('drop', 0x1A, 0, ['*'], []); put('select', 0x1B, 0, ['*', '*', I32], ['*']); put('select', 0x1C, 1, ['*', '*', I32], ['*'])
put('local.get', 0x20, 1, [], ['*']); put('local.set', 0x21, 1, ['*'], []); put('local.tee', 0x22, 1, ['*'], ['*'])
put('global.get', 0x23, 1, [], ['*']); put('global.set', 0x24, 1, ['*'], [])
put('table.get', 0x25, {0, 1}, [I32], ['*']); put('table.set', 0x26, {0, 1}, [I32, '*'], [])
op = 0x28
for n, t in (('i32.load', I32), ('i64.load', I64), ('f32.load', F32), ('f64.load', F64), ('i32.load8_s', I32), ('i32.load8_u', I32), ('i32.load16_s', I32), ('i32.load16_u', I32),
             ('i64.load8_s', I64), ('i64.load8_u', I64), ('i64.load16_s', I64), ('i64.load16_u', I64), ('i64.load32_s', I64), ('i64.load32_u', I64)):
    put(n, op, {0, 1}, [I32], [t]); op += 1
for n, t in (('i32.store', I32), ('i64.store', I64), ('f32.store', F32), ('f64.store', F64), ('i32.store8', I32), ('i32.store16', I32), ('i64.store8', I64), ('i64.store16', I64), ('i64.store32', I64)):
    put(n, op, {0, 1}, [I32, t], []); op += 1
put('memory.size', 0x3F, {0, 1}, [], [I32]); put('memory.grow', 0x40, {0, 1}, [I32], [I32])
for i, t in enumerate((I32, I64, F32, F64)): put(t + '.const', 0x41 + i, 1, [], [t])
op = 0x45
IREL = 'eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u'.split(); FREL = 'eq ne lt gt le ge'.split()
for t in (I32, I64):
    put(t + '.eqz', op, 0, [t], [I32]); op += 1
    for r in IREL: put(t + '.' + r, op, 0, [t, t], [I32]); op += 1
for t in (F32, F64):
    for r in FREL: put(t + '.' + r, op, 0, [t, t], [I32]); op += 1
for t in (I32, I64):
    for r in 'clz ctz popcnt'.split(): put(t + '.' + r, op, 0, [t], [t]); op += 1
    for r in 'add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr'.split(): put(t + '.' + r, op, 0, [t, t], [t]); op += 1
for t in (F32, F64):
    for r in 'abs neg ceil floor trunc nearest sqrt'.split(): put(t + '.' + r, op, 0, [t], [t]); op += 1
    for r in 'add sub mul div min max copysign'.split(): put(t + '.' + r, op, 0, [t, t], [t]); op += 1
assert op == 0xA7
for n in ('i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u '
          'f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32 '
          'i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64').split():
    src = [x for x in n.split('.')[1].split('_') if x in (I32, I64, F32, F64)][0]
    put(n, op, 0, [src], [n[:3]]); op += 1
assert op == 0xC0
for n in 'i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s'.split(): put(n, op, 0, [n[:3]], [n[:3]]); op += 1
put('ref.null', 0xD0, 1, [], ['*']); put('ref.is_null', 0xD1, 0, ['*'], [I32]); put('ref.func', 0xD2, 1, [], ['funcref'])
FC = [('i32.trunc_sat_f32_s', 0, [F32], [I32]), ('i32.trunc_sat_f32_u', 0, [F32], [I32]), ('i32.trunc_sat_f64_s', 0, [F64], [I32]), ('i32.trunc_sat_f64_u', 0, [F64], [I32]),
      ('i64.trunc_sat_f32_s', 0, [F32], [I64]), ('i64.trunc_sat_f32_u', 0, [F32], [I64]), ('i64.trunc_sat_f64_s', 0, [F64], [I64]), ('i64.trunc_sat_f64_u', 0, [F64], [I64]),
      ('memory.init', {1, 2}, [I32, I32, I32], []), ('data.drop', 1, [], []), ('memory.copy', {0, 2}, [I32, I32, I32], []), ('memory.fill', {0, 1}, [I32, I32, I32], []),
      ('table.init', {1, 2}, [I32, I32, I32], []), ('elem.drop', 1, [], []), ('table.copy', {0, 2}, [I32, I32, I32], []), ('table.grow', {0, 1}, ['*', I32], [I32]), ('table.size', {0, 1}, [], [I32]), ('table.fill', {0, 1}, [I32, '*', I32], [])]
for i, (n, m, p, r) in enumerate(FC): put(n, (0xFC, i), m, p, r)

SIMD = {}
def run(at, names):
    for n in names.split():
        if n != '-': SIMD[n] = at
        at += 1
run(0x00, 'v128.load v128.load8x8_s v128.load8x8_u v128.load16x4_s v128.load16x4_u v128.load32x2_s v128.load32x2_u v128.load8_splat v128.load16_splat v128.load32_splat v128.load64_splat v128.store v128.const i8x16.shuffle i8x16.swizzle '
    'i8x16.splat i16x8.splat i32x4.splat i64x2.splat f32x4.splat f64x2.splat i8x16.extract_lane_s i8x16.extract_lane_u i8x16.replace_lane i16x8.extract_lane_s i16x8.extract_lane_u i16x8.replace_lane '
    'i32x4.extract_lane i32x4.replace_lane i64x2.extract_lane i64x2.replace_lane f32x4.extract_lane f32x4.replace_lane f64x2.extract_lane f64x2.replace_lane')
run(0x23, ' '.join(s + '.' + r for s in ('i8x16', 'i16x8', 'i32x4') for r in IREL)); run(0x41, ' '.join(s + '.' + r for s in ('f32x4', 'f64x2') for r in FREL))
run(0x4D, 'v128.not v128.and v128.andnot v128.or v128.xor v128.bitselect v128.any_true v128.load8_lane v128.load16_lane v128.load32_lane v128.load64_lane v128.store8_lane v128.store16_lane v128.store32_lane v128.store64_lane '
    'v128.load32_zero v128.load64_zero f32x4.demote_f64x2_zero f64x2.promote_low_f32x4')
run(0x60, 'i8x16.abs i8x16.neg i8x16.popcnt i8x16.all_true i8x16.bitmask i8x16.narrow_i16x8_s i8x16.narrow_i16x8_u f32x4.ceil f32x4.floor f32x4.trunc f32x4.nearest i8x16.shl i8x16.shr_s i8x16.shr_u i8x16.add i8x16.add_sat_s i8x16.add_sat_u '
    'i8x16.sub i8x16.sub_sat_s i8x16.sub_sat_u f64x2.ceil f64x2.floor i8x16.min_s i8x16.min_u i8x16.max_s i8x16.max_u f64x2.trunc i8x16.avgr_u i16x8.extadd_pairwise_i8x16_s i16x8.extadd_pairwise_i8x16_u i32x4.extadd_pairwise_i16x8_s i32x4.extadd_pairwise_i16x8_u')
run(0x80, 'i16x8.abs i16x8.neg i16x8.q15mulr_sat_s i16x8.all_true i16x8.bitmask i16x8.narrow_i32x4_s i16x8.narrow_i32x4_u i16x8.extend_low_i8x16_s i16x8.extend_high_i8x16_s i16x8.extend_low_i8x16_u i16x8.extend_high_i8x16_u '
    'i16x8.shl i16x8.shr_s i16x8.shr_u i16x8.add i16x8.add_sat_s i16x8.add_sat_u i16x8.sub i16x8.sub_sat_s i16x8.sub_sat_u f64x2.nearest i16x8.mul i16x8.min_s i16x8.min_u i16x8.max_s i16x8.max_u - i16x8.avgr_u '
    'i16x8.extmul_low_i8x16_s i16x8.extmul_high_i8x16_s i16x8.extmul_low_i8x16_u i16x8.extmul_high_i8x16_u')
run(0xA0, 'i32x4.abs i32x4.neg - i32x4.all_true i32x4.bitmask - - i32x4.extend_low_i16x8_s i32x4.extend_high_i16x8_s i32x4.extend_low_i16x8_u i32x4.extend_high_i16x8_u i32x4.shl i32x4.shr_s i32x4.shr_u i32x4.add - - i32x4.sub - - - i32x4.mul '
    'i32x4.min_s i32x4.min_u i32x4.max_s i32x4.max_u i32x4.dot_i16x8_s - i32x4.extmul_low_i16x8_s i32x4.extmul_high_i16x8_s i32x4.extmul_low_i16x8_u i32x4.extmul_high_i16x8_u')
run(0xC0, 'i64x2.abs i64x2.neg - i64x2.all_true i64x2.bitmask - - i64x2.extend_low_i32x4_s i64x2.extend_high_i32x4_s i64x2.extend_low_i32x4_u i64x2.extend_high_i32x4_u i64x2.shl i64x2.shr_s i64x2.shr_u i64x2.add - - i64x2.sub - - - i64x2.mul '
    'i64x2.eq i64x2.ne i64x2.lt_s i64x2.gt_s i64x2.le_s i64x2.ge_s i64x2.extmul_low_i32x4_s i64x2.extmul_high_i32x4_s i64x2.extmul_low_i32x4_u i64x2.extmul_high_i32x4_u')
run(0xE0, 'f32x4.abs f32x4.neg - f32x4.sqrt f32x4.add f32x4.sub f32x4.mul f32x4.div f32x4.min f32x4.max f32x4.pmin f32x4.pmax')
run(0xEC, 'f64x2.abs f64x2.neg - f64x2.sqrt f64x2.add f64x2.sub f64x2.mul f64x2.div f64x2.min f64x2.max f64x2.pmin f64x2.pmax')
run(0xF8, 'i32x4.trunc_sat_f32x4_s i32x4.trunc_sat_f32x4_u f32x4.convert_i32x4_s f32x4.convert_i32x4_u i32x4.trunc_sat_f64x2_s_zero i32x4.trunc_sat_f64x2_u_zero f64x2.convert_low_i32x4_s f64x2.convert_low_i32x4_u')
LANE = {'i8x16': I32, 'i16x8': I32, 'i32x4': I32, 'i64x2': I64, 'f32x4': F32, 'f64x2': F64}
UNARY = 'not abs neg popcnt sqrt ceil floor trunc nearest demote_f64x2_zero promote_low_f32x4'.split()
for n, o in SIMD.items():
    s, f = n.split('.')
    imm, p, r = 0, None, [V]
    if f == 'load' or f.startswith('load') and not f.endswith('_lane'): p, imm = [I32], {0, 1}
    elif f == 'store': p, r, imm = [I32, V], [], {0, 1}
    elif f.startswith('load'): p, imm = [I32, V], {1, 2}
    elif f.startswith('store'): p, r, imm = [I32, V], [], {1, 2}
    elif f == 'const': p, imm = [], {1, 3, 5, 9, 17}
    elif f == 'shuffle': p, imm = [V, V], {1, 16}
    elif f == 'splat': p = [LANE[s]]
    elif f.startswith('extract_lane'): p, r, imm = [V], [LANE[s]], 1
    elif f == 'replace_lane': p, imm = [V, LANE[s]], 1
    elif f == 'bitselect': p = [V, V, V]
    elif f in ('any_true', 'all_true', 'bitmask'): p, r = [V], [I32]
    elif f in ('shl', 'shr_s', 'shr_u'): p = [V, I32]
    elif f in UNARY or f.startswith(('extadd_', 'extend_', 'trunc_sat_', 'convert_')): p = [V]
    else: p = [V, V]
    put(n, (0xFD, o) if o < 0x80 else (0xFD, o, 1), imm, p, r)
