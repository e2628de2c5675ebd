"""Panic sites and other per-body effects, from resolved callees."""
from absint import norm
PANIC_CALLS = {
    'core::option::Option::unwrap': 'Option::unwrap', 'core::option::Option::expect': 'Option::expect',
    'core::result::Result::unwrap': 'Result::unwrap', 'core::result::Result::expect': 'Result::expect',
    'core::result::Result::unwrap_err': 'Result::unwrap_err', 'core::result::Result::expect_err': 'Result::expect_err',
    'alloc::vec::Vec::remove': 'Vec::remove', 'alloc::vec::Vec::swap_remove': 'Vec::swap_remove', 'alloc::vec::Vec::insert': 'Vec::insert',
    'alloc::vec::Vec::split_off': 'Vec::split_off', 'alloc::vec::Vec::drain': 'Vec::drain', 'core::str::split_at': 'str::split_at', 'core::slice::split_at': 'slice::split_at',
    'core::ops::index::Index::index': 'index', 'core::ops::index::IndexMut::index_mut': 'index',
    'core::cell::RefCell::borrow_mut': 'RefCell::borrow_mut', 'core::cell::RefCell::borrow': 'RefCell::borrow',
    'text_size::range::TextRange::new': 'TextRange::new', 'alloc::string::String::remove': 'String::remove', 'alloc::string::String::insert_str': 'String::insert_str',
    'std::process::exit': 'process::exit', 'std::process::abort': 'process::abort',
}
def panics(F, b):
    """(what, line) of every operation of the body that may panic"""
    out = []
    for c, a, d, l, i, f in F.calls(b):
        if not c: continue
        p = norm(c['p'])
        if p in PANIC_CALLS: out.append((PANIC_CALLS[p], l))
        elif p.startswith('core::panicking::') or p.startswith('std::rt::begin_panic') or p.startswith('core::option::unwrap_failed') or p.startswith('core::option::expect_failed'): out.append(('panic!', l))
    for x in b.blocks:
        if not x['c'] and x['t'][0] == 'assert':
            t = x['t']
            out.append(('assert', t[-1] if isinstance(t[-1], int) else 0))
    return out
