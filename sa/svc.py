"""Abstract runs of language-service functions."""
from absint import *

def service_self(F):
    a = F.adts['wat_service::LanguageService']
    return ('adt', 'wat_service::LanguageService', 0, tuple(('t', 'svcfield', f) for f in a['v'][0]['f']))

def method(F, name):
    l = [b for b in F.bodies.values() if b.crate == 'wat_service' and b.path.endswith('::' + name) and ('LanguageService' in b.path) and '{closure' not in b.path and not b.path.startswith('<')]
    if len(l) != 1: raise Incomplete('no single method %s of the language service' % name)
    return l[0]

def capabilities(F):
    b_ = method(F, 'initialize')
    I = Interp(F, {}, max_steps=200000)
    I.mutated = lambda i, r: ('t', 'mutated', 0, ('u',))      # what is collected in a loop does not matter here
    st = State(); st.mem[('g', 'self')] = service_self(F)
    out = []
    for s, v in I.run(b_, [('ref', ('g', 'self'), ()), ('t', 'params')], st):
        v = I.deep(s, v)
        a = F.adts['lsp_types::InitializeResult']['v'][0]['f']
        caps = v[3][a.index('capabilities')]
        if caps[3] not in out: out.append(caps[3])
    return F.adts['lsp_types::ServerCapabilities']['v'][0]['f'], out
