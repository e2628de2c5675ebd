"""Shared, solved grammar (one per process)."""
from grammar import *

def solved(F):
    G = getattr(F, 'grammar', None)
    if G is None:
        G = Grammar(F)
        G.roots = {b.key for b in F.bodies.values() if '#p' not in b.key and '{closure' not in b.path and G.is_nt(b) and G.is_nt(b).endswith('GreenNode')}
        G.solve()
        F.grammar = G
    return G

def short(p): return p.replace('wat_parser::parser::', '')
