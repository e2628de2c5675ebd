"""adds the missing property entries to section 3 of DESIGN.md and rewrites the table of section 6"""
import os, re, json, spec
V = spec.V
HOW = {
 'P20': ('The functions that read types and signatures are summarised and evaluated on explicit syntax trees (`sa/world.py`: node kinds, tokens, texts); the texts come from the `Display` implementations, summarised the same way. Which type use and which definition count is decided on symbol tables as for P10.', 25),
 'P21': ('`sa/doc.py` turns documents written down in the check into the tree the grammar prescribes and the symbol table P09 demands. Both operand checks are summarised with the two functions for the types of an instruction as opaque terms, and evaluated on all documents; those two functions are summarised and evaluated separately, with signatures as P20 has them and the instruction table read off the code that builds it (P15). The expected findings come from an operand stack written in the check.', 30),
 'P22': ('Four lints over resolved MIR and types: fields of the service besides the query storage hold no interior mutability and are written while initialising only, and inputs of the queries are set by `commit` only; no function of the service, parser, syntax or formatter crates uses a static with interior mutability, a thread local, a clock, the environment, files or random numbers; every memoised query is summarised and what its formula reads of an argument must be compared by the (hand-written) equality of that argument, found from the formula of `eq`; a query that reads a value whose equality is partial (the symbol table: only key and kind of a symbol count) must on the same path read the inputs of that value, so that it cannot be kept when the value is wrongly found unchanged; interning gives back the number it was given.', 11),
 'P23': ('The function that says what is being completed and the one that lists what is offered for it are found by their types, summarised by abstract interpretation of their MIR, and evaluated on nine documents at every token that names something (immediates, indices, the blank after an instruction name), and at immediates that name nothing; expected are the definitions in scope by the text, with number, name, inserted text and type. The handler itself is tabulated over positions: the token before the cursor, the document and the symbol table of the request. Labels are counted through nested blocks, fourteen deep. Runs the P09 obligations as premises.', 30),
}
def main():
    f = os.path.join(V, 'DESIGN.md'); s = open(f).read()
    new = ''
    for p in spec.P:
        if '### %s  ' % p['id'] in s: continue
        if p['na']:
            new += '### %s  %s\nNot applicable: %s\n\n' % (p['id'], p['title'], p['na']); continue
        how, cost = HOW[p['id']]
        new += '### %s  %s\n%s\n\n*Why tests cannot settle it.* %s\n\n*Claim and limits.* %s\n\n*Cost.* %s s\n\n' % (p['id'], p['title'], how, p['why'], p['note'], cost)
    s = s.replace('## 4. Defects found', new + '## 4. Defects found')
    a = s.index('## 6. Planted bugs')
    rows = ['## 6. Planted bugs', '| id | breaks | needs | caught by |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], MISSED.get(d, m['property'])))
    open(f, 'w').write(s[:a] + '\n'.join(rows) + '\n')
MISSED = {}
if __name__ == '__main__': main()
