"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py`."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

S = 'crates/'
prop('P01', 'Parsing loses no text',
     'For every source text, valid or not, the syntax tree the parser returns covers the whole text: concatenating its tokens in order gives back the source exactly, with no character dropped, duplicated or moved. This includes all error recovery.',
     ['inputs'], 'every string, including malformed and truncated ones',
     'Snapshot tests pin a few dozen trees; the guarantee is about every input, in particular every combination of malformed parts that drives error recovery.',
     [S + 'parser/src/parser/mod.rs', S + 'parser/src/parser/token.rs', S + 'parser/src/parser/module.rs', S + 'parser/src/parser/instr.rs', S + 'parser/src/parser/ty.rs'],
     [('combinator grammar building green nodes from what it consumed', S + 'parser/src/parser'), ('recovery parsers that turn unexpected text into ERROR tokens', S + 'parser/src/parser/mod.rs, token.rs')],
     'abstract interpretation of parser MIR (text accounting)',
     'Per parser function and outcome, symbolic text consumed = text carried by produced tree; induction for repetitions; end of input reached by the root. Trusts models of winnow, rowan, std.')
prop('P02', 'The parser terminates with a tree on every input',
     'For every source text the parser returns a tree and a list of errors: it never panics, never aborts with an unrecoverable error, and never loops or recurses without consuming input.',
     ['inputs'], 'every string, including malformed and truncated ones',
     'A crash needs one particular malformed shape (an unterminated nested comment did it); tests sample a few.',
     [S + 'parser/src/parser/mod.rs', S + 'parser/src/parser/token.rs', S + 'parser/src/parser/module.rs', S + 'parser/src/parser/instr.rs', S + 'parser/src/parser/ty.rs'],
     [('repetitions over parsers that always consume', S + 'parser/src/parser'), ('a root parser without failing outcome', S + 'parser/src/parser/mod.rs')],
     'abstract interpretation of parser MIR (progress, failure, panic reachability)',
     'All repetitions consume, no left recursion, no failing root outcome, no reachable panic in the parser crate. Stack depth is not bounded.')
SV = S + 'server/src/server.rs'
prop('P06', 'Every request gets exactly one response',
     'Whatever request the server receives after initialisation, it answers it with exactly one response that carries the id of that request and either a result or an error, and then goes on serving; the only request that ends it is shutdown. Unknown methods and unreadable parameters are answered with an error. Notifications and responses from the client are never answered and never end the server.',
     ['inputs', 'histories'], 'every message, with any method and any parameters, in any state of the server',
     'Nothing in the tests drives the server loop; a missing or doubled reply in one of its two dozen branches leaves the client waiting for ever.',
     [SV], [('server loop: one extraction per method, reply, continue', SV)],
     'path-sensitive abstract interpretation of the server loop MIR',
     'All paths of Server::run with one arbitrary message from an arbitrary loop state; events (service calls, sends) are compared with the rule. Trusts models of lsp-server and serde_json; sending is assumed to succeed.')
prop('P07', 'Requests reach their handler and capabilities tell the truth',
     'Each supported LSP request is served by exactly the language-service operation of that name, with the parameters of that request, and the value it returns is what is sent back (as an error exactly when the operation failed). The capabilities announced at initialisation cover exactly the requests that are served, and announce full-text document synchronisation.',
     ['inputs', 'configurations'], 'every request method and every set of client capabilities',
     'The tests call the service directly; nothing exercises the dispatch or compares it with the announced capabilities.',
     [SV, S + 'service/src/lib.rs'], [('dispatch by method', SV), ('capabilities', S + 'service/src/lib.rs')],
     'path-sensitive abstract interpretation of dispatch, compared with a protocol table',
     'Events of every server path against a method/handler/capability table read off LSP 3.17; capabilities are evaluated abstractly from initialize.')
prop('P08', 'Answers and diagnostics follow the latest text',
     'Opening or changing a document makes exactly the text of that notification (of the last change, if it carries several) the current text of exactly that document, and nothing else changes a stored text. Afterwards the diagnostics of that document, computed from the new text, are published exactly once to clients that do not pull diagnostics and never to clients that do; closing a document publishes an empty list for it.',
     ['histories', 'configurations'], 'every sequence of document notifications and every client',
     'Depends on the history of notifications and on client capabilities; the tests only use single commits on the service.',
     [SV, S + 'service/src/lib.rs'], [('document notifications', SV), ('commit', S + 'service/src/lib.rs')],
     'path-sensitive abstract interpretation of the notification paths',
     'Events of every notification path of the server (arguments, order, multiplicity) against the rule, plus the commit operation of the service. Clients send full texts.')
F_ = S + 'service/src/features/'
BI = S + 'service/src/binder.rs'
prop('P09', 'Every definition and use is recorded with kind, scope and number',
     'In every document each function, type, global, memory, table, parameter, local and block definition, and each use of one by name or number (calls, local, global, memory and table instructions, exports, start, type uses, branches), is taken into account exactly once: with the name it has in the text, its number among its like, and the module, function or block it belongs to. Anonymous parameters and locals count too, and a block is in scope for the uses nested in it, from the innermost outwards.',
     ['inputs'], 'every document: every field, instruction and nesting of blocks',
     'Each syntactic form (multi-value parameters, nested blocks, folded instructions, exports, operands) has its own path; tests go through a few of them, and an omission only shows as a missing answer elsewhere.',
     [BI], [('construction of the symbol table', BI)],
     'abstract interpretation of the binder MIR over symbolic syntax trees (table construction compared with a specification)',
     'Per node kind, all tree shapes up to 2-3 children/ancestors per role; the table rows pushed are compared with those the rule requires. Trusts a model of rowan cursors.')
prop('P10', 'Definitions and undefined names follow the scoping rules',
     'For every document, a use of a function, type, global, memory, table, parameter, local or block label denotes the definition of that kind with the written name or number in the same module (parameters and locals: the same function; labels: the innermost enclosing block with that name, or the enclosing block at that depth). Go to definition answers exactly where that definition is, and nothing if there is none; go to declaration does so for uses in instructions. Exactly the uses that denote nothing are reported as undefined.',
     ['inputs'], 'every document and every position in it',
     'Depends on combinations of kinds, scopes, names, numbers and nesting; tests sample a few dozen documents.',
     [F_ + 'definition.rs', S + 'service/src/checker/undef.rs', BI], [('goto handlers', F_ + 'definition.rs'), ('lookup in the symbol table', BI), ('undefined-name checker', S + 'service/src/checker/undef.rs')],
     'abstract interpretation of MIR to formulas over the symbol table, tabulated against the scoping rules',
     'Formulas compared on all combinations of up to 3 symbols; documents with repeated names in one scope are left out (they are errors of their own).')
prop('P11', 'References are exactly the uses of what is under the cursor',
     'For every document and position, find references answers the uses of the definition that the symbol under the cursor is or denotes, each once and no others, together with that definition exactly when the client asks for declarations. If there is no symbol under the cursor, or it denotes nothing, the answer is empty.',
     ['inputs'], 'every document, position and includeDeclaration',
     'A missing or extra occurrence shows only for particular combinations of kinds, names, numbers and nested blocks.',
     [F_ + 'references.rs', BI], [('references handler', F_ + 'references.rs'), ('lookup in the symbol table', BI)],
     'abstract interpretation of MIR to formulas over the symbol table, tabulated against the scoping rules',
     'Formulas compared on all combinations of up to 3 symbols.')
prop('P12', 'Rename edits every occurrence of the same thing and nothing else',
     'Renaming the identifier under the cursor to a valid new name changes, in that document only, every occurrence of that name which is the same definition or a use of it (for a block also its label repeated after else and end; unresolved uses of the name in the same scope count together), puts the new name there and touches no other text. An invalid new name, or a cursor that is not on an identifier, is refused with an error, and prepareRename offers the range of the identifier exactly when there is one.',
     ['inputs'], 'every document, position and new name',
     'A missed or extra edit silently changes the meaning of the program for particular combinations of scopes, equal names and nested blocks.',
     [F_ + 'rename.rs', BI], [('rename handler', F_ + 'rename.rs'), ('symbol table', BI)],
     'abstract interpretation of MIR to formulas over the symbol table and identifier tokens, tabulated against the scoping rules',
     'Formulas compared on all combinations of up to 3 symbols; new names: every ASCII character in every role. Same name in different name spaces of one scope is a known finding.')
prop('P13', 'Names defined twice in a scope are reported, unique names never',
     'Among the diagnostics of a document there is, for each function, type, global, memory, table, parameter and local whose name another definition of its name space in the same module or function also has, exactly one error that sits on its name, quotes the name and points to every other such definition. A definition whose name is unique in its scope, an anonymous definition, and a use get none.',
     ['inputs'], 'every document',
     'Needs particular combinations of kinds, scopes and repetitions (two modules, three definitions, parameter against local); tests have a handful. Tables were once forgotten.',
     [S + 'service/src/checker/dup_names.rs', BI], [('duplicate-name checker', S + 'service/src/checker/dup_names.rs'), ('symbol table', BI)],
     'abstract interpretation of MIR to formulas over the symbol table (grouping included), tabulated against the rule',
     'Formulas compared on all combinations of up to 3 symbols. Equal names of different kinds are a known finding; labels are left out.')
prop('P14', 'Semantic tokens sit where the coloured tokens are, with the right class',
     'Decoded against the announced legend, the semantic tokens of a document are exactly its types, keywords, names, numbers, strings, comments and instruction names whose class the client supports, each once, in order, with its own line, start and length. Names and indices in calls, function definitions, start and function exports are functions, parameters and their uses are parameters, other names and local indices are variables. A range request gives exactly the tokens that overlap the range.',
     ['inputs', 'configurations'], 'every document, every list of token types a client announces, every range',
     'The encoding is relative to the previous token, so errors need particular sequences of multi-line, classified and unclassified tokens; the legend depends on what the client announces. Tests pin a few files and one client.',
     [S + 'service/src/features/semantic_tokens.rs', S + 'service/src/lib.rs', BI], [('token encoding and classification', S + 'service/src/features/semantic_tokens.rs'), ('legend', S + 'service/src/lib.rs')],
     'abstract interpretation of MIR to formulas (running position as folds), tabulated over token shapes against the decoding rule',
     'Formulas compared on all documents of up to 4 tokens of given shapes; columns counted in bytes. First column of range answers is a known finding.')
prop('P15', 'Instruction knowledge agrees with the WebAssembly specification',
     'For every numeric, vector, memory, table, reference, parametric and variable instruction of WebAssembly 2.0 the opcode shown, the operand types, the result types and the number of immediates the service works with are those of the specification. Every instruction name, value type, module field and import or export kind that is suggested is a word of the text format, suggested once, and no value type, field or kind is missing.',
     ['inputs'], 'every instruction of the specification (423) and every suggested word',
     'Tests mention a few dozen of several hundred instructions; a wrong entry only shows when that instruction is used.',
     [S + 'service/src/data_set/instr_meta.rs', S + 'service/src/data_set/mod.rs'], [('instruction table', S + 'service/src/data_set/instr_meta.rs'), ('word lists', S + 'service/src/data_set/mod.rs')],
     'abstract evaluation of the table-building MIR, compared entry by entry with an independently written table of the specification',
     'Complete for the table; memory arguments may be counted as one immediate. One suggested word that does not exist is a known finding.')
prop('P16', 'Diagnostics are the findings of every check, pushed and pulled alike',
     'The diagnostics of a document, whether pushed or pulled, are its syntax errors together with the findings of every check on every place it applies to, each once: functions and globals are type-checked, so is every plain instruction, whose immediates must also have the right kind, undefined and duplicate names are reported, and every module after the first is an error. Every syntax error found by the parser appears as an error at its place with its message.',
     ['inputs'], 'every document',
     'A check skipped for one node kind, one instruction or one position in a list shows only on documents with exactly that; tests have a few of them.',
     [S + 'service/src/checker/mod.rs', S + 'service/src/checker/multi_modules.rs', S + 'service/src/checker/literal_operands.rs', S + 'service/src/features/diagnostics.rs', S + 'service/src/files.rs'],
     [('assembly of the diagnostics', S + 'service/src/checker/mod.rs'), ('immediates', S + 'service/src/checker/literal_operands.rs'), ('handlers', S + 'service/src/features/diagnostics.rs')],
     'abstract interpretation of MIR to formulas, tabulated over node kinds, instructions and operand kinds against the rule',
     'What the type checker itself finds is not decided here. Vector lanes, v128.const and absent optional immediates are left unconstrained.')
prop('P17', 'Call hierarchy lists exactly the calls between functions',
     'Preparing a call hierarchy on a function name or on the function of a call answers that function; its outgoing calls are the functions called in its body, and its incoming calls the functions whose bodies call it, each with exactly the places of those calls. Calls to functions that do not exist, calls of other functions and uses that are not calls do not appear.',
     ['inputs'], 'every document, every function in it',
     'Depends on combinations of names, numbers, nesting and modules; tests have a few small files.',
     [F_ + 'call_hierarchy.rs', BI], [('call hierarchy handlers', F_ + 'call_hierarchy.rs'), ('symbol table', BI)],
     'abstract interpretation of MIR to formulas over the symbol table, tabulated against the scoping rules',
     'Formulas compared on all combinations of up to 3 symbols; the item handed back by the client is taken to be one the server made for this version of the document.')
prop('P18', 'Selection and folding ranges follow the syntax tree',
     'A selection range request answers one range per requested position, in the order of the positions: the token at the position and then, as parents, each enclosing syntax node up to the whole document, or an empty range at the position if there is no token. Folding ranges are exactly the syntax nodes that have a parenthesis or keyword of their own and span more than one line, each once, with their start and end line and column.',
     ['inputs'], 'every document, every list of positions',
     'Depends on nesting depth, the number of positions and which of them have no token; tests ask for one position in a few files.',
     [F_ + 'selection_range.rs', F_ + 'folding_range.rs'], [('selection ranges', F_ + 'selection_range.rs'), ('folding ranges', F_ + 'folding_range.rs')],
     'abstract interpretation of MIR to formulas over the syntax tree, tabulated against the rule',
     'Formulas compared on all shapes of up to 3 positions, 4 levels and 3 nodes; recursion is unfolded along the tabulated tree.')
prop('P19', 'Hovers and inlay hints describe the definition that is meant',
     'Hovering a use of a function, type, global, parameter or local, or its definition, shows that definition: its kind and name, its type or signature, for globals whether they are mutable, for functions the nearest run of ;;; comments above; hovering an instruction or value type shows that instruction (with its opcode) or type, and other places show nothing. Inlay hints are, within the range asked for, exactly the type of the definition after each use of a local, parameter or global that is defined, and the name after each named function.',
     ['inputs'], 'every document, every position and every range',
     'Depends on combinations of kinds, scopes, names, numbers and comments; tests have a few of each.',
     [F_ + 'hover.rs', F_ + 'inlay_hint.rs', BI], [('hover', F_ + 'hover.rs'), ('inlay hints', F_ + 'inlay_hint.rs'), ('symbol table', BI)],
     'abstract interpretation of MIR to formulas over the symbol table and the text around definitions, tabulated against the rule',
     'Formulas compared on all combinations of up to 3 symbols and 13 arrangements of comments; documents with repeated names in one scope are left out. How types and signatures are read from the text is the subject of another property.')
prop('P20', 'Types and signatures are those written in the text',
     'The type of a parameter, local or global is the value type written in it, and the signature of a function consists of the parameters (with their names) and results written in it, in order, or, if it has none, of those of the type definition it uses. A signature is shown as its parameters and then its results, one group each and separated by single blanks, and the header of a function as its name, if it has one, followed by its signature, if that is not empty.',
     ['inputs'], 'every document: every definition and every signature',
     'Combinations of named and unnamed, single and grouped parameters, several results, type uses with and without inline parts; tests have a few of each.',
     [S + 'service/src/types_analyzer.rs', S + 'service/src/helpers.rs'], [('types and signatures', S + 'service/src/types_analyzer.rs')],
     'abstract interpretation of MIR to formulas, evaluated on enumerated syntax tree shapes and symbol tables against the rule',
     'Formulas compared on 411 tree shapes (all value types; up to 3 parameter and 2 result groups), 107 signatures and all combinations of up to 3 symbols; documents with repeated names in one scope are left out.')

prop('P21', 'Operands of the wrong number or type are reported, right ones never',
     'Every plain instruction, folded or in the sequence of a function or global, has the operands left for it compared with the types it takes: a wrong number is reported on the instruction with both numbers, a wrong type on the operand with both types and, for a call, the place of the parameter. A call takes the parameters and leaves the results of the function meant, local.get and global.get leave the type of the definition meant, and every other instruction what WebAssembly says; what is unknown is skipped. Valid code gets no such error.',
     ['inputs'], 'every document: every folded instruction and every instruction sequence',
     'The verdict depends on whole sequences: what earlier instructions left, how many of it were consumed, calls with several results, missing definitions; tests have single cases.',
     [S + 'service/src/checker/typeck.rs', S + 'service/src/data_set/instr_meta.rs'], [('operand checks', S + 'service/src/checker/typeck.rs')],
     'abstract interpretation of MIR to formulas over syntax tree and symbol table, evaluated on enumerated documents against the validation rule',
     'Formulas compared on 2600 folded instructions and 2468 sequences (up to 4 instructions out of 22) and 130 documents for the types; the tree and symbol table of a document are those of P09, signatures those of P20, the instruction table is checked by P15. Known findings: omitted immediates, blocks as operands, unreachable code, indirect calls.')
prop('P22', 'Answers depend on the current texts, not on the edits before',
     'What the server answers and which diagnostics a document gets depend only on the capabilities announced at the start and on the current texts: after any sequence of openings, changes and requests they are what a fresh server gives that has opened just these texts. Only the order of lists that have no order may differ.',
     ['histories'], 'every sequence of openings, changes and requests, every text',
     'Tests open one document in a fresh service and ask once; a memoised result that outlives its inputs shows after particular edits only.',
     [S + 'service/src/lib.rs', S + 'service/src/files.rs', S + 'service/src/binder.rs', S + 'service/src/idx.rs', S + 'service/src/types_analyzer.rs'],
     [('memoised queries and their keys', S + 'service/src/types_analyzer.rs'), ('partial equality of symbols', BI), ('inputs and interned values', S + 'service/src/lib.rs, files.rs, idx.rs')],
     'effect analysis of resolved MIR (fields, statics, thread locals, outside sources) and dependency analysis of the extracted formula of every memoised query against the equality of its key and of its inputs',
     'Trusts salsa (a memoised function is run again when a query it called has changed) and derived equality. What the answers are is the subject of the other properties.')

prop('P23', 'Completion of a use offers exactly the names in scope',
     'Where a `local`, `global`, `table`, call, `ref.func` or branch instruction, a start, an export or a type use names something, completion offers exactly the definitions of the kind it names that are visible there, and of no other kind: parameters and locals of the function around, fields of the module around, blocks around counted from the inside. Each is offered once, by its name or else by its recorded number, with its own type for locals and globals; after a `$` only named ones are offered and what is inserted is the name without the `$`. Immediates that name nothing get no names.',
     ['inputs'], 'every document and every cursor position on an immediate or index that names something',
     'Tests complete in documents with one or two definitions; which scope, depth and number are right depends on what else the document contains.',
     [S + 'service/src/features/completion.rs', S + 'service/src/binder.rs'],
     [('what is completed', S + 'service/src/features/completion.rs get_cmp_ctx'), ('what is offered', S + 'service/src/features/completion.rs get_cmp_list')],
     'abstract interpretation of the MIR of the two halves of completion into formulas, evaluated on documents at every token that names something, against the scoping rules',
     'Documents are a fixed list (functions, nested and repeated blocks, shadowing, several modules, more than ten of everything); keywords and instruction names offered elsewhere, and element and data segments, are not covered. The symbol table is the subject of P09, which runs as a premise.')

def emit():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 sa/build.py',
         'checks': [{'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': './check.sh ' + p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'All checks read MIR facts dumped from /repo by driver/ (a rustc_private wrapper around cargo check); no code of /repo is executed.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
if __name__ == '__main__': emit()
