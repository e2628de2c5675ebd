"""Requests reach their handler, and what is advertised is what is handled."""
from srv import *
from checks.p06 import responses, method_of, pathname
import svc

# LSP method -> service method, and the capability that announces it (LSP 3.17)
ROUTES = {
    'textDocument/prepareCallHierarchy': ('prepare_call_hierarchy', 'call_hierarchy_provider', None),
    'callHierarchy/incomingCalls': ('call_hierarchy_incoming_calls', 'call_hierarchy_provider', None),
    'callHierarchy/outgoingCalls': ('call_hierarchy_outgoing_calls', 'call_hierarchy_provider', None),
    'textDocument/codeAction': ('code_action', 'code_action_provider', None),
    'textDocument/completion': ('completion', 'completion_provider', None),
    'textDocument/diagnostic': ('pull_diagnostics', 'diagnostic_provider', None),
    'textDocument/foldingRange': ('folding_range', 'folding_range_provider', None),
    'textDocument/formatting': ('formatting', 'document_formatting_provider', None),
    'textDocument/rangeFormatting': ('range_formatting', 'document_range_formatting_provider', None),
    'textDocument/definition': ('goto_definition', 'definition_provider', None),
    'textDocument/typeDefinition': ('goto_type_definition', 'type_definition_provider', None),
    'textDocument/declaration': ('goto_declaration', 'declaration_provider', None),
    'textDocument/hover': ('hover', 'hover_provider', None),
    'textDocument/inlayHint': ('inlay_hint', 'inlay_hint_provider', None),
    'textDocument/references': ('find_references', 'references_provider', None),
    'textDocument/prepareRename': ('prepare_rename', 'rename_provider', 'prepare_provider'),
    'textDocument/rename': ('rename', 'rename_provider', None),
    'textDocument/selectionRange': ('selection_range', 'selection_range_provider', None),
    'textDocument/semanticTokens/full': ('semantic_tokens_full', 'semantic_tokens_provider', 'full'),
    'textDocument/semanticTokens/range': ('semantic_tokens_range', 'semantic_tokens_provider', 'range'),
    'textDocument/documentSymbol': ('document_symbol', 'document_symbol_provider', None),
}
# further capabilities of the protocol and the requests they announce
OTHER = {'signature_help_provider': 'textDocument/signatureHelp', 'implementation_provider': 'textDocument/implementation', 'document_highlight_provider': 'textDocument/documentHighlight',
         'workspace_symbol_provider': 'workspace/symbol', 'code_lens_provider': 'textDocument/codeLens', 'document_on_type_formatting_provider': 'textDocument/onTypeFormatting',
         'document_link_provider': 'textDocument/documentLink', 'color_provider': 'textDocument/documentColor', 'execute_command_provider': 'workspace/executeCommand',
         'moniker_provider': 'textDocument/moniker', 'linked_editing_range_provider': 'textDocument/linkedEditingRange', 'inline_value_provider': 'textDocument/inlineValue'}

def check(F, R):
    R.rule('(1) on every path of the server with valid parameters of method M the only service call is the handler of M, with the parameters of this request, and the result sent is the value it returned '
           '(an error exactly when the handler returned one); (2) the capabilities returned by initialize announce exactly the requests that are handled, full-text synchronisation, and no resolve, save or will-save support that nobody handles')
    R.assumptions += ['the table of LSP methods, capabilities and service methods in sa/checks/p07.py is read off the protocol specification 3.17']
    I, res, names = run_server(F)
    for p in I.analysed: R.sites.add(p)
    handled = set()
    for st, v in res:
        if st.mem.get(KIND) != 'req': continue
        m = method_of(st)
        calls = [e for e in st.mem.get(EV, ()) if e[0] == 'svc' and e[1] != 'initialize']
        if m is None or st.mem.get(JSON) == FALSE or m == 'shutdown':
            R.check(not calls, 'nocall:' + pathname(st), 'the service is called (%s) for %s' % (calls, pathname(st)))
            continue
        if m not in ROUTES:
            R.undec('route:' + m, 'method is not in the table'); handled.add(m); continue
        want = ROUTES[m][0]
        key = 'route:%s' % m
        if len(calls) != 1 or calls[0][1] != want or calls[0][2] != (('t', 'params', m),):
            R.bad(key, '%s is served by %s, expected exactly one call %s(params of the request)' % (m, [(c[1], c[2]) for c in calls] or 'nothing', want)); continue
        handled.add(m)
        t = ('t', 'svc', want, ('t', 'params', m))
        for r in responses(st):
            if r[0] != 'adt' or len(r[3]) != 3: continue
            rs, er = r[3][1], r[3][2]
            fallible = st.asm.get(('t', 'discr', t))
            if fallible is not None:
                if fallible == ('i', 0): good = rs == some(('t', 'json', ('t', 'fld', ('t', 'as', t, 0), 0)))
                else: good = er[0] == 'adt' and er[2] == 1
            else: good = rs == some(('t', 'json', t))
            R.check(good, key, 'the response to %s does not carry what %s returned: result %r error %r' % (m, want, rs, er), 'result = to_value(%s(params))' % want)
    R.count('routed methods', len(handled)); R.floor('routed methods', len(handled), 15)
    # initialisation: capabilities are those of the service
    inits = {e for st, v in res for e in st.mem.get(EV, ()) if e[0] == 'init'}
    for e in inits:
        R.check(e[1] == ('t', 'init.id') and e[2] == ('t', 'json', ('t', 'svc', 'initialize', ('t', 'parsed', ('t', 'init.raw')))), 'init', 'the answer to initialize is not the result of the service for these parameters: %r' % (e,))
    if not inits: R.bad('init', 'initialize is never answered')
    fields, paths = svc.capabilities(F)
    R.count('initialize paths', len(paths))
    for cap in paths:
        c = dict(zip(fields, cap))
        for m, (h, f, sub) in sorted(ROUTES.items()):
            on = advertised(F, c.get(f), sub)
            if on is None: R.undec('cap:' + m, repr(c.get(f))[:200]); continue
            if m in handled: R.check(on, 'cap:' + m, '%s is handled but not announced (%s%s)' % (m, f, '.' + sub if sub else ''))
            else: R.check(not on, 'cap:' + m, '%s is announced (%s%s) but not handled' % (m, f, '.' + sub if sub else ''))
        for f, m in OTHER.items():
            on = advertised(F, c.get(f), None)
            R.check(on == (m in handled), 'cap:' + m, '%s: announced=%s, handled=%s' % (m, on, m in handled))
        for f, sub in (('completion_provider', 'resolve_provider'), ('code_action_provider', 'resolve_provider'), ('inlay_hint_provider', 'resolve_provider')):
            R.check(not advertised(F, c.get(f), sub) or f == 'inlay_hint_provider', 'resolve:' + f, '%s announces resolve support, which is not handled' % f)
        ts = c.get('text_document_sync')
        oc, ch = opt(F, ts, 'open_close'), opt(F, ts, 'change')
        R.check(oc == some(TRUE), 'sync:open_close', 'open and close notifications are not requested: %r' % (oc,))
        R.check(ch == some(('t', 'scalar', 'lsp_types::TextDocumentSyncKind', 1)), 'sync:full', 'documents are not synchronised as full text: %r' % (ch,))
        for x in ('will_save', 'will_save_wait_until'): R.check(opt(F, ts, x) in (some(FALSE), NONE), 'sync:' + x, x + ' is announced but not handled')
        dp = c.get('diagnostic_provider')
        for x in ('workspace_diagnostics',):
            w = field(F, dp, x)
            R.check(w == FALSE, 'diag:' + x, 'workspace diagnostics are announced but not handled')
        pe = c.get('position_encoding')
        R.check(not advertised(F, pe, None), 'encoding', 'a position encoding is announced: %r' % (pe,))

def unwrap(v):
    """innermost options struct behind Some / enum wrappers"""
    n = 0
    while v is not None and v[0] == 'adt' and len(v[3]) == 1 and n < 6:
        v = v[3][0]; n += 1
    return v
def field(F, v, name):
    v = unwrap(v)
    if v is None or v[0] != 'adt': return None
    a = F.adts.get(v[1])
    if not a: return None
    f = a['v'][v[2]]['f']
    return v[3][f.index(name)] if name in f else None
def opt(F, v, name):
    x = field(F, v, name)
    if x is not None and isdefault(x): return NONE
    return x
def isdefault(v): return v[0] == 't' and v[1] == 'fld' and v[2][0] == 't' and v[2][1] == 'default'
def advertised(F, v, sub):
    if v is None: return False
    if isdefault(v) or v == NONE: return False
    if v[0] != 'adt': return None
    u = unwrap(v)
    if u == FALSE: return False
    if sub is None: return True
    if u == TRUE: return False
    x = field(F, v, sub)
    if x is None: return None
    return advertised(F, x, None)
