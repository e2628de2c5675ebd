From 4bb7bb416087a6ff4fe94a8fcbd81900506c5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:54 +0000
Subject: [PATCH 01/14] fix: keep text in the tree when error recovery meets a
 form feed or a broken string

---
 crates/parser/src/parser/token.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index c972ad0..0573a39 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -293,12 +293,23 @@ pub(super) fn error_token<'s>(
         '$' => ('$', take_while(0.., is_id_char)).take(),
         '(' | ')' if allow_parens => alt(("(", ")")),
         '(' | ')' => fail,
-        '"' => string_impl,
+        '"' => alt((string_impl, error_text)),
         c if is_id_char(c) => take_while(1.., is_id_char),
-        _ => take_till(1.., |c: char| c == '(' || c == ')' || c.is_ascii_whitespace()),
+        _ => error_text,
     }
     .map(|text| tok(ERROR, text))
 }
+fn error_text<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
+    // always take the first char, otherwise text that no other parser accepts will be lost
+    (
+        any,
+        take_till(0.., |c: char| {
+            c == '(' || c == ')' || c.is_ascii_whitespace()
+        }),
+    )
+        .take()
+        .parse_next(input)
+}
 
 pub(super) fn error_term<'s, const N: usize>(
     allowed_names: [&'static str; N],
-- 
2.43.0


From f548ffcb4b140c8872866c9177a7e6b243a5abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 02/14] fix: do not crash on an unterminated nested block
 comment

---
 crates/parser/src/parser/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 0573a39..2010b49 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -115,7 +115,7 @@ fn block_comment_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError
             (
                 take_until(0.., ("(;", ";)")),
                 dispatch! {peek(opt("(;"));
-                    Some(..) => opt(block_comment_impl).void(),
+                    Some(..) => block_comment_impl.void(),
                     None => empty,
                 },
             ),
-- 
2.43.0


From 0973b0df5ae0cd814b30ad4f41c6044f110b43fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:52 +0000
Subject: [PATCH 03/14] fix: answer requests with unknown methods or invalid
 params

---
 crates/server/src/server.rs | 128 +++++++++++++++++++++++++++++-------
 1 file changed, 105 insertions(+), 23 deletions(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 0965923..48b549c 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -1,5 +1,5 @@
 use lsp_server::{
-    Connection, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
+    Connection, ErrorCode, ExtractError, Message, Notification, Request, RequestId, Response, ResponseError,
 };
 use lsp_types::{
     notification::{
@@ -48,6 +48,7 @@ impl Server {
                     if conn.handle_shutdown(&req)? {
                         return Ok(());
                     }
+                    let id = req.id.clone();
                     match cast_req::<CallHierarchyPrepare>(req) {
                         Ok((id, params)) => {
                             conn.sender.send(Message::Response(Response {
@@ -60,7 +61,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyIncomingCalls>(req) {
                         Ok((id, params)) => {
@@ -74,7 +78,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CallHierarchyOutgoingCalls>(req) {
                         Ok((id, params)) => {
@@ -88,7 +95,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<CodeActionRequest>(req) {
                         Ok((id, params)) => {
@@ -102,7 +112,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Completion>(req) {
                         Ok((id, params)) => {
@@ -116,7 +129,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentDiagnosticRequest>(req) {
                         Ok((id, params)) => {
@@ -130,7 +146,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<FoldingRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -144,7 +163,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Formatting>(req) {
                         Ok((id, params)) => {
@@ -158,7 +180,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<RangeFormatting>(req) {
                         Ok((id, params)) => {
@@ -172,7 +197,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDefinition>(req) {
                         Ok((id, params)) => {
@@ -186,7 +214,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoTypeDefinition>(req) {
                         Ok((id, params)) => {
@@ -200,7 +231,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<GotoDeclaration>(req) {
                         Ok((id, params)) => {
@@ -214,7 +248,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<HoverRequest>(req) {
                         Ok((id, params)) => {
@@ -226,7 +263,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<InlayHintRequest>(req) {
                         Ok((id, params)) => {
@@ -240,7 +280,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<References>(req) {
                         Ok((id, params)) => {
@@ -254,7 +297,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<PrepareRenameRequest>(req) {
                         Ok((id, params)) => {
@@ -268,7 +314,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<Rename>(req) {
                         Ok((id, params)) => {
@@ -291,7 +340,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SelectionRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -305,7 +357,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensFullRequest>(req) {
                         Ok((id, params)) => {
@@ -319,7 +374,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<SemanticTokensRangeRequest>(req) {
                         Ok((id, params)) => {
@@ -333,7 +391,10 @@ impl Server {
                             continue;
                         }
                         Err(ExtractError::MethodMismatch(r)) => req = r,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                     match cast_req::<DocumentSymbolRequest>(req) {
                         Ok((id, params)) => {
@@ -346,8 +407,15 @@ impl Server {
                             }))?;
                             continue;
                         }
-                        Err(ExtractError::MethodMismatch(..)) => continue,
-                        Err(ExtractError::JsonError { .. }) => continue,
+                        Err(ExtractError::MethodMismatch(req)) => {
+                            let message = format!("unknown request: {}", req.method);
+                            reply_error(&conn, id, ErrorCode::MethodNotFound, message)?;
+                            continue;
+                        }
+                        Err(ExtractError::JsonError { error, .. }) => {
+                            reply_error(&conn, id, ErrorCode::InvalidParams, error.to_string())?;
+                            continue;
+                        }
                     }
                 }
                 Message::Notification(mut notification) => {
@@ -435,6 +503,20 @@ impl Server {
     }
 }
 
+fn reply_error(
+    conn: &Connection,
+    id: RequestId,
+    code: ErrorCode,
+    message: String,
+) -> anyhow::Result<()> {
+    conn.sender.send(Message::Response(Response::new_err(
+        id,
+        code as i32,
+        message,
+    )))?;
+    Ok(())
+}
+
 fn cast_req<R>(req: Request) -> Result<(RequestId, R::Params), ExtractError<Request>>
 where
     R: lsp_types::request::Request,
-- 
2.43.0


From bba85d8b48d3c02cde0b564afb2ce8ad5530f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:52 +0000
Subject: [PATCH 04/14] fix: use the latest full text when a change
 notification carries several

---
 crates/server/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/server/src/server.rs b/crates/server/src/server.rs
index 48b549c..0dac9ee 100644
--- a/crates/server/src/server.rs
+++ b/crates/server/src/server.rs
@@ -468,7 +468,7 @@ impl Server {
         params: DidChangeTextDocumentParams,
         conn: &Connection,
     ) -> anyhow::Result<()> {
-        if let Some(change) = params.content_changes.first() {
+        if let Some(change) = params.content_changes.last() {
             self.service
                 .commit(params.text_document.uri.clone(), change.text.clone());
             if !self.support_pull_diagnostics {
-- 
2.43.0


From 439c0e07f3141617c4cf17910c958cf60eceb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:51 +0000
Subject: [PATCH 05/14] fix: rename only the identifiers that have the old name

---
 crates/service/src/features/rename.rs | 69 ++++++++++++---------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/crates/service/src/features/rename.rs b/crates/service/src/features/rename.rs
index b978d7f..13aade0 100644
--- a/crates/service/src/features/rename.rs
+++ b/crates/service/src/features/rename.rs
@@ -3,14 +3,12 @@ use crate::{
     binder::{SymbolItemKind, SymbolTablesCtx},
     files::FilesCtx,
     helpers,
-    idx::IdentsCtx,
     LanguageService,
 };
 use lsp_types::{
     PrepareRenameResponse, RenameParams, TextDocumentPositionParams, TextEdit, WorkspaceEdit,
 };
-use rowan::ast::support;
-use std::collections::HashMap;
+use std::{collections::HashMap, iter};
 use wat_parser::is_id_char;
 use wat_syntax::{SyntaxKind, SyntaxNode, SyntaxToken};
 
@@ -65,54 +63,37 @@ impl LanguageService {
         let root = SyntaxNode::new_root(self.root(uri));
         let symbol_table = self.symbol_table(uri);
 
-        let old_name = self.ident(ident_token.text().to_string());
+        let old_name = ident_token.text();
         let symbol_key = ident_token.parent()?.into();
         let symbol = symbol_table
             .symbols
             .iter()
             .find(|symbol| symbol.key == symbol_key)?;
+        let block_def = match symbol.kind {
+            SymbolItemKind::BlockDef => Some(symbol),
+            SymbolItemKind::BlockRef => symbol_table.find_block_def(&symbol_key),
+            _ => None,
+        };
         let text_edits = symbol_table
             .symbols
             .iter()
             .filter(|sym| match &sym.kind {
-                SymbolItemKind::Func
-                | SymbolItemKind::Call
-                | SymbolItemKind::Param
-                | SymbolItemKind::Local
-                | SymbolItemKind::LocalRef
-                | SymbolItemKind::Type
-                | SymbolItemKind::TypeUse
-                | SymbolItemKind::GlobalDef
-                | SymbolItemKind::GlobalRef
-                | SymbolItemKind::MemoryDef
-                | SymbolItemKind::MemoryRef
-                | SymbolItemKind::TableDef
-                | SymbolItemKind::TableRef => {
-                    symbol.region == sym.region
-                        && symbol.idx.name.is_some_and(|name| name == old_name)
-                }
-                SymbolItemKind::BlockDef => {
-                    symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &symbol_key == ref_key && def_key == &sym.key
-                        })
-                }
+                SymbolItemKind::Module => false,
+                SymbolItemKind::BlockDef => block_def == Some(*sym),
                 SymbolItemKind::BlockRef => {
                     symbol == *sym
-                        || symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                            &sym.key == ref_key && def_key == &symbol.key
-                        })
-                        || symbol_table
-                            .find_block_def(&symbol_key)
-                            .is_some_and(|def_symbol| {
-                                symbol_table.blocks.iter().any(|(ref_key, def_key, _)| {
-                                    &sym.key == ref_key && def_key == &def_symbol.key
-                                })
-                            })
+                        || block_def.is_some()
+                            && symbol_table.find_block_def(&sym.key) == block_def
+                }
+                _ => {
+                    !matches!(
+                        symbol.kind,
+                        SymbolItemKind::BlockDef | SymbolItemKind::BlockRef
+                    ) && symbol.region == sym.region
                 }
-                SymbolItemKind::Module => false,
             })
-            .filter_map(|sym| support::token(&sym.key.ptr.to_node(&root), SyntaxKind::IDENT))
+            .flat_map(|sym| get_ident_tokens(&sym.key.ptr.to_node(&root)))
+            .filter(|token| token.text() == old_name)
             .map(|token| TextEdit {
                 range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                 new_text: params.new_name.clone(),
@@ -127,3 +108,15 @@ impl LanguageService {
         })
     }
 }
+
+/// Blocks can repeat their label after `else` and `end`.
+fn get_ident_tokens(node: &SyntaxNode) -> impl Iterator<Item = SyntaxToken> {
+    iter::once(node.clone())
+        .chain(
+            node.children()
+                .filter(|child| child.kind() == SyntaxKind::BLOCK_IF_ELSE),
+        )
+        .flat_map(|node| node.children_with_tokens())
+        .filter_map(|element| element.into_token())
+        .filter(|token| token.kind() == SyntaxKind::IDENT)
+}
-- 
2.43.0


From 703f00d151e63636cab7b64998d34bac9b4c2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:31 +0000
Subject: [PATCH 06/14] fix: resolve labels through every enclosing block

---
 crates/service/src/binder.rs | 38 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 79a2b49..24327e4 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -291,25 +291,25 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                                 )
                             })
                             .for_each(|symbol| {
-                                symbols.push(symbol.clone());
-                                let mut current = &symbol;
-                                let mut levels = 0;
-                                while let Some(
-                                    parent @ SymbolItem {
-                                        key,
-                                        kind: SymbolItemKind::BlockDef,
-                                        ..
-                                    },
-                                ) = symbols.iter().find(|sym| {
-                                    sym.kind == SymbolItemKind::BlockDef
-                                        && sym.key == current.region
-                                }) {
-                                    let mut idx = parent.idx.clone();
-                                    idx.num = Some(levels);
-                                    blocks.push((symbol.key.clone(), key.clone(), idx));
-                                    current = parent;
-                                    levels += 1;
-                                }
+                                blocks.extend(
+                                    node.ancestors()
+                                        .filter(|node| {
+                                            matches!(
+                                                node.kind(),
+                                                SyntaxKind::BLOCK_BLOCK
+                                                    | SyntaxKind::BLOCK_LOOP
+                                                    | SyntaxKind::BLOCK_IF
+                                            )
+                                        })
+                                        .zip(0..)
+                                        .map(|(block, level)| {
+                                            let name = token(&block, SyntaxKind::IDENT)
+                                                .map(|token| db.ident(token.text().to_string()));
+                                            let num = Some(level);
+                                            (symbol.key.clone(), block.into(), Idx { num, name })
+                                        }),
+                                );
+                                symbols.push(symbol);
                             });
                     }
                     Some(
-- 
2.43.0


From d653c2610e5ad78d9d0d1a58b6eb397960e54112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:26 +0000
Subject: [PATCH 07/14] fix: check operands of calls whose params come from a
 type use

---
 crates/service/src/checker/typeck.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/checker/typeck.rs b/crates/service/src/checker/typeck.rs
index 616fcdb..dd2313c 100644
--- a/crates/service/src/checker/typeck.rs
+++ b/crates/service/src/checker/typeck.rs
@@ -15,6 +15,7 @@ use rowan::{
     },
     TextRange,
 };
+use std::iter;
 use wat_syntax::{
     ast::{Instr, PlainInstr},
     SyntaxKind, SyntaxNode,
@@ -299,7 +300,8 @@ fn resolve_expected_types(
                     symbol.key.ptr.text_range(),
                     "parameter originally defined here".into(),
                 ))
-            });
+            })
+            .chain(iter::repeat(None)); // params may come from the referenced type
         service.get_func_sig(uri, func.clone().into()).map(|sig| {
             sig.params
                 .iter()
-- 
2.43.0


From 3ad43fad7d0e2ff7b36ca6a3ad84944f4e32f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:59 +0000
Subject: [PATCH 08/14] fix: bind exported globals and table uses

---
 crates/service/src/binder.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/service/src/binder.rs b/crates/service/src/binder.rs
index 24327e4..cc6880c 100644
--- a/crates/service/src/binder.rs
+++ b/crates/service/src/binder.rs
@@ -425,7 +425,23 @@ fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTab
                     symbols.push(symbol);
                 }
             }
-            SyntaxKind::EXPORT_DESC_TABLE => {
+            SyntaxKind::EXPORT_DESC_GLOBAL => {
+                if let Some(symbol) = node
+                    .ancestors()
+                    .find(|node| node.kind() == SyntaxKind::MODULE)
+                    .map(SymbolItemKey::from)
+                    .zip(
+                        node.children()
+                            .find(|child| child.kind() == SyntaxKind::INDEX),
+                    )
+                    .and_then(|(region, index)| {
+                        create_ref_symbol(db, index, region, SymbolItemKind::GlobalRef)
+                    })
+                {
+                    symbols.push(symbol);
+                }
+            }
+            SyntaxKind::EXPORT_DESC_TABLE | SyntaxKind::TABLE_USE => {
                 if let Some(symbol) = node
                     .ancestors()
                     .find(|node| node.kind() == SyntaxKind::MODULE)
-- 
2.43.0


From 2c2f32209074026149ab8e1c7dfb01e10601ff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:59 +0000
Subject: [PATCH 09/14] fix: report duplicated table names

---
 crates/service/src/checker/dup_names.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/service/src/checker/dup_names.rs b/crates/service/src/checker/dup_names.rs
index ceca7a3..2ad1a1c 100644
--- a/crates/service/src/checker/dup_names.rs
+++ b/crates/service/src/checker/dup_names.rs
@@ -32,6 +32,7 @@ pub fn check(
                         | SymbolItemKind::Type
                         | SymbolItemKind::GlobalDef
                         | SymbolItemKind::MemoryDef
+                        | SymbolItemKind::TableDef
                         | SymbolItemKind::BlockDef
                 )
             })
-- 
2.43.0


From 42e377d42636b2c2f875def165a151dc71feb418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:43 +0000
Subject: [PATCH 10/14] fix: count the lines of every token when encoding
 semantic tokens

---
 crates/service/src/features/semantic_tokens.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/features/semantic_tokens.rs b/crates/service/src/features/semantic_tokens.rs
index 8519e5b..6729402 100644
--- a/crates/service/src/features/semantic_tokens.rs
+++ b/crates/service/src/features/semantic_tokens.rs
@@ -72,32 +72,22 @@ impl LanguageService {
         let line_index = self.line_index(uri);
         tokens
             .filter_map(|token| {
-                if token.kind() == SyntaxKind::WHITESPACE {
-                    let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let lines = token.text().chars().filter(|c| *c == '\n').count() as u32;
+                let Some(token_type) = self.token_type(uri, &token) else {
                     if lines > 0 {
                         *delta_line += lines;
                         *prev_start = 0;
                     }
                     return None;
-                }
-                let token_type = self.token_type(uri, &token)?;
-                let block_comment_lines = if token.kind() == SyntaxKind::BLOCK_COMMENT {
-                    Some(token.text().chars().filter(|c| *c == '\n').count() as u32)
-                } else {
-                    None
                 };
                 let range = token.text_range();
                 let col = line_index.line_col(range.start()).col;
                 Some(SemanticToken {
-                    delta_line: mem::replace(delta_line, block_comment_lines.unwrap_or_default()),
+                    delta_line: mem::replace(delta_line, lines),
                     delta_start: col
                         - mem::replace(
                             prev_start,
-                            if block_comment_lines.is_some_and(|lines| lines > 0) {
-                                0
-                            } else {
-                                col
-                            },
+                            if lines > 0 { 0 } else { col },
                         ),
                     length: range.len().into(),
                     token_type,
-- 
2.43.0


From 506229005baefcdc984d80cb7925ccb9c5c47f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:05 +0000
Subject: [PATCH 11/14] fix: find only the references that resolve to the block

---
 crates/service/src/features/references.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/service/src/features/references.rs b/crates/service/src/features/references.rs
index 06d1dfb..3e114db 100644
--- a/crates/service/src/features/references.rs
+++ b/crates/service/src/features/references.rs
@@ -370,15 +370,9 @@ fn get_block_refs(
     }
     locations.extend(
         symbol_table
-            .blocks
+            .symbols
             .iter()
-            .filter(|(_, def_key, _)| def_key == &def_symbol.key)
-            .filter_map(|(ref_key, _, _)| {
-                symbol_table
-                    .symbols
-                    .iter()
-                    .find(|symbol| &symbol.key == ref_key)
-            })
+            .filter(|symbol| symbol_table.find_block_def(&symbol.key) == Some(def_symbol))
             .map(|symbol| create_location_by_symbol(params, line_index, symbol, root)),
     );
     locations
-- 
2.43.0


From 99595c6bca05a8b266e17a6deeee5f6eb0077578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:10 +0000
Subject: [PATCH 12/14] fix: accept positions after the end of the text

---
 crates/service/src/helpers.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/helpers.rs b/crates/service/src/helpers.rs
index 6dd22dc..f8075ee 100644
--- a/crates/service/src/helpers.rs
+++ b/crates/service/src/helpers.rs
@@ -15,23 +15,23 @@ pub fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Ran
 }
 
 pub fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
-    line_index.offset(LineCol {
-        line: pos.line,
-        col: pos.character,
-    })
-}
-
-pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
     line_index
         .offset(LineCol {
-            line: range.start.line,
-            col: range.start.character,
+            line: pos.line,
+            col: 0,
+        })
+        .map(|start| {
+            start
+                .checked_add(TextSize::new(pos.character))
+                .map_or(line_index.len(), |offset| offset.min(line_index.len()))
         })
-        .zip(line_index.offset(LineCol {
-            line: range.end.line,
-            col: range.end.character,
-        }))
-        .map(|(start, end)| TextRange::new(TextSize::new(start.into()), TextSize::new(end.into())))
+}
+
+pub fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
+    lsp_pos_to_rowan_pos(line_index, range.start)
+        .zip(lsp_pos_to_rowan_pos(line_index, range.end))
+        .filter(|(start, end)| start <= end)
+        .map(|(start, end)| TextRange::new(start, end))
 }
 
 pub(crate) mod ast {
-- 
2.43.0


From b5a10bcf409d3590ec58014192cd55a377bf65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:19 +0000
Subject: [PATCH 13/14] fix: accept apostrophes in identifiers

---
 crates/parser/src/parser/token.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/parser/src/parser/token.rs b/crates/parser/src/parser/token.rs
index 2010b49..51518fc 100644
--- a/crates/parser/src/parser/token.rs
+++ b/crates/parser/src/parser/token.rs
@@ -166,10 +166,7 @@ fn ident_impl<'s>(input: &mut Input<'s>) -> PResult<&'s str, SyntaxError> {
 pub fn is_id_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || c.is_ascii_punctuation()
-            && !matches!(
-                c,
-                '\'' | '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}'
-            )
+            && !matches!(c, '"' | ',' | ';' | '(' | ')' | '[' | ']' | '{' | '}')
 }
 
 pub(super) fn string(input: &mut Input) -> GreenResult {
-- 
2.43.0


From 27ade1e1084f141db2bcf807837265fb461496dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:31 +0000
Subject: [PATCH 14/14] fix: keep selection ranges aligned with the requested
 positions

---
 .../service/src/features/selection_range.rs   | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/service/src/features/selection_range.rs b/crates/service/src/features/selection_range.rs
index bef3700..5b45c15 100644
--- a/crates/service/src/features/selection_range.rs
+++ b/crates/service/src/features/selection_range.rs
@@ -1,7 +1,7 @@
 use super::{find_meaningful_token, FilesCtx};
 use crate::{helpers, LanguageService};
 use line_index::LineIndex;
-use lsp_types::{SelectionRange, SelectionRangeParams};
+use lsp_types::{Range, SelectionRange, SelectionRangeParams};
 use wat_syntax::SyntaxNode;
 
 impl LanguageService {
@@ -13,19 +13,30 @@ impl LanguageService {
             params
                 .positions
                 .into_iter()
-                .filter_map(|position| {
-                    find_meaningful_token(self, uri, &root, position).map(|token| SelectionRange {
-                        range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
-                        parent: token.parent().map(|parent| {
-                            Box::new(SelectionRange {
-                                range: helpers::rowan_range_to_lsp_range(
-                                    &line_index,
-                                    parent.text_range(),
-                                ),
-                                parent: get_parent_range(parent, &line_index),
-                            })
-                        }),
-                    })
+                .map(|position| {
+                    // The n-th range in the response belongs to the n-th position in the request,
+                    // so positions without token get an empty range instead of being skipped.
+                    find_meaningful_token(self, uri, &root, position).map_or_else(
+                        || SelectionRange {
+                            range: Range::new(position, position),
+                            parent: None,
+                        },
+                        |token| SelectionRange {
+                            range: helpers::rowan_range_to_lsp_range(
+                                &line_index,
+                                token.text_range(),
+                            ),
+                            parent: token.parent().map(|parent| {
+                                Box::new(SelectionRange {
+                                    range: helpers::rowan_range_to_lsp_range(
+                                        &line_index,
+                                        parent.text_range(),
+                                    ),
+                                    parent: get_parent_range(parent, &line_index),
+                                })
+                            }),
+                        },
+                    )
                 })
                 .collect(),
         )
-- 
2.43.0

