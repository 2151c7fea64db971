From 49efb2fef12014164fde83a498bac27bb0fee11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 01/21] fix: tokenizer panics or never terminates at end of
 input and on invalid UTF-8

A comment without a trailing newline, a file ending in ':' or '?' and
non-UTF-8 bytes indexed out of bounds or unwrapped an error; a lexeme that
touches the end of the file lost its last byte, which was then returned
forever. Comments are now skipped with whitespace, lexemes may end with the
file and undecodable lexemes are invalid identifiers.
---
 src/lexical_analyzer/tokenizer.rs | 49 +++++++++++++------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..f80d1a6 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -119,15 +119,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
-                        self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -183,7 +174,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -199,27 +189,19 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len()
+            && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
+        let lexeme = &self.program[init_cur_pos..cursor_pos];
+        match from_utf8(lexeme) {
+            Ok(valid_lexeme) if !is_invalid => Ok((valid_lexeme, cursor_pos)),
+            _ => Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
-                    .to_string(),
+                lexeme: String::from_utf8_lossy(lexeme).to_string(),
                 position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+            }),
         }
     }
 
@@ -231,10 +213,19 @@ impl<'a> LexicalAnalyzer<'a> {
         Some(current)
     }
 
+    // skips whitespaces and comments (which may end with the file)
     fn skip_whitespaces(&self) {
+        let mut in_comment = false;
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
-            if !LexicalAnalyzer::is_whitespace(&current) {
+            if current == ';' {
+                in_comment = true;
+            } else if current == '\n' {
+                in_comment = false;
+            }
+            if in_comment {
+                // every character up to the end of the line is ignored
+            } else if !LexicalAnalyzer::is_whitespace(&current) {
                 break;
             } else if current == '\n' {
                 self.last_token_pos.set(TokenPosition {
-- 
2.43.0


From 7a0cc43ae7498610b0353a43392568ede02aa970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:54 +0000
Subject: [PATCH 02/21] fix: existential and implication formulas no longer
 panic the declaration check

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..5cfc6f3 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(antecedents, consequents) => {
+            for f in antecedents.iter().chain(consequents) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From 82d2410c77189e96464593210119ad3b5d39e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:13 +0000
Subject: [PATCH 03/21] fix: report a stray token in a problem file as a
 syntactic error instead of panicking

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..1d2b956 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: "either ')' to close the problem definition, or '(' to start defining new components".to_string(),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From f767b76d91f927007ea7c3e24881fd460b8ad2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:31 +0000
Subject: [PATCH 04/21] fix: exchanging domain and problem file is reported as
 an error instead of panicking

---
 src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..2fdee82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,15 +41,13 @@ impl HDDLAnalyzer {
                             let warnings = problem_semantic_verifier.verify_problem()?;
                             Ok(warnings)
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(wrong_file("problem", "domain")),
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(wrong_file("domain", "problem"))
         }
     }
 
@@ -74,7 +72,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file("domain", "problem")),
         }
     }
 
@@ -99,9 +97,7 @@ impl HDDLAnalyzer {
                             return Ok(serde_json::to_string_pretty(&root).unwrap());
 
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(wrong_file("problem", "domain")),
                     }
                 }
                 None => {
@@ -113,7 +109,16 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(wrong_file("domain", "problem")),
         }
     }
 }
+
+// the files are given in the wrong roles (e.g., the problem in place of the domain)
+fn wrong_file(expected: &str, found: &str) -> ParsingError {
+    ParsingError::Syntactic(SyntacticError {
+        expected: format!("definition of a {}", expected),
+        found: format!("definition of a {}", found),
+        position: TokenPosition { line: 1 },
+    })
+}
-- 
2.43.0


From e64ec60d5221c979f705c6932daad2f9f27a8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:50 +0000
Subject: [PATCH 05/21] fix: type error on a predicate argument names the
 object's declared type

It used the (absent) type of the occurrence in the init section, so a typed
object passed to an untyped parameter reached unreachable!() in Display.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From e8c099e90fbb6014a472954ed81258c0b4949564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:34 +0000
Subject: [PATCH 06/21] fix: duplicate definition errors no longer crash the
 language server

The dummy location Url::parse("//").unwrap() always panics; the message
already names both lines.
---
 src/language_server/diagnostic_utils.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..0085851 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -10,7 +10,6 @@ use crate::SemanticErrorType;
 use tower_lsp::lsp_types::DocumentDiagnosticReportResult;
 use tower_lsp::lsp_types::{FullDocumentDiagnosticReport, DocumentDiagnosticReport};
 use tower_lsp::lsp_types::RelatedFullDocumentDiagnosticReport;
-use tower_lsp::lsp_types::{DiagnosticRelatedInformation, Location, Url};
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 
 
@@ -196,19 +195,8 @@ impl From<ParsingError> for Diagnostic {
                             None, 
                             source, 
                             semantic_error.to_string(), 
-                            Some(vec![
-                                DiagnosticRelatedInformation {
-                                    location: Location {
-                                        // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
-                                        range: Range {
-                                            start: Position { line: duplicate.first_pos.line - 1, character: 0 },
-                                            end: Position { line: duplicate.first_pos.line, character: 0 }
-                                        }
-                                    },
-                                    message: semantic_error.to_string()
-                                }
-                            ]), 
+                            // TODO: relate the first definition once the URI is available here
+                            None, 
                             None
                         )
                     }
-- 
2.43.0


From b9917649235cc2ae28bfa8bc013d04237f91e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 07/21] fix: saving an unreadable, non-file or percent-encoded
 document no longer crashes the server

---
 src/language_server/request_handler.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..ffdb696 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -70,15 +70,20 @@ impl LanguageServer for RequestHandler {
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
+        let uri = params.text_document.uri;
         // get the saved file content
-        let text = match params.text {
-            Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
+        let text = match (params.text, uri.to_file_path()) {
+            (Some(content), _) => content.into_bytes(),
+            (None, Ok(path)) => match tokio::fs::read(path).await {
+                Ok(content) => content,
+                // the last synced content stays in place
+                Err(_) => return,
+            },
+            // not a file, the last synced content stays in place
+            (None, Err(_)) => return,
         };
         // sync the file
-        self.sync(params.text_document.uri, text).await;
+        self.sync(uri, text).await;
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-- 
2.43.0


From aea2ae7c8e6f28d720d4166a8659eef101ebe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 08/21] fix: a save that reads the file no longer overwrites
 text synced after it

---
 src/language_server/request_handler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index ffdb696..d130c6f 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -71,6 +71,8 @@ impl LanguageServer for RequestHandler {
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
         let uri = params.text_document.uri;
+        // later notifications must not be overtaken while the file is being read
+        let mut documents = self.documents.write().await;
         // get the saved file content
         let text = match (params.text, uri.to_file_path()) {
             (Some(content), _) => content.into_bytes(),
@@ -83,7 +85,7 @@ impl LanguageServer for RequestHandler {
             (None, Err(_)) => return,
         };
         // sync the file
-        self.sync(uri, text).await;
+        documents.insert(uri, text);
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-- 
2.43.0


From 69261326be891b7cf8ffbcdd291bf15d98528ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:14 +0000
Subject: [PATCH 09/21] fix: the last of several full-text changes is the
 document's content

---
 src/language_server/request_handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index d130c6f..a2f9af9 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -91,7 +91,8 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        // every change carries the full text, hence the last one is the final state
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From c926a2d29d1b5822c52fcd3f6acf52b402ef8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:52 +0000
Subject: [PATCH 10/21] fix: diagnosing a problem survives non-file documents
 and unreadable folders or siblings

---
 src/language_server/request_handler.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index a2f9af9..5bc9b09 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -106,7 +106,7 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
+                let file_path = params.text_document.uri.to_file_path().ok();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -122,12 +122,23 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        let root_folder = match file_path.as_ref().and_then(|p| p.parent()) {
+                            Some(folder) => folder,
+                            // not a file, hence there is no folder to search for the domain
+                            None => return Ok(diagnose_problem(None, document)),
+                        };
+                        let mut files = match tokio::fs::read_dir(root_folder).await {
+                            Ok(files) => files,
+                            Err(_) => return Ok(diagnose_problem(None, document)),
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let content = match tokio::fs::read(entry.path()).await {
+                                        Ok(content) => content,
+                                        // File is unreadable (e.g., deleted in the meantime)
+                                        Err(_) => continue,
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -135,7 +146,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -155,7 +166,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From f74e4a739e4da8437954df5947a2b751ca085636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:11 +0000
Subject: [PATCH 11/21] fix: the domain used for a problem does not depend on
 directory order

---
 src/language_server/request_handler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 5bc9b09..6bc0696 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -131,10 +131,16 @@ impl LanguageServer for RequestHandler {
                             Ok(files) => files,
                             Err(_) => return Ok(diagnose_problem(None, document)),
                         };
+                        let mut paths = vec![];
                         while let Ok(Some(entry)) = files.next_entry().await {
-                            match entry.path().extension() {
+                            paths.push(entry.path());
+                        }
+                        // the choice among several domains must not depend on the directory order
+                        paths.sort();
+                        for path in paths {
+                            match path.extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = match tokio::fs::read(entry.path()).await {
+                                    let content = match tokio::fs::read(&path).await {
                                         Ok(content) => content,
                                         // File is unreadable (e.g., deleted in the meantime)
                                         Err(_) => continue,
-- 
2.43.0


From 17f2d83dba0be3b5fffb5adc53e52ada89831ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 12/21] fix: nullable tasks no longer depend on hash iteration
 order

The unit reachability step picked an arbitrary non-nullable subtask of a
method and the loop could stop before the fixpoint, so verify's warnings and
the metadata differed between runs on the same file. Compute the least
fixpoint of the definition instead.
---
 src/semantic_analyzer/tdg.rs | 127 +++++------------------------------
 1 file changed, 16 insertions(+), 111 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..3bd6e97 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -400,121 +400,26 @@ impl<'a> TDG<'a> {
             .0
     }
 
+    // least set of tasks that have a method all of whose subtasks are in the set
     pub fn compute_nullables(&self) -> HashSet<&'a str> {
-        // nullable base case
-        let mut nullables: HashSet<usize> = self
-            .edges_from_tasks
-            .iter()
-            .filter_map(|(task, methods)| {
-                for method in methods.iter() {
-                    let tasks = self.edges_to_tasks.get(method).unwrap();
-                    if tasks.len() == 0 {
-                        return Some(*task);
-                    }
-                }
-                None
-            })
-            .collect();
-
-        // unit reachability base case
-        let mut unit_reachability: HashMap<usize, HashSet<usize>> = HashMap::new();
-        for (t, t_type) in self.tasks.iter() {
-            match *t_type {
-                TaskType::Primitive => {}
-                TaskType::Compound => {
-                    let task_index = self.get_task_index(t);
-                    let mut value = HashSet::from([task_index]);
-                    if let Some(methods) = self.edges_from_tasks.get(&task_index) {
-                        for method in methods {
-                            let tasks = self.edges_to_tasks.get(method).unwrap();
-                            if tasks.len() == 1 {
-                                value.insert(*tasks.iter().next().unwrap());
-                            }
-                        }
-                    }
-
-                    unit_reachability.insert(task_index, value);
-                }
-            }
-        }
-        let mut changed_nullables = true;
-        let mut changed_unit_reachability = true;
-        let mut new_nullables = HashSet::new();
-        let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
-        while changed_nullables || changed_unit_reachability {
-            // nullables induction step
-            for (t, methods) in self.edges_from_tasks.iter() {
-                for method in methods {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        if tasks.iter().all(|x| match unit_reachability.get(x) {
-                            Some(set) => {
-                                let intersection: HashSet<&usize> =
-                                    set.intersection(&nullables).collect();
-                                intersection.len() != 0
-                            }
-                            None => false,
-                        }) {
-                            new_nullables.insert(*t);
-                        }
-                    }
-                }
-            }
-
-            // unit reachability induction step
-            for (c, previous_reachables) in unit_reachability.iter() {
-                let mut change = previous_reachables.clone();
-                for previous_reachable in previous_reachables {
-                    match unit_reachability.get(previous_reachable) {
-                        Some(tasks) => {
-                            change = change.union(tasks).cloned().collect();
-                        }
-                        None => {}
-                    }
+        let mut nullables: HashSet<usize> = HashSet::new();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                let is_nullable = methods.iter().any(|method| {
+                    let subtasks = self.edges_to_tasks.get(method).unwrap();
+                    subtasks.iter().all(|x| nullables.contains(x))
+                });
+                if is_nullable && nullables.insert(*task) {
+                    changed = true;
                 }
-                for method in self.edges_from_tasks.get(c).unwrap() {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        let mut not_nullable = None;
-                        for task in tasks {
-                            if !nullables.contains(task) {
-                                if not_nullable.is_none() {
-                                    not_nullable = Some(*task)
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                        if let Some(val) = not_nullable {
-                            change.insert(val);
-                        }
-                    }
-                }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
-                    new_unit_reachable.insert(*c, change);
-                }
-            }
-
-            // commit to changes
-            //// nullables
-            if new_nullables.len() == nullables.len() {
-                changed_nullables = false;
-            } else {
-                for n in new_nullables.iter() {
-                    nullables.insert(*n);
-                }
-            }
-            //// unit reachability
-            for (task, new_reachable) in new_unit_reachable.iter() {
-                let prev = unit_reachability.get_mut(&task).unwrap();
-                prev.extend(new_reachable);
             }
         }
-        let mut result = HashSet::new();
-        for task_index in nullables {
-            result.insert(self.tasks[task_index].0);
-        }
-        result
+        nullables
+            .iter()
+            .map(|task_index| self.tasks[*task_index].0)
+            .collect()
     }
 }
 
-- 
2.43.0


From 6389004466589c483e3884c77b7acf51f842dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 13/21] fix: warnings, metadata and JSON are printed in the
 same order in every run

They followed the randomly seeded iteration order of HashMap and HashSet, and
the reported recursion (class and cycle) depended on the order of the search.
---
 src/lib.rs                                    | 10 ++++---
 .../analyzers/domain_analyzer.rs              |  2 +-
 src/semantic_analyzer/tdg.rs                  | 30 +++++++++----------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2fdee82..5c6fed6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -63,9 +63,11 @@ impl HDDLAnalyzer {
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
+                let mut nullables: Vec<String> = nullables.iter().map(|x| x.to_string()).collect();
+                nullables.sort();
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables,
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
@@ -88,7 +90,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -101,7 +103,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..57e8f1b 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -199,7 +199,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
+        for task in self.domain.compound_tasks.iter() {
             let reachables = tdg.reachable(&task.name);
             if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 3bd6e97..3853852 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,12 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +22,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +49,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
@@ -273,7 +273,7 @@ impl<'a> TDG<'a> {
                 assert_eq!(orderings.len(), method.subtasks.len() - 1);
                 // construct task id mappings
                 let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
+                let mut task_occurances: BTreeSet<&str> = BTreeSet::new();
                 for subtask in method.subtasks.iter() {
                     match &subtask.id {
                         Some(id) => {
@@ -286,13 +286,13 @@ impl<'a> TDG<'a> {
                     }
                 }
                 // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
+                let mut adjacency: HashMap<&str, BTreeSet<&str>> = HashMap::new();
                 for (e1, e2) in orderings {
                     if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
+                        let neighbors: &mut BTreeSet<&str> = adjacency.get_mut(e1).unwrap();
                         neighbors.insert(&e2);
                     } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
+                        adjacency.insert(&e1, BTreeSet::from([*e2]));
                     }
                 }
                 // find tasks that are explicitly ordered after "task"
@@ -346,7 +346,7 @@ impl<'a> TDG<'a> {
                 assert_eq!(orderings.len(), method.subtasks.len() - 1);
                 // construct task id mappings
                 let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
+                let mut task_occurances: BTreeSet<&str> = BTreeSet::new();
                 for subtask in method.subtasks.iter() {
                     match &subtask.id {
                         Some(id) => {
@@ -359,13 +359,13 @@ impl<'a> TDG<'a> {
                     }
                 }
                 // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
+                let mut adjacency: HashMap<&str, BTreeSet<&str>> = HashMap::new();
                 for (e1, e2) in orderings {
                     if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
+                        let neighbors: &mut BTreeSet<&str> = adjacency.get_mut(e1).unwrap();
                         neighbors.insert(e2);
                     } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
+                        adjacency.insert(e1, BTreeSet::from([*e2]));
                     }
                 }
                 // find tasks that are explicitly ordered after "task"
-- 
2.43.0


From 873894dcf97c0d1679db2c0e0e2dad5fbbb98318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:55 +0000
Subject: [PATCH 14/21] fix: metadata reports undefined tasks and subtasks
 instead of panicking

---
 src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c6fed6..d477533 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,14 +6,16 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
 use output::MetaData;
 pub use output::{LexicalErrorType, ParsingError, SemanticErrorType, SyntacticError, WarningType};
+use output::UndefinedSymbolError;
 use semantic_analyzer::*;
 use syntactic_analyzer::AbstractSyntaxTree;
+use syntactic_analyzer::DomainAST;
 use syntactic_analyzer::FileVariant;
 
 pub struct HDDLAnalyzer {}
@@ -60,6 +62,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                check_method_tasks(&d)?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
@@ -116,6 +119,30 @@ impl HDDLAnalyzer {
     }
 }
 
+// the task decomposition graph is only defined over declared tasks
+fn check_method_tasks(domain: &DomainAST) -> Result<(), SemanticErrorType> {
+    let mut declared = HashSet::new();
+    declared.extend(domain.compound_tasks.iter().map(|x| x.name));
+    declared.extend(domain.actions.iter().map(|x| x.name));
+    for method in domain.methods.iter() {
+        if !declared.contains(method.task.name) {
+            return Err(SemanticErrorType::UndefinedTask(UndefinedSymbolError {
+                symbol: method.task.name.to_string(),
+                position: method.task.name_pos,
+            }));
+        }
+        for subtask in method.tn.subtasks.iter() {
+            if !declared.contains(subtask.task.name) {
+                return Err(SemanticErrorType::UndefinedSubtask(UndefinedSymbolError {
+                    symbol: subtask.task.name.to_string(),
+                    position: subtask.task.name_pos,
+                }));
+            }
+        }
+    }
+    Ok(())
+}
+
 // the files are given in the wrong roles (e.g., the problem in place of the domain)
 fn wrong_file(expected: &str, found: &str) -> ParsingError {
     ParsingError::Syntactic(SyntacticError {
-- 
2.43.0


From d938d528eb012b8e61bfab618cb834f383206ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:47 +0000
Subject: [PATCH 15/21] fix: deeply nested formulas are a syntactic error
 instead of a stack overflow

---
 .../domain_parser/formula_parser.rs           | 19 +++++++++++++++++++
 src/syntactic_analyzer/parser.rs              |  9 ++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..6ac02bb 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -1,7 +1,26 @@
 use super::*;
 
+// deeper formulas would exhaust the stack
+const MAX_FORMULA_DEPTH: u32 = 100;
+
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
+        let depth = self.formula_depth.get();
+        if depth == MAX_FORMULA_DEPTH {
+            let error = SyntacticError {
+                expected: format!("at most {} levels of nested formulas", MAX_FORMULA_DEPTH),
+                found: "a deeper formula".to_string(),
+                position: self.tokenizer.get_last_token_position(),
+            };
+            return Err(ParsingError::Syntactic(error));
+        }
+        self.formula_depth.set(depth + 1);
+        let formula = self.parse_formula_level();
+        self.formula_depth.set(depth);
+        formula
+    }
+
+    fn parse_formula_level(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
                 return Ok(Formula::Empty);
diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index 4d8fb94..cf6b2f9 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -1,14 +1,21 @@
+use std::cell::Cell;
+
 use self::definition_types::ProblemDefinition;
 
 use super::*;
 
 pub struct Parser<'a> {
     pub tokenizer: LexicalAnalyzer<'a>,
+    // number of formulas that enclose the one being parsed
+    pub(super) formula_depth: Cell<u32>,
 }
 
 impl<'a> Parser<'a> {
     pub fn new(tokenizer: LexicalAnalyzer<'a>) -> Parser<'a> {
-        Parser { tokenizer }
+        Parser {
+            tokenizer,
+            formula_depth: Cell::new(0),
+        }
     }
     pub fn parse(&'a self) -> Result<AbstractSyntaxTree<'a>, ParsingError> {
         // match opening '('
-- 
2.43.0


From a412bdbe4b45ac327a459a070db144ea9dfaa789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:00 +0000
Subject: [PATCH 16/21] fix: a request no longer waits for the client to take a
 log message

Once the client's stream has ended, nobody takes log messages, so that
a diagnostic request in flight never finished and the server never
terminated.
---
 src/language_server/request_handler.rs | 66 +++++++++++---------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 6bc0696..46ae660 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -23,6 +23,15 @@ impl RequestHandler {
     async fn sync(&self, url: Url, content: Vec<u8>) {
         self.documents.write().await.insert(url, content);
     }
+
+    // A client that has gone away no longer takes log messages, and a request that waited for
+    // it would keep the server from terminating. Hence, logging never holds up a request.
+    fn log(&self, message: String) {
+        let client = self.client.clone();
+        tokio::spawn(async move {
+            client.log_message(MessageType::LOG, message).await;
+        });
+    }
 }
 
 #[tower_lsp::async_trait]
@@ -103,21 +112,14 @@ impl LanguageServer for RequestHandler {
     ) -> tower_lsp::jsonrpc::Result<DocumentDiagnosticReportResult> {
         match self.documents.read().await.get(&params.text_document.uri) {
             Some(document) => {
-                self.client
-                    .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
-                    .await;
+                self.log("Diagnostic Request Recieved.".to_string());
                 let file_path = params.text_document.uri.to_file_path().ok();
                 match classify_file(document) {
                     FileVariant::Domain => {
-                        self.client
-                            .log_message(
-                                MessageType::LOG,
-                                format!(
-                                    "{} is a domain. Attempting to diagnose.",
-                                    params.text_document.uri.to_string()
-                                ),
-                            )
-                            .await;
+                        self.log(format!(
+                            "{} is a domain. Attempting to diagnose.",
+                            params.text_document.uri.to_string()
+                        ));
                         let diagnosis = diagnose_domain(document);
                         return Ok(diagnosis);
                     }
@@ -147,15 +149,11 @@ impl LanguageServer for RequestHandler {
                                     };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
-                                            self.client
-                                                .log_message(
-                                                    MessageType::LOG,
-                                                    format!(
-                                                        "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.display(),
-                                                        params.text_document.uri.to_string()
-                                                    ),
-                                                ).await;
+                                            self.log(format!(
+                                                "{} is the domain for {}. Attempting to diagnose.",
+                                                root_folder.display(),
+                                                params.text_document.uri.to_string()
+                                            ));
                                             return Ok(diagnose_problem(Some(&content), document));
                                         }
                                         // File is not the domain
@@ -167,28 +165,18 @@ impl LanguageServer for RequestHandler {
                             }
                         }
                         // could not find the domain
-                        self.client
-                            .log_message(
-                                MessageType::LOG,
-                                format!(
-                                    "Could not find the domain in {}",
-                                    root_folder.display()
-                                ),
-                            )
-                            .await;
+                        self.log(format!(
+                            "Could not find the domain in {}",
+                            root_folder.display()
+                        ));
                         return Ok(diagnose_problem(None, document));
                     }
                     FileVariant::MaybeNotHDDL => {
                         // TODO: attempt to fix this
-                        self.client
-                            .log_message(
-                                MessageType::LOG,
-                                format!(
-                                    "{} does not have proper HDDL header. Ignoring diagnostic request.",
-                                    params.text_document.uri.to_string()
-                                ),
-                            )
-                            .await;
+                        self.log(format!(
+                            "{} does not have proper HDDL header. Ignoring diagnostic request.",
+                            params.text_document.uri.to_string()
+                        ));
                         Ok(generate_empty_report())
                     }
                 }
-- 
2.43.0


From d3b8c844b0751909e395c93af5e3dcede24f06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:50 +0000
Subject: [PATCH 17/21] fix: an unexpected imply is quoted as such in the error
 message

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0


From 266c706330d39e00795aed88272c6cc050bc5e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 18/21] fix: do not treat documents without a file: URI as
 files

Url::to_file_path ignores the scheme. A save or a diagnostic request for a
document such as untitled:/x.hddl read an unrelated file or folder.
---
 src/language_server/request_handler.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 46ae660..5d74e3c 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -1,4 +1,5 @@
 use std::fs;
+use std::path::PathBuf;
 use std::sync::Arc;
 
 use tokio::sync::RwLock;
@@ -24,6 +25,15 @@ impl RequestHandler {
         self.documents.write().await.insert(url, content);
     }
 
+    // The path of a document on disk. The conversion of the URL crate ignores the scheme, but a
+    // document such as `untitled:/x.hddl` has no file.
+    fn file_path(url: &Url) -> Option<PathBuf> {
+        if url.scheme() != "file" {
+            return None;
+        }
+        url.to_file_path().ok()
+    }
+
     // A client that has gone away no longer takes log messages, and a request that waited for
     // it would keep the server from terminating. Hence, logging never holds up a request.
     fn log(&self, message: String) {
@@ -83,15 +93,15 @@ impl LanguageServer for RequestHandler {
         // later notifications must not be overtaken while the file is being read
         let mut documents = self.documents.write().await;
         // get the saved file content
-        let text = match (params.text, uri.to_file_path()) {
+        let text = match (params.text, Self::file_path(&uri)) {
             (Some(content), _) => content.into_bytes(),
-            (None, Ok(path)) => match tokio::fs::read(path).await {
+            (None, Some(path)) => match tokio::fs::read(path).await {
                 Ok(content) => content,
                 // the last synced content stays in place
                 Err(_) => return,
             },
             // not a file, the last synced content stays in place
-            (None, Err(_)) => return,
+            (None, None) => return,
         };
         // sync the file
         documents.insert(uri, text);
@@ -113,7 +123,7 @@ impl LanguageServer for RequestHandler {
         match self.documents.read().await.get(&params.text_document.uri) {
             Some(document) => {
                 self.log("Diagnostic Request Recieved.".to_string());
-                let file_path = params.text_document.uri.to_file_path().ok();
+                let file_path = Self::file_path(&params.text_document.uri);
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.log(format!(
-- 
2.43.0


From fd8873fe49ada1e50e4808d08d62bf0c545b12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:52 +0000
Subject: [PATCH 19/21] fix: the arity error of a method's task names the
 declared arity as the expected one

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 57e8f1b..785f1fe 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -158,8 +158,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From b05ff45ec85ae572a709264c4bcfa74cee3c18fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:00 +0000
Subject: [PATCH 20/21] fix: an empty operand no longer ends the enclosing and,
 or, oneof

'(and ())' was taken to end at its empty operand, so that the remaining
parentheses closed the action, then the domain, and everything after it was
silently ignored (a truncated domain was accepted).
---
 .../domain_parser/formula_parser.rs           | 47 ++++++++-----------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 6ac02bb..1e0bb16 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -20,6 +20,23 @@ impl<'a> Parser<'a> {
         formula
     }
 
+    // parses the operands of a connective, including its closing parenthesis
+    fn parse_operands(&'a self) -> Result<Vec<Box<Formula<'a>>>, ParsingError> {
+        let mut operands = vec![];
+        loop {
+            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                // skip lookahead
+                let _ = self.tokenizer.get_token()?;
+                return Ok(operands);
+            }
+            match self.parse_formula()? {
+                // an empty operand, i.e., "()"
+                Formula::Empty => {}
+                operand => operands.push(Box::new(operand)),
+            }
+        }
+    }
+
     fn parse_formula_level(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
@@ -46,39 +63,15 @@ impl<'a> Parser<'a> {
                     }
                     // And Connector
                     Token::Operator(OperationType::And) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::And(self.parse_operands()?));
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Xor(self.parse_operands()?));
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Or(self.parse_operands()?));
                     }
                     // Equality
                     Token::Operator(OperationType::Equal) => match self.tokenizer.get_token()? {
-- 
2.43.0


From a0d7e1846d074e52e8af6c9133315ac49d5b3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:00 +0000
Subject: [PATCH 21/21] fix: task networks without subtasks or with constraints
 end at their own parenthesis

The closing parenthesis of a method without a task network, of a method with
:ordered-subtasks and :constraints, and of an empty :htn was left over and then
taken for the end of the whole definition, so that everything after it was
silently ignored (a truncated domain was accepted).
---
 .../problem_parser/init_tn_parser.rs          | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..18d7335 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
@@ -194,16 +198,12 @@ impl<'a> Parser<'a> {
             }
             Token::Keyword(KeywordName::OrderedSubtasks) => {
                 subtasks = self.parse_subtasks()?;
-                match self.tokenizer.get_token()? {
-                    Token::Keyword(KeywordName::Constraints) => {
-                        constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
-                    }
+                let mut token = self.tokenizer.get_token()?;
+                if let Token::Keyword(KeywordName::Constraints) = token {
+                    constraints = Some(self.parse_constraints()?);
+                    token = self.tokenizer.get_token()?;
+                }
+                match token {
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
                             subtasks,
-- 
2.43.0

