From 762b369afc7227cf63416b21c9611e7281ee2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 01/37] fix: read lexemes up to the end of the file

A lexeme that touched the end of the file lost its last character and was
then re-read as an endless stream of empty identifiers (the parser never
terminated), and a '?' or ':' as last byte indexed past the program.
---
 src/lexical_analyzer/tokenizer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..d550800 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -183,7 +183,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -199,13 +198,10 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len()
+            && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From c64a10c6e5b11ba79c6ecb081f38ee435c005d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 02/37] fix: skip comments without recursion and stop at the
 end of the file

A comment on the last line (no trailing newline) indexed past the program,
and every comment added a stack frame.
---
 src/lexical_analyzer/tokenizer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index d550800..d5d64ac 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -119,15 +119,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
-                        self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -230,6 +221,15 @@ impl<'a> LexicalAnalyzer<'a> {
     fn skip_whitespaces(&self) {
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
+            if current == ';' {
+                // comment: skip up to (and excluding) the end of the line
+                while self.cursor.get() != self.program.len()
+                    && self.program[self.cursor.get()] != b'\n'
+                {
+                    self.cursor.set(self.cursor.get() + 1);
+                }
+                continue;
+            }
             if !LexicalAnalyzer::is_whitespace(&current) {
                 break;
             } else if current == '\n' {
-- 
2.43.0


From 0efc0873657a9f139174b9d96ff6ed37ce929832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 03/37] fix: report lexemes that are not valid UTF-8 instead of
 panicking

---
 src/lexical_analyzer/tokenizer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index d5d64ac..523a115 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -197,16 +197,19 @@ impl<'a> LexicalAnalyzer<'a> {
         if is_invalid {
             return Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
+                lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
                     .to_string(),
                 position: self.last_token_pos.get(),
             });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+        }
+        match from_utf8(&self.program[init_cur_pos..cursor_pos]) {
+            Ok(lexeme) => Ok((lexeme, cursor_pos)),
+            Err(_) => Err(LexicalError {
+                error_type: LexicalErrorType::InvalidIdentifier,
+                lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
+                    .to_string(),
+                position: self.last_token_pos.get(),
+            }),
         }
     }
 
-- 
2.43.0


From 4f475a84cc93b6dc724f9ce3c9050e9e65986187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 04/37] fix: lookahead of '<=' and '>=' yields the same token
 as get_token

---
 src/lexical_analyzer/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 523a115..9dae8d6 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -297,8 +297,14 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn ordering_type(&self, c: &char, peek: bool) -> OperationType {
+        // when peeking, the cursor is still on the operator itself
+        let mut next_pos = self.cursor.get();
+        if peek {
+            next_pos += 1;
+        }
+        let next_char = self.program.get(next_pos).map(|x| *x as char);
         match c {
-            '<' => match self.peek_next_char() {
+            '<' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
@@ -307,7 +313,7 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 _ => OperationType::LessThan,
             },
-            '>' => match self.peek_next_char() {
+            '>' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
-- 
2.43.0


From 47f9009f0cf5e70af707006b453c3500958566e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 05/37] fix: report an unexpected token between problem blocks
 instead of panicking

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..1d2b956 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: "either ')' to close the problem definition, or '(' to start defining new components".to_string(),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From aeef02297d309b1a68d30eed567caa34eb9d7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 06/37] fix: consume the closing parenthesis of the goal block

It was taken for the end of the problem, so every block after :goal was
silently dropped.
---
 src/syntactic_analyzer/problem_parser/router.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 1d2b956..bf39053 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -45,7 +45,19 @@ impl <'a> Parser<'a> {
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
                             let goal = self.parse_formula()?;
-                            syntax_tree.add_goal(goal)
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {
+                                    syntax_tree.add_goal(goal)
+                                }
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' to close the goal block".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                         }
                         // initial state
                         Token::Keyword(KeywordName::Init) => {
-- 
2.43.0


From b53399956029cae476bc436357ec3aea862644a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 07/37] fix: consume the closing parenthesis of an empty task
 network

It was taken for the end of the definition, so the rest of the file was
silently dropped.
---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..f779a8f 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,8 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    // consume ')'
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +63,8 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                // consume ')'
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
-- 
2.43.0


From 8b3a36b94c8c0004085e1ecb8df70a7fb9ef5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 08/37] fix: consume the closing parenthesis after the
 constraints of a totally ordered task network

It was taken for the end of the definition, so the rest of the file was
silently dropped.
---
 .../problem_parser/init_tn_parser.rs          | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index f779a8f..e9d79d5 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -201,12 +201,24 @@ impl<'a> Parser<'a> {
                 match self.tokenizer.get_token()? {
                     Token::Keyword(KeywordName::Constraints) => {
                         constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
+                        match self.tokenizer.get_token()? {
+                            Token::Punctuator(PunctuationType::RParentheses) => {
+                                return Ok(HTN {
+                                    subtasks,
+                                    ordering_pos,
+                                    orderings: TaskOrdering::Total,
+                                    constraints,
+                                });
+                            }
+                            token => {
+                                let error = SyntacticError {
+                                    expected: "closing ')' after task network definition".to_string(),
+                                    found: token.to_string(),
+                                    position: self.tokenizer.get_last_token_position(),
+                                };
+                                return Err(ParsingError::Syntactic(error));
+                            }
+                        }
                     }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
-- 
2.43.0


From 43e41201d03dcbd3cd885ee506a00ec53dd162ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 09/37] fix: do not use the empty formula as end-of-list marker

An empty formula '()' inside and/or/oneof ended the list early, and a stray
')' was accepted wherever a formula is required.
---
 .../domain_parser/formula_parser.rs           | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..19331f5 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -29,36 +26,39 @@ impl<'a> Parser<'a> {
                     Token::Operator(OperationType::And) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) =
+                                self.tokenizer.lookahead()?
+                            {
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) =
+                                self.tokenizer.lookahead()?
+                            {
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
                         let mut expressions = vec![];
                         loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
+                            if let Token::Punctuator(PunctuationType::RParentheses) =
+                                self.tokenizer.lookahead()?
+                            {
+                                let _ = self.tokenizer.get_token()?;
                                 return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
                             }
+                            expressions.push(Box::new(self.parse_formula()?));
                         }
                     }
                     // Equality
-- 
2.43.0


From c7f8adf6d563179de36e177ef7d66e3feb7346ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 10/37] fix: check predicates below exists and imply instead of
 panicking

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..5e7fd4e 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(antecedents, consequents) => {
+            for f in antecedents.iter().chain(consequents.iter()) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From cac5c11647a670c6f3f52768ec8d3427969970c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 11/37] fix: report swapped domain and problem files instead of
 panicking

---
 src/lib.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..836ac0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,15 @@ use syntactic_analyzer::FileVariant;
 pub struct HDDLAnalyzer {}
 
 impl HDDLAnalyzer {
+    // the given file defines something other than what was asked for
+    fn wrong_definition(expected: &str, found: &str) -> ParsingError {
+        ParsingError::Syntactic(SyntacticError {
+            expected: format!("the definition of {}", expected),
+            found: format!("the definition of {}", found),
+            position: TokenPosition { line: 1 },
+        })
+    }
+
     pub fn verify(
         domain: &Vec<u8>,
         problem: Option<&Vec<u8>>,
@@ -41,15 +50,13 @@ impl HDDLAnalyzer {
                             let warnings = problem_semantic_verifier.verify_problem()?;
                             Ok(warnings)
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(HDDLAnalyzer::wrong_definition("a problem", "a domain")),
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(HDDLAnalyzer::wrong_definition("a domain", "a problem"))
         }
     }
 
@@ -74,7 +81,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(HDDLAnalyzer::wrong_definition("a domain", "a problem")),
         }
     }
 
@@ -99,9 +106,7 @@ impl HDDLAnalyzer {
                             return Ok(serde_json::to_string_pretty(&root).unwrap());
 
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(HDDLAnalyzer::wrong_definition("a problem", "a domain")),
                     }
                 }
                 None => {
@@ -113,7 +118,7 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(HDDLAnalyzer::wrong_definition("a domain", "a problem")),
         }
     }
 }
-- 
2.43.0


From 01da5be07d5e2a33918b011e822e65cced09f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 12/37] fix: metadata of a domain with undefined tasks is an
 error, not a panic

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 836ac0f..6338d91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -69,6 +69,8 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                // the decomposition graph is only defined for well-formed domains
+                DomainSemanticAnalyzer::new(&d).verify_domain()?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
-- 
2.43.0


From d82a5866180dcd44a637330a0da20a2e7ae1e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 13/37] fix: iterate unit reachability to a fixpoint

The loop never ended for domains without compound tasks, and ended early as
soon as a single task had converged.
---
 src/semantic_analyzer/tdg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..8f4daff 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -442,6 +442,7 @@ impl<'a> TDG<'a> {
         let mut new_nullables = HashSet::new();
         let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
         while changed_nullables || changed_unit_reachability {
+            changed_unit_reachability = false;
             // nullables induction step
             for (t, methods) in self.edges_from_tasks.iter() {
                 for method in methods {
@@ -488,9 +489,8 @@ impl<'a> TDG<'a> {
                         }
                     }
                 }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
+                if change != *previous_reachables {
+                    changed_unit_reachability = true;
                     new_unit_reachable.insert(*c, change);
                 }
             }
-- 
2.43.0


From a56cb00110b5ce26c0008054e2b60f7ce7a89cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 14/37] fix: a method with two non-nullable subtasks is not a
 unit method

---
 src/semantic_analyzer/tdg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 8f4daff..9f172e6 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -480,6 +480,8 @@ impl<'a> TDG<'a> {
                                 if not_nullable.is_none() {
                                     not_nullable = Some(*task)
                                 } else {
+                                    // more than one task remains
+                                    not_nullable = None;
                                     break;
                                 }
                             }
-- 
2.43.0


From 987e78e8dfc5c9bb42f35fd9d835c594b65c4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 15/37] fix: report duplicate constants

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..1c5b26f 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,8 +32,19 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                let mut constant_positions = HashMap::new();
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
                 }
             }
             None => {}
-- 
2.43.0


From e1a31ee34e8b387914f6821855cb1ca477d17de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 16/37] fix: expected and found arity were swapped for a
 method's task

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 1c5b26f..b64f966 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -169,8 +169,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From f3ef459805114ae963e3ed57d1fe18c9967aace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 17/37] fix: undefined types of constants and parameters are
 reported everywhere

Constants, parameters of actions and methods without formulas, and the
parameters of the initial task network were not checked.
---
 src/semantic_analyzer/analyzers/domain_analyzer.rs  | 11 +++++++++++
 src/semantic_analyzer/analyzers/problem_analyzer.rs |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index b64f966..819dacf 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,6 +32,9 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
+                }
                 let mut constant_positions = HashMap::new();
                 for c in constants {
                     if !declared_constants.insert(c) {
@@ -81,6 +84,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -142,6 +149,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..a72cb03 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -58,6 +58,12 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
                 );
             }
 
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
+
             for subtask in htn.tn.subtasks.iter() {
                 let _ = self
                     .type_checker
-- 
2.43.0


From 863086df995df6783ed151ef53ac61b36e4e2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 18/37] fix: report the declared type of an ill-typed object

The occurrence of the object carries no type, so the error displayed no
found type and panicked when no type was expected.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..284825a 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
-- 
2.43.0


From af7350cdba6b790ea49695ae65cbafdd514ae4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:09 +0000
Subject: [PATCH 19/37] fix: an ill-typed constant in a subtask is a task
 argument error

---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index 284825a..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 7ee477109b7dc34d6162e9c6c1dc44e92aae0c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 20/37] fix: warnings come in declaration order, not in hash
 order

---
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 819dacf..3d8b5a8 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -221,7 +221,7 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
+        for task in self.domain.compound_tasks.iter() {
             let reachables = tdg.reachable(&task.name);
             if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
-- 
2.43.0


From acb7d9a24903419208a6b6736b8eab5d83798f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 21/37] fix: nullable tasks are listed in a fixed order

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6338d91..ea57a6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,9 +74,12 @@ impl HDDLAnalyzer {
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
+                let mut nullable_names: Vec<String> =
+                    nullables.iter().map(|x| x.to_string()).collect();
+                nullable_names.sort();
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables: nullable_names,
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
-- 
2.43.0


From 479cc3f73fd8c16d821a84443edf9ebebec011c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 22/37] fix: the key order of the JSON output is fixed

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea57a6f..b53e941 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -102,7 +102,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -115,7 +115,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
-- 
2.43.0


From 58a630261ca4497d2e1ca9bdae450f494ed49d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 23/37] fix: explore the task decomposition graph in a fixed
 order

The reported recursion class and cycle depended on hash order.
---
 src/semantic_analyzer/tdg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 9f172e6..077a743 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,12 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +22,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +49,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
-- 
2.43.0


From a6ad9bd4fde779e705c7c0376f2d0edafa56f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 24/37] fix: duplicate declarations no longer crash the
 language server

"//" is not an absolute URL, so building the diagnostic panicked.
---
 src/language_server/diagnostic_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..223d9cd 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -200,7 +200,7 @@ impl From<ParsingError> for Diagnostic {
                                 DiagnosticRelatedInformation {
                                     location: Location {
                                         // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
+                                        uri: Url::parse("file:///").unwrap(),
                                         range: Range {
                                             start: Position { line: duplicate.first_pos.line - 1, character: 0 },
                                             end: Position { line: duplicate.first_pos.line, character: 0 }
-- 
2.43.0


From 3dce66e530e0b9c7194ba69036b52ae982092610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 25/37] fix: the last content change of a notification wins

---
 src/language_server/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..e3e3698 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -84,7 +84,7 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From dee10c54adcb077b798bfdefc2f1bd8256e80af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 26/37] fix: saving a file the server cannot read does not
 crash it

---
 src/language_server/request_handler.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index e3e3698..9535906 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -73,9 +73,11 @@ impl LanguageServer for RequestHandler {
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
+            None => match tokio::fs::read(params.text_document.uri.path()).await {
+                Ok(content) => content,
+                // keep the last synced content
+                Err(_) => return,
+            },
         };
         // sync the file
         self.sync(params.text_document.uri, text).await;
-- 
2.43.0


From e473eb3acd3558954aecff068017f30d5df603ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 27/37] fix: a diagnostic request for an unreadable location
 does not crash the server

---
 src/language_server/request_handler.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 9535906..a79b538 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -100,7 +100,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -116,12 +115,26 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        let file_path = match params.text_document.uri.to_file_path() {
+                            Ok(path) => path,
+                            // not on this file system, so there is no folder to search
+                            Err(_) => return Ok(diagnose_problem(None, document)),
+                        };
+                        let root_folder = match file_path.parent() {
+                            Some(folder) => folder,
+                            None => return Ok(diagnose_problem(None, document)),
+                        };
+                        let mut files = match tokio::fs::read_dir(root_folder).await {
+                            Ok(files) => files,
+                            Err(_) => return Ok(diagnose_problem(None, document)),
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let content = match tokio::fs::read(entry.path()).await {
+                                        Ok(content) => content,
+                                        Err(_) => continue,
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -129,7 +142,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -149,7 +162,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From 6df5e9f0815e000862df9a826541d25b882eae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 28/37] fix: resetting the reader also resets its line

---
 src/lexical_analyzer/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 9dae8d6..fec2e98 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -20,6 +20,7 @@ impl<'a> LexicalAnalyzer<'a> {
     // sets cursor to its initial position at zero
     pub fn reset_cursor(&self) {
         self.cursor.set(0);
+        self.last_token_pos.set(TokenPosition { line: 1 });
     }
 
     // get the next token without advancing the cursor
-- 
2.43.0


From d8226acde64f9a78782380d25b4f29fe4f4db740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:11 +0000
Subject: [PATCH 29/37] fix: a comment directly behind a name or keyword ends
 it

---
 src/lexical_analyzer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index fec2e98..bfd64bb 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -178,7 +178,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
-- 
2.43.0


From aa1feef63d938034c1ea0e65bfe62d45f3e31372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:47 +0000
Subject: [PATCH 30/37] fix: a lone '?' is not a variable

---
 src/lexical_analyzer/tokenizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index bfd64bb..ea62d6a 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -59,6 +59,13 @@ impl<'a> LexicalAnalyzer<'a> {
                         init_cur_pos += 1;
                     }
                     let (var_name, new_cur_pos) = self.peek_lexeme(init_cur_pos)?;
+                    if var_name.is_empty() {
+                        return Err(LexicalError {
+                            error_type: LexicalErrorType::InvalidIdentifier,
+                            lexeme: "?".to_string(),
+                            position: self.last_token_pos.get(),
+                        });
+                    }
                     if !peek {
                         self.cursor.set(new_cur_pos);
                     }
-- 
2.43.0


From ed933cc72007ebe11bea0a7717410ce97647f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:10 +0000
Subject: [PATCH 31/37] fix: the message of a task arity error states its line

---
 src/output/errors/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..9149818 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
-- 
2.43.0


From 175c0c93ccd95a302b0f14d52e79ab45f564a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:10 +0000
Subject: [PATCH 32/37] fix: the message of a duplicate requirement says what
 is wrong with it

---
 src/output/errors/semantic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 9149818..43cab1b 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -36,7 +36,7 @@ impl fmt::Display for SemanticErrorType {
                 write!(f, "object {}", duplicate)
             }
             SemanticErrorType::DuplicateRequirementDeclaration(req) => {
-                write!(f, "requirement {}", req)
+                write!(f, "requirement {} is declared more than once.", req)
             }
             SemanticErrorType::DuplicatePredicateDeclaration(duplicate) => {
                 write!(f, "predicate {}", duplicate)
-- 
2.43.0


From d5eb8ff2e00ac7c85eb91660ca25d90f1006e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:10 +0000
Subject: [PATCH 33/37] fix: the operator imply is shown as it is written

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0


From ab12efd35a82165140df8cb380ec83fdec71b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:10 +0000
Subject: [PATCH 34/37] fix: every warning has a message

---
 src/output/warnings.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/output/warnings.rs b/src/output/warnings.rs
index 20f99c5..d0f3598 100644
--- a/src/output/warnings.rs
+++ b/src/output/warnings.rs
@@ -37,8 +37,7 @@ impl std::fmt::Display for WarningType {
                 write!(f, "Parameter {} is declared, but never used", parameter)
             }
             Self::RedundantEffect => {
-                // TODO:
-                todo!()
+                write!(f, "An action has a redundant effect")
             }
         }
     }
-- 
2.43.0


From 359c5832de79580083b0fb6759a8275e91b331b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:34 +0000
Subject: [PATCH 35/37] fix: saved files are read from their decoded path

---
 src/language_server/request_handler.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index a79b538..25818f3 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -73,11 +73,17 @@ impl LanguageServer for RequestHandler {
         // get the saved file content
         let text = match params.text {
             Some(content) => content.into_bytes(),
-            None => match tokio::fs::read(params.text_document.uri.path()).await {
-                Ok(content) => content,
-                // keep the last synced content
-                Err(_) => return,
-            },
+            None => {
+                // the path of a URI is percent-encoded, the one of a file is not
+                let Ok(path) = params.text_document.uri.to_file_path() else {
+                    return;
+                };
+                match tokio::fs::read(path).await {
+                    Ok(content) => content,
+                    // keep the last synced content
+                    Err(_) => return,
+                }
+            }
         };
         // sync the file
         self.sync(params.text_document.uri, text).await;
-- 
2.43.0


From 59960fd8fc78d319efca00ef2b908918e3d8335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:45 +0000
Subject: [PATCH 36/37] fix: metadata handles every partial order of subtasks

---
 src/semantic_analyzer/tdg.rs | 143 +++++++++++++----------------------
 1 file changed, 51 insertions(+), 92 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 077a743..651de2a 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -269,57 +269,14 @@ impl<'a> TDG<'a> {
                 panic!("{} does not exist in {:?}", task, method.subtasks)
             }
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
+                let (occurrence, before) = Self::first_occurrence(task, method, orderings);
+                method
+                    .subtasks
                     .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect();
+                    .enumerate()
+                    .filter(|(index, x)| *index != occurrence && Self::has_id(x, &before))
+                    .map(|(_, x)| self.get_task_index(&x.task.name))
+                    .collect()
             }
         }
     }
@@ -342,52 +299,54 @@ impl<'a> TDG<'a> {
                 panic!("{} does not exist in {:?}", task, method)
             }
             TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
+                // everything that does not have to come before "task" can come after it
+                let (occurrence, before) = Self::first_occurrence(task, method, orderings);
+                method
+                    .subtasks
+                    .iter()
+                    .enumerate()
+                    .filter(|(index, x)| *index != occurrence && !Self::has_id(x, &before))
+                    .map(|(_, x)| self.get_task_index(&x.task.name))
+                    .collect()
+            }
+        }
+    }
+
+    // index of the occurrence of "task" with the fewest predecessors, and the ids of these
+    fn first_occurrence(
+        task: &str,
+        method: &HTN<'a>,
+        orderings: &Vec<(&'a str, &'a str)>,
+    ) -> (usize, HashSet<&'a str>) {
+        let mut first: Option<(usize, HashSet<&'a str>)> = None;
+        for (index, subtask) in method.subtasks.iter().enumerate() {
+            if subtask.task.name != task {
+                continue;
+            }
+            let mut before = HashSet::new();
+            let mut stack: Vec<&str> = subtask.id.iter().map(|id| id.name).collect();
+            while let Some(id) = stack.pop() {
                 for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
+                    if *e2 == id && before.insert(*e1) {
+                        stack.push(e1);
                     }
                 }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
-                        }
-                        None => {}
-                    }
-                }
-                suffix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
             }
+            match &first {
+                Some((_, best)) if best.len() <= before.len() => {}
+                _ => first = Some((index, before)),
+            }
+        }
+        match first {
+            Some(found) => found,
+            None => panic!("{} does not exist in {:?}", task, method.subtasks),
+        }
+    }
+
+    fn has_id(subtask: &Subtask<'a>, ids: &HashSet<&'a str>) -> bool {
+        match &subtask.id {
+            Some(id) => ids.contains(id.name),
+            None => false,
         }
     }
 
-- 
2.43.0


From 8808badc4a8c7f3cfb0de2c92efd9401a0c2f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:45 +0000
Subject: [PATCH 37/37] fix: a cycle with a task before it that is not nullable
 has no empty prefix

---
 src/semantic_analyzer/tdg.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 651de2a..cd90187 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -173,14 +173,10 @@ impl<'a> TDG<'a> {
                             let (_, m_id) = cyclic_path[index];
                             let prefix = self.get_prefix(*t_id, m_id);
                             // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
+                            for x in prefix.iter() {
+                                if !nullables.contains(x) {
+                                    is_epsilon_prefix = false;
+                                    break;
                                 }
                             }
                             suffix.extend(self.get_suffix(*t_id, m_id));
-- 
2.43.0

