From a21b72b66770916279e4b3a375915fae1c73fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 001/101] fix: serialize included nodes under `@included`

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 8ffde246e9f1756668eeb5eab4f7575d43eb4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 002/101] fix: do not share the remote context stack between
 the items of a context array

---
 crates/context-processing/src/algorithm/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..f4a2b2c 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,6 +165,10 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
+				//
+				// Each item of the array gets its own copy of the stack: an item
+				// is not nested in the items preceding it.
+				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
 					let loaded_context = env
 						.loader
@@ -192,7 +196,7 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						remote_contexts,
 						Some(context_iri),
 						new_options,
 					))
-- 
2.43.0


From 8b8924dbe3ebd9fb425248f0c09f7b2f4440e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 003/101] fix: do not panic on a prefix definition without IRI
 mapping

---
 crates/context-processing/src/algorithm/define.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..0ce0290 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -415,10 +415,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
@@ -737,7 +736,7 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix && definition.value.as_ref().is_some_and(Term::is_keyword) {
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From 398601f48ad779c2ecee55f173129d141a059247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 004/101] fix: apply the `@protected` entry of a context to its
 `@type` definition

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 0ce0290..acb3d0b 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From ff7ec89d5505cfc4b26b4ef2d73e141109a17a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 005/101] fix: error codes of invalid remote contexts and
 invalid `@protected` values

---
 crates/context-processing/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..f49e726 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -130,7 +130,7 @@ impl Error {
 			Self::CyclicIriMapping => ErrorCode::CyclicIriMapping,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::KeywordRedefinition => ErrorCode::KeywordRedefinition,
-			Self::InvalidProtectedValue => ErrorCode::InvalidPropagateValue,
+			Self::InvalidProtectedValue => ErrorCode::InvalidProtectedValue,
 			Self::InvalidTypeMapping => ErrorCode::InvalidTypeMapping,
 			Self::InvalidReverseProperty => ErrorCode::InvalidReverseProperty,
 			Self::InvalidIriMapping => ErrorCode::InvalidIriMapping,
@@ -139,7 +139,8 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(ExtractContextError::Syntax(e)) => e.code(),
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
-- 
2.43.0


From ef7811364a0d849b39ee4a514b96dc48e4593b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 006/101] fix: expand scalars coerced to `@json` by a
 property-scoped context

---
 crates/expansion/src/literal.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/expansion/src/literal.rs b/crates/expansion/src/literal.rs
index 84251a8..9ada1e4 100644
--- a/crates/expansion/src/literal.rs
+++ b/crates/expansion/src/literal.rs
@@ -221,6 +221,17 @@ where
 					}
 				}
 
+				Some(Type::Json) => {
+					let json = match result {
+						Literal::Null => json_syntax::Value::Null,
+						Literal::Boolean(b) => json_syntax::Value::Boolean(b),
+						Literal::Number(n) => json_syntax::Value::Number(n),
+						Literal::String(s) => json_syntax::Value::String(s),
+					};
+
+					return Ok(Object::Value(Value::Json(json)).into());
+				}
+
 				Some(t) => {
 					if let Ok(t) = t.into_iri() {
 						ty = Some(t)
-- 
2.43.0


From 371aaac0a7341a52ba2e581058cfef289a14b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 007/101] fix: reject a vocabulary mapping that is not an IRI
 nor a blank node identifier

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index f4a2b2c..c3d1269 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -320,7 +320,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From 71b2d4c8634aa064c93dca0dae5dc17018285b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 008/101] fix: `@index` container added to `@graph` and `@set`

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From f1a08a783bef31a0566cf83265b10480bd8558d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 009/101] fix: only merge a top-level map made of a single
 `@graph` entry into the default graph

---
 crates/core/src/object/mod.rs    | 2 +-
 crates/expansion/src/document.rs | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..882caa2 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -482,7 +482,7 @@ impl<T, B> Indexed<Object<T, B>> {
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
 		let (obj, index) = self.into_parts();
 		match obj {
-			Object::Node(n) => match n.into_unnamed_graph() {
+			Object::Node(n) if index.is_none() => match n.into_unnamed_graph() {
 				Ok(g) => Ok(g),
 				Err(n) => Err(Indexed::new(Object::node(n), index)),
 			},
diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..26d5964 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,5 +1,5 @@
 use super::expand_element;
-use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
+use crate::{ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
 use rdf_types::VocabularyMut;
@@ -34,8 +34,9 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
+	// Only a document that is itself a map with a single `@graph` entry stands
+	// for the default graph. In an array, such a map is an unnamed graph object.
+	if let Expanded::Object(obj) = expanded {
 		match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
 			Err(obj) => {
-- 
2.43.0


From a3f2e75dadf4a2cf4bbcabd3c465230aff9f1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 010/101] fix: ignore null values of properties with a `@list`
 or `@graph` container

---
 crates/expansion/src/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..ba7fc8c 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -925,6 +925,12 @@ where
 					}
 				};
 
+				// If expanded value is null, ignore key by continuing to the
+				// next key.
+				if expanded_value.is_null() {
+					continue;
+				}
+
 				// If container mapping includes @list and expanded value is
 				// not already a list object, convert expanded value to a list
 				// object by first setting it to an array containing only
-- 
2.43.0


From 9d4f54bed7653478ae26f4747498904e7ada03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:48 +0000
Subject: [PATCH 011/101] fix: accept `@context` and ignore undefined entries
 in value, list and set objects

---
 crates/expansion/src/element.rs |  6 ++++--
 crates/expansion/src/value.rs   | 32 ++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..1d4e5c8 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,5 +1,5 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, is_ignored, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
@@ -360,6 +360,7 @@ where
 							None => return Err(Error::InvalidIndexValue),
 						},
 						Term::Keyword(Keyword::List) => (),
+						key if is_ignored(env.vocabulary, options.policy, &key) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -401,6 +402,7 @@ where
 							// but is ignored.
 						}
 						Term::Keyword(Keyword::Set) => (),
+						key if is_ignored(env.vocabulary, options.policy, &key) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -422,7 +424,7 @@ where
 				// Value objects.
 				let expanded_value = expand_value(
 					&mut env,
-					options.policy.vocab,
+					options.policy,
 					input_type,
 					type_scoped_context,
 					expanded_entries,
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..698a911 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -1,11 +1,12 @@
-use crate::{expand_iri, Action, ExpandedEntry, Warning, WarningHandler};
+use crate::{expand_iri, ExpandedEntry, Policy, Warning, WarningHandler};
+use contextual::WithContext;
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
 	Term, ValidId, Value,
 };
 use json_ld_syntax::{Direction, ErrorCode, Keyword, LenientLangTagBuf, Nullable};
-use rdf_types::VocabularyMut;
+use rdf_types::{Vocabulary, VocabularyMut};
 
 #[derive(Debug, thiserror::Error)]
 pub enum InvalidValue {
@@ -57,10 +58,32 @@ impl From<RejectVocab> for InvalidValue {
 
 pub type ValueExpansionResult<T, B> = Result<Option<IndexedObject<T, B>>, InvalidValue>;
 
+/// Checks if the given entry of a value, list or set object is ignored.
+///
+/// Those objects must not contain any entry other than the ones specific to
+/// them that expands to an IRI, blank node identifier or keyword. The context
+/// is already processed, and undefined entries are ignored (unless they are
+/// forbidden by the policy).
+pub(crate) fn is_ignored<V: Vocabulary>(
+	vocabulary: &V,
+	policy: Policy,
+	expanded_key: &Term<V::Iri, V::BlankId>,
+) -> bool {
+	match expanded_key {
+		Term::Null | Term::Keyword(Keyword::Context) => true,
+		Term::Id(id) => {
+			policy.allow_undefined
+				&& !policy.invalid.is_reject()
+				&& !id.with(vocabulary).as_str().contains(':')
+		}
+		_ => false,
+	}
+}
+
 /// Expand a value object.
 pub(crate) fn expand_value<N, L, W>(
 	env: &mut Environment<N, L, W>,
-	vocab_policy: Action,
+	policy: Policy,
 	input_type: Option<Term<N::Iri, N::BlankId>>,
 	type_scoped_context: &Context<N::Iri, N::BlankId>,
 	expanded_entries: Vec<ExpandedEntry<N::Iri, N::BlankId>>,
@@ -136,7 +159,7 @@ where
 						type_scoped_context,
 						Nullable::Some(ty_value.into()),
 						true,
-						Some(vocab_policy),
+						Some(policy.vocab),
 					)?;
 
 					match expanded_ty {
@@ -154,6 +177,7 @@ where
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
+			key if is_ignored(env.vocabulary, policy, &key) => (),
 			_ => {
 				return Err(InvalidValue::ValueObject);
 			}
-- 
2.43.0


From 64af844050687a3e8aa79e7b4b11ddf4de4314b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:54 +0000
Subject: [PATCH 012/101] fix: make the expansion of reverse properties
 independent of the order of the entries

---
 crates/expansion/src/node.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index ba7fc8c..26c6503 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -110,7 +110,7 @@ async fn expand_node_entries<'a, N, L, W>(
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	type_scoped_context: &'a Context<N::Iri, N::BlankId>,
 	active_property: ActiveProperty<'a>,
-	expanded_entries: Vec<ExpandedEntry<'a, N::Iri, N::BlankId>>,
+	mut expanded_entries: Vec<ExpandedEntry<'a, N::Iri, N::BlankId>>,
 	base_url: Option<&'a N::Iri>,
 	options: Options,
 ) -> NodeEntriesExpensionResult<N::Iri, N::BlankId>
@@ -121,6 +121,14 @@ where
 	L: Loader,
 	W: WarningHandler<N>,
 {
+	// Keywords are processed first and nested properties last: the result must not
+	// depend on the order of the entries.
+	expanded_entries.sort_by_key(|ExpandedEntry(_, expanded_key, _)| match expanded_key {
+		Term::Keyword(Keyword::Nest) => 2,
+		Term::Keyword(_) => 0,
+		_ => 1,
+	});
+
 	// For each `key` and `value` in `element`, ordered lexicographically by key
 	// if `ordered` is `true`:
 	for ExpandedEntry(key, expanded_key, value) in expanded_entries {
-- 
2.43.0


From 5af8fc50f3cca95842c9d0b5b84d0e89a7fc3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 013/101] fix: reject colliding keywords in value, list and set
 objects

---
 crates/expansion/src/element.rs | 12 ++++++++++++
 crates/expansion/src/value.rs   |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 1d4e5c8..da79781 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -350,6 +350,18 @@ where
 				}
 			}
 
+			// Value, list and set objects can't have multiple entries expanding to
+			// the same keyword.
+			if list_entry.is_some() || set_entry.is_some() || value_entry.is_some() {
+				for (i, ExpandedEntry(_, key, _)) in expanded_entries.iter().enumerate() {
+					if matches!(key, Term::Keyword(keyword) if *keyword != Keyword::Type)
+						&& expanded_entries[..i].iter().any(|e| e.1 == *key)
+					{
+						return Err(Error::CollidingKeywords);
+					}
+				}
+			}
+
 			if let Some(list_entry) = list_entry {
 				// List objects.
 				let mut index = None;
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 698a911..522da63 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -103,6 +103,7 @@ where
 	let mut index = None;
 	let mut language = None;
 	let mut direction = None;
+	let mut has_type = false;
 
 	for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 		match expanded_key {
@@ -153,6 +154,12 @@ where
 			}
 			// If expanded ...
 			Term::Keyword(Keyword::Type) => {
+				// A value object has at most one type.
+				if has_type {
+					return Err(InvalidValue::TypedValue);
+				}
+				has_type = true;
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From 092a84dd8c55bdbb06e919c5dad2db96563d0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 014/101] fix: keep map indexes that are terms mapped to null

---
 crates/expansion/src/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 26c6503..5e80d66 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -762,7 +762,7 @@ where
 									false,
 									Some(options.policy.vocab),
 								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
+									Some(Term::Keyword(Keyword::None)) => None,
 									key => key,
 								};
 
@@ -885,7 +885,9 @@ where
 												)?
 												.and_then(node_id_of_term);
 											}
-										} else if container_mapping.contains(ContainerKind::Type) {
+										} else if container_mapping.contains(ContainerKind::Type)
+											&& !matches!(expanded_index, Some(Term::Null))
+										{
 											// Otherwise, if container mapping includes
 											// @type and expanded index is not @none,
 											// initialize types to a new array consisting
-- 
2.43.0


From dcd3589cb008ddc32e50dd63d4350d3e836dcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 015/101] fix: do not propagate the type-scoped contexts
 applied by type maps

---
 crates/expansion/src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 5e80d66..3b6cac2 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -734,6 +734,7 @@ where
 									{
 										if let Some(local_context) = index_definition.context() {
 											let base_url = index_definition.base_url().cloned();
+											let options: ProcessingOptions = options.into();
 											map_context = Mown::Owned(
 												local_context
 													.process_with(
@@ -741,7 +742,7 @@ where
 														map_context.as_ref(),
 														env.loader,
 														base_url,
-														options.into(),
+														options.without_propagation(),
 													)
 													.await?
 													.into_processed(),
-- 
2.43.0


From 66e4f624ceb71b6ef69cfadc5888f94120589d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 016/101] fix: merge the types of a node declared multiple
 times when flattening

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..4218bda 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let flat_types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let ty = env.assign_node_id(Some(ty));
+				if !flat_types.contains(&ty) {
+					flat_types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From c2e687f46d261534ff38d24167afe37a5561aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 017/101] fix: keep the nodes of named graphs that only have a
 type when flattening

---
 crates/core/src/flattening/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..b98a829 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,12 +94,13 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	node.set_graph_entry(None);
+	node.set_included(None);
+	node.set_reverse_properties(None);
+
+	if node.index().is_none() && node.is_empty() {
 		None
 	} else {
-		node.set_graph_entry(None);
-		node.set_included(None);
-		node.set_reverse_properties(None);
 		Some(node.map_inner(Object::node))
 	}
 }
-- 
2.43.0


From b87e44ac0e9e9a5759a85c4048ae52f99477fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 018/101] fix: relabel blank node properties when flattening

---
 crates/core/src/flattening/node_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 4218bda..e882a31 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -411,6 +411,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -422,11 +423,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
-- 
2.43.0


From db38d37c8565913a0c37a86e50e7cac29600e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 019/101] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..86c1e0f 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -140,6 +140,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +180,24 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let xsd_string = vocabulary.insert(XSD_STRING);
+							let ty = match language {
+								Some(tag) => rdf_types::LiteralType::LangString(tag),
+								None => rdf_types::LiteralType::Any(xsd_string.clone()),
+							};
+							let value =
+								vocabulary.insert_owned_literal(Literal::new(string.to_string(), ty));
+							let direction = vocabulary.insert_owned_literal(Literal::new(
+								direction.to_string(),
+								rdf_types::LiteralType::Any(xsd_string),
+							));
 							Some(CompoundLiteral {
-								value: id.into_term(),
-								triples: None,
+								value: Clone::clone(&id).into_term(),
+								triples: Some(CompoundLiteralTriples {
+									id,
+									value: Some(Value::Literal(value)),
+									direction: Some(Value::Literal(direction)),
+								}),
 							})
 						}
 						None => match language {
-- 
2.43.0


From 1163d69a9a0d0ee8faf0f636aba4c0cceee601b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 020/101] fix: do not break RDF lists on items without RDF
 representation

---
 crates/core/src/rdf/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 86c1e0f..4d196ed 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -568,12 +568,12 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -590,14 +590,16 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							// The list continues even if the item has no RDF
+							// representation.
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From a844670800f0415be75c0bf24281c648597a4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 021/101] fix: canonicalize JSON literals in RDF

---
 crates/core/src/rdf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 4d196ed..b452ebd 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -145,6 +145,8 @@ impl<T: Clone> crate::object::Value<T> {
 		match self {
 			Self::Json(json) => {
 				let ty = vocabulary.insert(RDF_JSON);
+				let mut json = json.clone();
+				json.canonicalize();
 				Some(CompoundLiteral {
 					value: Value::Literal(vocabulary.insert_owned_literal(Literal::new(
 						json.compact_print().to_string(),
-- 
2.43.0


From d0e4f1a41118b5a0d129d6ec36ad61133d091504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 022/101] fix: canonical RDF representation of numbers without
 fractional part

---
 crates/core/src/rdf/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index b452ebd..4590d39 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -262,18 +262,24 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
-						{
-							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
-						} else {
+						let is_double = ty
+							.as_ref()
+							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+							.unwrap_or(false);
+						let f = n.as_f64_lossy();
+
+						if is_double || f.fract() != 0.0 || f.abs() >= 1e21 {
 							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
+								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
 								Some(vocabulary.insert(XSD_DOUBLE)),
 							)
+						} else {
+							// Number without fractional part, in canonical form.
+							let lit = match n.as_i64() {
+								Some(i) => i.to_string(),
+								None => format!("{:.0}", if f == 0.0 { 0.0 } else { f }),
+							};
+							(lit, Some(vocabulary.insert(XSD_INTEGER)))
 						}
 					}
 					value::Literal::String(s) => (s.to_string(), None),
-- 
2.43.0


From 77aa91bc134fbe678f3e19c8a740a24014dec5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 023/101] fix: ignore types that are mapped to null

---
 crates/expansion/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 3b6cac2..f923c7a 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -202,6 +202,11 @@ where
 									true,
 									Some(options.policy.vocab),
 								)? {
+									if ty.is_null() {
+										// The type is mapped to `null`.
+										continue;
+									}
+
 									if let Ok(ty) = ty.try_into() {
 										if let Id::Invalid(_) = &ty {
 											match options.policy.invalid {
-- 
2.43.0


From 8e09e2ccbe11869aa7b829f4a94497db9800496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 024/101] fix: choose the shortest, then least compact IRI

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..003b845 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,7 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| (candidate.len(), &candidate) < (compact_iri.len(), &compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 049af4a07b31f57fe7980805dee5dd9658196ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 025/101] fix: only report an IRI confused with a prefix when
 it can be

---
 crates/compaction/src/iri.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 003b845..1639c3f 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -472,7 +472,10 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		let is_prefix = active_context
+			.get(iri.scheme().as_str())
+			.is_some_and(|definition| definition.prefix());
+		if is_prefix && iri.authority().is_none() {
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From a593b6feb86171e6b7d2f76ca84fb95b8d2e57d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 026/101] fix: do not compact to a string when it would get
 another language or direction

---
 crates/compaction/src/value.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..72cc75a 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,10 +190,9 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+			&& language == ls_language
+			&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From fb9d505bcadaf3b14856de9afde1628d06a12e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 027/101] fix: relative IRI references that have the form of a
 keyword

---
 crates/compaction/src/iri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 1639c3f..976d24d 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -4,7 +4,7 @@ use json_ld_core::{
 	context::inverse::{LangSelection, Selection, TypeSelection},
 	object, Container, Context, Indexed, Nullable, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{is_keyword, is_keyword_like};
+use json_ld_syntax::is_keyword_like;
 use rdf_types::Vocabulary;
 use std::hash::Hash;
 
@@ -500,7 +500,7 @@ where
 }
 
 fn disambiguate_keyword(s: String) -> String {
-	if is_keyword_like(&s) && !is_keyword(&s) {
+	if is_keyword_like(&s) {
 		"./".to_string() + &s
 	} else {
 		s
-- 
2.43.0


From 1687a0c7370e841896a913c4353871d360ecfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 028/101] fix: use the alias of `@id` in compacted graph
 objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..8f5fe84 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -259,7 +259,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From dc19127e04461d85529ce128a2f6b08f5b5bacbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 029/101] fix: do not compact a language-tagged string to a
 string when it would get a type

---
 crates/compaction/src/value.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index 72cc75a..8b0f4ed 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,6 +190,7 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
+			&& type_mapping.is_none()
 			&& language == ls_language
 			&& direction == ls_direction
 			{
-- 
2.43.0


From 9db82667c8b413e264fb4c4ea85aaab9aeebe93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:23 +0000
Subject: [PATCH 030/101] fix: reject terms defined by a term mapped to `null`

---
 crates/context-processing/src/algorithm/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index acb3d0b..ef09271 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -370,6 +370,11 @@ where
 											// is aborted;
 											return Err(Error::InvalidIriMapping);
 										}
+										Some(Term::Null) => {
+											// The term is defined by another term that is mapped
+											// to `null`.
+											return Err(Error::InvalidIriMapping);
+										}
 										value => value,
 									};
 
-- 
2.43.0


From ea4195849809bc18b732f5c4822b0c49153c5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 031/101] fix: only compact to relative IRI references that
 resolve to the IRI

---
 crates/compaction/src/iri.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 976d24d..1434e50 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -488,9 +488,12 @@ where
 			let base_iri = vocabulary.iri(base_iri).unwrap();
 			if let Some(iri) = var.as_iri() {
 				let iri = vocabulary.iri(iri).unwrap();
-				return Ok(Some(disambiguate_keyword(
-					iri.relative_to(base_iri).as_str().into(),
-				)));
+				let relative = iri.relative_to(base_iri);
+
+				// Only use the relative IRI reference if it denotes `var`.
+				if relative.resolved(base_iri).as_str() == iri.as_str() {
+					return Ok(Some(disambiguate_keyword(relative.as_str().into())));
+				}
 			}
 		}
 	}
-- 
2.43.0


From 41b2be761711371b3cfdd99dc88926e4131e8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 032/101] fix: recognize the alias of `@id` in compacted type
 maps

---
 crates/compaction/src/property.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8f5fe84..3baaaae 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -701,7 +701,18 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_key = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+								if map.len() == 1
+									&& map.get_unique(id_key.as_str()).ok().unwrap().is_some()
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 49fa4e6958d13cfe27189a40eb2e3e6651a6664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 033/101] fix: do not drop the values that cannot be used as
 map key

---
 crates/compaction/src/property.rs | 129 +++++++-----------------------
 1 file changed, 31 insertions(+), 98 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 3baaaae..415171b 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -381,6 +381,29 @@ where
 	Ok((nest_result, container, as_array))
 }
 
+/// Removes and returns the first value of `key` in the compacted item, if it is
+/// a string that can be used as map key.
+fn take_map_key(compacted_item: &mut json_syntax::Value, key: &str) -> Option<String> {
+	let map = compacted_item.as_object_mut()?;
+	let map_key = match map.get_unique(key).ok().unwrap()? {
+		json_syntax::Value::String(s) => s.to_string(),
+		json_syntax::Value::Array(values) => values.first()?.as_str()?.to_owned(),
+		_ => return None,
+	};
+
+	// If there are remaining values in `compacted_item` for `key`, use
+	// `add_value` to add those remaining values.
+	// Otherwise, remove that entry from compacted item.
+	let entry = map.remove_unique(key).ok().unwrap().unwrap();
+	if let json_syntax::Value::Array(values) = entry.value {
+		for value in values.into_iter().skip(1) {
+			add_value(map, key, value, false)
+		}
+	}
+
+	Some(map_key)
+}
+
 /// Compact the given property into the `result` compacted object.
 #[allow(clippy::too_many_arguments)]
 pub async fn compact_property<'a, N, L, O, T>(
@@ -568,58 +591,10 @@ where
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-									let (map_key, remaining_values) = match &mut compacted_item {
-										json_syntax::Value::Object(map) => {
-											match map
-												.remove_unique(
-													container_key.as_ref().unwrap().as_str(),
-												)
-												.ok()
-												.unwrap()
-											{
-												Some(entry) => match entry.value {
-													json_syntax::Value::String(s) => {
-														(Some(s.to_string()), Vec::new())
-													}
-													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
-													}
-													other => (None, vec![other]),
-												},
-												None => (None, Vec::new()),
-											}
-										}
-										_ => (None, Vec::new()),
-									};
-
-									// If there are remaining values in `compacted_item`
-									// for container key, use `add_value` to add
-									// those remaining values to the `container_key`
-									// in `compacted_item`.
-									// Otherwise, remove that entry from compacted item.
-									if !remaining_values.is_empty() {
-										if let Some(map) = compacted_item.as_object_mut() {
-											for value in remaining_values {
-												add_value(
-													map,
-													container_key.as_deref().unwrap(),
-													value,
-													false,
-												)
-											}
-										}
-									}
-
-									map_key
+									take_map_key(
+										&mut compacted_item,
+										container_key.as_ref().unwrap(),
+									)
 								}
 								None => {
 									// Otherwise, if `container` includes @index and
@@ -647,52 +622,10 @@ where
 
 							// Set `map_key` to the first value of `container_key` in
 							// `compacted_item`, if any.
-							let (map_key, remaining_values) = match compacted_item.as_object_mut() {
-								Some(map) => {
-									match map
-										.remove_unique(container_key.as_ref().unwrap().as_str())
-										.ok()
-										.unwrap()
-									{
-										Some(entry) => match entry.value {
-											json_syntax::Value::String(s) => {
-												(Some((*s).to_string()), Vec::new())
-											}
-											json_syntax::Value::Array(values) => {
-												let mut values = values.into_iter();
-												match values.next() {
-													Some(first_value) => (
-														first_value.as_str().map(ToOwned::to_owned),
-														values.collect(),
-													),
-													None => (None, values.collect()),
-												}
-											}
-											other => (None, vec![other]),
-										},
-										None => (None, Vec::new()),
-									}
-								}
-								_ => (None, Vec::new()),
-							};
-
-							// If there are remaining values in `compacted_item` for
-							// `container_key`, use `add_value` to add those
-							// remaining values to the `container_key` in
-							// `compacted_item`.
-							// Otherwise, remove that entry from compacted item.
-							if !remaining_values.is_empty() {
-								if let Some(map) = compacted_item.as_object_mut() {
-									for value in remaining_values {
-										add_value(
-											map,
-											container_key.as_deref().unwrap(),
-											value,
-											false,
-										)
-									}
-								}
-							}
+							let map_key = take_map_key(
+								&mut compacted_item,
+								container_key.as_ref().unwrap(),
+							);
 
 							// If `compacted_item` contains a single entry with a key
 							// expanding to @id, set `compacted_item` to the result of
-- 
2.43.0


From 13fba0a15ad7196064b2ddc4378bf1c3c23ad903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 034/101] fix: expand the index property before compacting it

---
 crates/compaction/src/property.rs | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 415171b..d51572b 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -3,12 +3,16 @@ use crate::{
 	CompactFragment, CompactIndexedFragment, Error, Options,
 };
 
+use json_ld_context_processing::{
+	algorithm::{expand_iri_simple, Action},
+	Warning as ProcessingWarning,
+};
 use json_ld_core::{
 	context::Nest,
 	object::{self, List},
-	Container, ContainerKind, Context, Id, Indexed, Loader, Node, Object, Term,
+	Container, ContainerKind, Context, Environment, Indexed, Loader, Node, Object, Term,
 };
-use json_ld_syntax::Keyword;
+use json_ld_syntax::{Keyword, Nullable};
 use rdf_types::VocabularyMut;
 use std::hash::Hash;
 
@@ -579,11 +583,27 @@ where
 									// `index_key` is not @index:
 
 									// Reinitialize `container_key` by
-									// IRI compacting `index_key`.
+									// IRI compacting `index_key` after first
+									// IRI expanding it.
+									let index_property =
+										expand_iri_simple::<ProcessingWarning, _, _, _>(
+											&mut Environment {
+												vocabulary,
+												loader,
+												warnings: &mut (),
+											},
+											active_context,
+											Nullable::Some(index_key.as_str().into()),
+											false,
+											Some(Action::Keep),
+										)
+										.ok()
+										.flatten()
+										.unwrap_or(Term::Null);
 									container_key = compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(Id::Invalid(index_key.to_string())),
+										&index_property,
 										true,
 										false,
 										options,
@@ -591,10 +611,9 @@ where
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-									take_map_key(
-										&mut compacted_item,
-										container_key.as_ref().unwrap(),
-									)
+									container_key
+										.as_deref()
+										.and_then(|key| take_map_key(&mut compacted_item, key))
 								}
 								None => {
 									// Otherwise, if `container` includes @index and
-- 
2.43.0


From 8c41a1789c94a63001c21bb6e9a5002f528ce32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 035/101] fix: language of the list items that are not strings
 in term selection

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 1434e50..75c151a 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Some(Nullable::Some((None, None)));
 								let mut is_value = false;
 
 								match item.inner() {
-- 
2.43.0


From 17dec0785797a7409b2d6a0ec8bafbe5ca454ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 036/101] fix: do not panic when a map collides with another
 compacted value

---
 crates/compaction/src/property.rs | 101 ++++++++++--------------------
 1 file changed, 32 insertions(+), 69 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index d51572b..58d98f4 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -133,28 +133,6 @@ where
 
 	// If `container` includes @graph and @id:
 	if container.contains(ContainerKind::Graph) && container.contains(ContainerKind::Id) {
-		// Initialize `map_object` to the value of `item_active_property`
-		// in `nest_result`, initializing it to a new empty map,
-		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
-
 		// Initialize `map_key` by IRI compacting the value of @id in
 		// `expanded_item` or @none if no such value exists
 		// with `vocab` set to false if there is an @id entry in
@@ -169,40 +147,18 @@ where
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, &map_key, compacted_item, as_array)
+		add_map_value(nest_result, item_active_property, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph)
 		&& container.contains(ContainerKind::Index)
 		&& node.is_simple_graph()
 	{
-		// Initialize `map_object` to the value of `item_active_property`
-		// in `nest_result`, initializing it to a new empty map,
-		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
-
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
 		let map_key = expanded_index.unwrap_or("@none");
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, map_key, compacted_item, as_array)
+		add_map_value(nest_result, item_active_property, map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph) && node.is_simple_graph() {
 		// Otherwise, if `container` includes @graph and
 		// `expanded_item` is a simple graph object
@@ -385,6 +341,29 @@ where
 	Ok((nest_result, container, as_array))
 }
 
+/// Adds the compacted item to the `map_key` entry of the map object associated
+/// to `item_active_property` in `nest_result`, initializing it to a new empty
+/// map if necessary.
+fn add_map_value(
+	nest_result: &mut json_syntax::Object,
+	item_active_property: &str,
+	map_key: &str,
+	compacted_item: json_syntax::Value,
+	as_array: bool,
+) {
+	let map_object = nest_result.get_mut_or_insert_with(item_active_property, || {
+		json_syntax::Object::default().into()
+	});
+
+	match map_object.as_object_mut() {
+		Some(map_object) => add_value(map_object, map_key, compacted_item, as_array),
+		None => {
+			// The entry already has a value that is not a map.
+			add_value(nest_result, item_active_property, compacted_item, as_array)
+		}
+	}
+}
+
 /// Removes and returns the first value of `key` in the compacted item, if it is
 /// a string that can be used as map key.
 fn take_map_key(compacted_item: &mut json_syntax::Value, key: &str) -> Option<String> {
@@ -512,28 +491,6 @@ where
 							|| container.contains(ContainerKind::Id)
 							|| container.contains(ContainerKind::Type))
 					{
-						// Initialize `map_object` to the value of
-						// `item_active_property` in `nest_result`,
-						// initializing it to a new empty map, if necessary.
-						if nest_result
-							.get_unique(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.is_none()
-						{
-							nest_result.insert(
-								item_active_property.clone().into(),
-								json_syntax::Object::default().into(),
-							);
-						}
-
-						let map_object = nest_result
-							.get_unique_mut(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.unwrap();
-						let map_object = map_object.as_object_mut().unwrap();
-
 						// Initialize container key by IRI compacting either
 						// @language, @index, @id, or @type based on the contents of container.
 						let container_type = if container.contains(ContainerKind::Language) {
@@ -703,7 +660,13 @@ where
 
 						// Use `add_value` to add `compacted_item` to
 						// the `map_key` entry in `map_object` using `as_array`.
-						add_value(map_object, &map_key, compacted_item, as_array)
+						add_map_value(
+							nest_result,
+							&item_active_property,
+							&map_key,
+							compacted_item,
+							as_array,
+						)
 					} else {
 						// Otherwise, use `add_value` to add `compacted_item` to the
 						// `item_active_property` entry in `nest_result` using `as_array`.
-- 
2.43.0


From 7e8f45011f800f4a0820e5461c487580959510c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 037/101] fix: put list and graph objects in the index map of
 their term

---
 crates/compaction/src/property.rs | 147 +++++++++++++++++++++---------
 1 file changed, 104 insertions(+), 43 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 58d98f4..c59e865 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -13,7 +13,7 @@ use json_ld_core::{
 	Container, ContainerKind, Context, Environment, Indexed, Loader, Node, Object, Term,
 };
 use json_ld_syntax::{Keyword, Nullable};
-use rdf_types::VocabularyMut;
+use rdf_types::{Vocabulary, VocabularyMut};
 use std::hash::Hash;
 
 #[allow(clippy::too_many_arguments)]
@@ -71,28 +71,19 @@ where
 		let mut compacted_item_list_object = json_syntax::Object::default();
 		compacted_item_list_object.insert(key.unwrap(), compacted_item);
 
-		// If `expanded_item` contains the entry @index-value,
-		// then add an entry to compacted item where the key is
-		// the result of IRI compacting @index and value is value.
-		if let Some(index) = expanded_index {
-			let key = compact_key(
-				vocabulary,
-				active_context,
-				&Term::Keyword(Keyword::Index),
-				true,
-				false,
-				options,
-			)?;
-
-			compacted_item_list_object
-				.insert(key.unwrap(), json_syntax::Value::String(index.into()));
-		}
-
-		compacted_item = json_syntax::Value::Object(compacted_item_list_object);
-
-		// Use add value to add `compacted_item` to
-		// the `item_active_property` entry in `nest_result` using `as_array`.
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		// Add `compacted_item` to the `item_active_property` entry in
+		// `nest_result` using `as_array`.
+		add_indexed_value(
+			vocabulary,
+			compacted_item_list_object,
+			expanded_index,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			active_context,
+			options,
+		)?
 	} else {
 		// Otherwise, set the value of the item active property entry in nest result to compacted item.
 		nest_result.insert(item_active_property.into(), compacted_item);
@@ -235,26 +226,19 @@ where
 			);
 		}
 
-		// If `expanded_item` contains an @index entry,
-		// add an entry in `compacted_item` using the key from
-		// IRI compacting @index and the value of @index in `expanded_item`.
-		if let Some(index_entry) = expanded_index {
-			let key = compact_iri(
-				vocabulary,
-				active_context,
-				&Term::Keyword(Keyword::Index),
-				true,
-				false,
-				options,
-			)?
-			.unwrap();
-			map.insert(key.into(), index_entry.into());
-		}
-
-		// Use `add_value` to add `compacted_item` to the
-		// `item_active_property` entry in `nest_result` using `as_array`.
-		let compacted_item = json_syntax::Value::Object(map);
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		// Add `compacted_item` to the `item_active_property` entry in
+		// `nest_result` using `as_array`.
+		add_indexed_value(
+			vocabulary,
+			map,
+			expanded_index,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			active_context,
+			options,
+		)?
 	}
 
 	Ok(())
@@ -364,6 +348,83 @@ fn add_map_value(
 	}
 }
 
+/// Adds the compacted list or graph object `compacted_item`, with its index, to
+/// the `item_active_property` entry in `nest_result`.
+///
+/// It must be part of the index map if `container` includes `@index`, otherwise
+/// its own entries would be interpreted as indexes.
+#[allow(clippy::too_many_arguments)]
+fn add_indexed_value<N>(
+	vocabulary: &N,
+	mut compacted_item: json_syntax::Object,
+	expanded_index: Option<&str>,
+	nest_result: &mut json_syntax::Object,
+	container: Container,
+	as_array: bool,
+	item_active_property: &str,
+	active_context: &Context<N::Iri, N::BlankId>,
+	options: Options,
+) -> Result<(), Error>
+where
+	N: Vocabulary,
+	N::Iri: Clone + Hash + Eq,
+	N::BlankId: Clone + Hash + Eq,
+{
+	let index_map = container.contains(ContainerKind::Index);
+	let property_index = active_context
+		.get(item_active_property)
+		.is_some_and(|definition| definition.index().is_some());
+	let mut map_key = None;
+
+	if let Some(index) = expanded_index {
+		if index_map && !property_index {
+			map_key = Some(index.to_owned())
+		} else {
+			// If `expanded_item` contains the entry @index-value,
+			// then add an entry to compacted item where the key is
+			// the result of IRI compacting @index and value is value.
+			let key = compact_key(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::Index),
+				true,
+				false,
+				options,
+			)?;
+			compacted_item.insert(key.unwrap(), index.into());
+		}
+	}
+
+	let compacted_item = json_syntax::Value::Object(compacted_item);
+
+	if index_map {
+		let map_key = match map_key {
+			Some(key) => key,
+			None => compact_iri(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::None),
+				true,
+				false,
+				options,
+			)?
+			.unwrap(),
+		};
+
+		add_map_value(
+			nest_result,
+			item_active_property,
+			&map_key,
+			compacted_item,
+			as_array,
+		)
+	} else {
+		add_value(nest_result, item_active_property, compacted_item, as_array)
+	}
+
+	Ok(())
+}
+
 /// Removes and returns the first value of `key` in the compacted item, if it is
 /// a string that can be used as map key.
 fn take_map_key(compacted_item: &mut json_syntax::Value, key: &str) -> Option<String> {
-- 
2.43.0


From 03a1b0e58de4908ba59776af78c9f437665ad104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 038/101] fix: scope of the contexts applied to compacted
 reverse properties

---
 crates/compaction/src/node.rs | 60 ++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..b8f1cd8 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -1,4 +1,4 @@
-use crate::{add_value, compact_iri, compact_property, Error, Options};
+use crate::{add_value, compact_iri, compact_iri_with, compact_property, Error, Options};
 use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process, ProcessingMode};
 use json_ld_core::{Container, ContainerKind, Context, Id, Loader, Node, Term, Type};
@@ -236,12 +236,65 @@ where
 			}
 
 			let mut reverse_result = json_syntax::Object::default();
+			let mut reverse_map = json_syntax::Object::default();
 			for (expanded_property, expanded_value) in reverse_properties.iter() {
+				let expanded_property: Term<N::Iri, N::BlankId> = expanded_property.clone().into();
+
+				let expanded_value = match active_context.previous_context() {
+					Some(previous_context) => {
+						// The content of a reverse properties map is not in the
+						// scope of a context that does not propagate.
+						// Only use this context for reverse properties.
+						let mut reverse_values = Vec::new();
+						let mut other_values = Vec::new();
+						for item in expanded_value {
+							let term = compact_iri_with(
+								vocabulary,
+								active_context.as_ref(),
+								&expanded_property,
+								item,
+								true,
+								true,
+								options,
+							)?;
+							let is_reverse = term
+								.and_then(|term| active_context.get(term.as_str()))
+								.is_some_and(|definition| definition.reverse_property());
+							if is_reverse {
+								reverse_values.push(item)
+							} else {
+								other_values.push(item)
+							}
+						}
+
+						if !other_values.is_empty() || expanded_value.is_empty() {
+							compact_property(
+								vocabulary,
+								&mut reverse_map,
+								expanded_property.clone(),
+								other_values,
+								previous_context,
+								loader,
+								false,
+								options,
+							)
+							.await?;
+						}
+
+						if reverse_values.is_empty() {
+							continue;
+						}
+
+						reverse_values
+					}
+					None => expanded_value.iter().collect(),
+				};
+
 				compact_property(
 					vocabulary,
 					&mut reverse_result,
-					expanded_property.clone().into(),
-					expanded_value.iter(),
+					expanded_property,
+					expanded_value,
 					active_context.as_ref(),
 					loader,
 					true,
@@ -251,7 +304,6 @@ where
 			}
 
 			// For each property and value in compacted value:
-			let mut reverse_map = json_syntax::Object::default();
 			for (property, mapped_value) in reverse_result.iter_mut() {
 				let mut value = json_syntax::Value::Null;
 				std::mem::swap(&mut value, &mut *mapped_value);
-- 
2.43.0


From 10b9d605b1dd06b55625470b2aa69b5bc7499bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 039/101] fix: define the dependencies of a term with the
 parameters of the local context

The terms a term definition depends on may be defined before their turn. They
must get the base URL and protection of the local context, and be allowed to
override protected terms, as if they were defined in turn.
---
 .../context-processing/src/algorithm/define.rs   | 14 +++++++++++---
 crates/context-processing/src/algorithm/iri.rs   | 16 ++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index ef09271..840d218 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -213,6 +213,8 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.as_ref(),
+							protected,
 							options,
 						)
 						.await?;
@@ -270,6 +272,8 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url.as_ref(),
+							protected,
 							options,
 						)
 						.await?
@@ -354,6 +358,8 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.as_ref(),
+										protected,
 										options,
 									)
 									.await?
@@ -405,6 +411,8 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.as_ref(),
+											protected,
 											options,
 										)
 										.await?;
@@ -453,9 +461,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..b9bc67b 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -24,6 +24,8 @@ impl From<MalformedIri> for Warning {
 pub type ExpandIriResult<T, B> = Result<Option<Term<T, B>>, Error>;
 
 /// Default values for `document_relative` and `vocab` should be `false` and `true`.
+/// The `base_url` and `protected` parameters are those of the local context,
+/// used to define the terms the value depends on.
 #[allow(clippy::too_many_arguments)]
 pub async fn expand_iri_with<'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
@@ -34,6 +36,8 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<&'a N::Iri>,
+	protected: bool,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +71,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.cloned(),
+				protected,
+				options,
 			))
 			.await?;
 
@@ -120,9 +124,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url.cloned(),
+						protected,
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From c5ee90938012562826860e68833d7d49d917192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 040/101] fix: relabel blank node properties

---
 crates/core/src/object/node/mod.rs | 33 ++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..2a1b359 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -633,6 +633,27 @@ impl<T: Eq + Hash, B: Eq + Hash> Node<T, B> {
 	}
 }
 
+/// Relabels the given property, if it is a blank node identifier.
+fn relabel_property<T, B, N, G>(
+	vocabulary: &mut N,
+	generator: &mut G,
+	relabeling: &mut hashbrown::HashMap<B, Subject<T, B>>,
+	property: &mut Id<T, B>,
+) where
+	T: Clone + Eq + Hash,
+	B: Clone + Eq + Hash,
+	N: Vocabulary<Iri = T, BlankId = B>,
+	G: Generator<N>,
+{
+	if let Some(b) = property.as_blank().cloned() {
+		*property = relabeling
+			.entry(b)
+			.or_insert_with(|| generator.next(vocabulary))
+			.clone()
+			.into();
+	}
+}
+
 impl<T, B> Relabel<T, B> for Node<T, B> {
 	fn relabel_with<N: Vocabulary<Iri = T, BlankId = B>, G: Generator<N>>(
 		&mut self,
@@ -688,17 +709,21 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		for (mut property, mut objects) in std::mem::take(&mut self.properties) {
+			relabel_property(vocabulary, generator, relabeling, &mut property);
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+			self.properties.set(property, objects)
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			for (mut property, mut nodes) in std::mem::take(reverse_properties) {
+				relabel_property(vocabulary, generator, relabeling, &mut property);
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+				reverse_properties.set(property, nodes)
 			}
 		}
 	}
-- 
2.43.0


From 7410a7ce7e236b12e7dc1dafebda7e09c657faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 041/101] fix: canonicalize the literals of graphs and included
 blocks

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 882caa2..c17c760 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 2a1b359..e5cd68d 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From 8dc4f1d90a9c021bb9c501bc0fc0ce103c38b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 042/101] fix: ignore the terms that have the form of a keyword

---
 crates/context-processing/src/algorithm/define.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 840d218..7c0905b 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -170,6 +170,16 @@ where
 				}
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
+
+					// If `term` has the form of a keyword (i.e., it matches the ABNF rule
+					// "@"1*ALPHA from [RFC5234]), return; processors SHOULD generate a warning.
+					if key.is_keyword_like() {
+						env.warnings
+							.handle(env.vocabulary, Warning::KeywordLikeTerm(key.to_string()));
+						defined.end(&term);
+						return Ok(());
+					}
+
 					// Initialize `previous_definition` to any existing term definition for `term` in
 					// `active_context`, removing that term definition from active context.
 					let previous_definition = active_context.set_normal(key.clone(), None);
-- 
2.43.0


From 5d831bf7b584fc4d1755a4cab3397db668070e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 043/101] fix: a null value object is dropped before its type
 is checked

---
 crates/expansion/src/value.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 522da63..5eaff4c 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -104,6 +104,7 @@ where
 	let mut language = None;
 	let mut direction = None;
 	let mut has_type = false;
+	let mut invalid_type = false;
 
 	for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 		match expanded_key {
@@ -156,7 +157,7 @@ where
 			Term::Keyword(Keyword::Type) => {
 				// A value object has at most one type.
 				if has_type {
-					return Err(InvalidValue::TypedValue);
+					invalid_type = true;
 				}
 				has_type = true;
 
@@ -177,7 +178,8 @@ where
 							is_json = false;
 							ty = Some(expanded_ty)
 						}
-						_ => return Err(InvalidValue::TypedValue),
+						// Only matters if the value is not `null`.
+						_ => invalid_type = true,
 					}
 				} else {
 					return Err(InvalidValue::TypedValue);
@@ -191,13 +193,19 @@ where
 		}
 	}
 
+	// The result must not contain both @type and either @language or @direction.
+	if has_type && (language.is_some() || direction.is_some()) {
+		return Err(InvalidValue::ValueObject);
+	}
+
 	// If input type is @json, set expanded value to value.
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
-	if is_json {
+	if is_json && !invalid_type {
 		if language.is_some() || direction.is_some() {
 			return Err(InvalidValue::ValueObject);
 		}
+
 		return Ok(Some(Indexed::new(
 			Object::Value(Value::Json(value_entry.clone())),
 			index,
@@ -226,15 +234,17 @@ where
 		return Ok(None);
 	}
 
+	// Otherwise, if the result has a @type entry and its value is not an IRI, an
+	// invalid typed value error has been detected and processing is aborted.
+	if invalid_type {
+		return Err(InvalidValue::TypedValue);
+	}
+
 	// Otherwise, if the value of result's @value entry is not a string and result
 	// contains the entry @language, an invalid language-tagged value error has
 	// been detected (only strings can be language-tagged) and processing is
 	// aborted.
 	if language.is_some() || direction.is_some() {
-		if ty.is_some() {
-			return Err(InvalidValue::ValueObject);
-		}
-
 		if let Literal::String(s) = result {
 			let lang = match language {
 				Some(language) => {
-- 
2.43.0


From 4018576866c55ddf2f3c2a067821653ccc4b5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 044/101] fix: export of contexts and comparison of their term
 definitions

---
 crates/core/src/context/definition.rs | 29 +++++++++++++++++++++++----
 crates/core/src/context/mod.rs        |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index 69ab0cc..5c7000c 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -71,7 +71,7 @@ impl<'a, T, B> BindingRef<'a, T, B> {
 }
 
 /// Context term definitions.
-#[derive(Clone)]
+#[derive(Clone, PartialEq, Eq)]
 pub struct Definitions<T, B> {
 	normal: HashMap<Key, NormalTermDefinition<T, B>>,
 	type_: Option<TypeTermDefinition>,
@@ -616,12 +616,26 @@ impl<T, B> NormalTermDefinition<T, B> {
 		let (id, reverse) = if self.reverse_property {
 			(None, self.value.map(|t| term_into_key(vocabulary, t)))
 		} else {
-			(self.value.map(|t| term_into_id(vocabulary, t)), None)
+			// A term without IRI mapping is not mapped by `@vocab` either.
+			let id = self
+				.value
+				.map(|t| term_into_id(vocabulary, t))
+				.unwrap_or(Nullable::Null);
+
+			(Some(id), None)
+		};
+
+		// As a simple term definition, this term would be usable as a prefix.
+		let simple_prefix = match &id {
+			Some(Nullable::Some(Id::Keyword(_))) | Some(Nullable::Null) | None => false,
+			Some(Nullable::Some(Id::Term(t))) => {
+				t.starts_with("_:") || t.ends_with([':', '/', '?', '#', '[', ']', '@'])
+			}
 		};
 
 		let container = self.container.into_syntax();
 
-		json_ld_syntax::context::term_definition::Expanded {
+		let definition = json_ld_syntax::context::term_definition::Expanded {
 			id,
 			type_: self
 				.typ
@@ -636,8 +650,15 @@ impl<T, B> NormalTermDefinition<T, B> {
 			prefix: if self.prefix { Some(true) } else { None },
 			propagate: None,
 			protected: if self.protected { Some(true) } else { None },
+		};
+
+		if simple_prefix && !self.prefix {
+			Nullable::Some(json_ld_syntax::context::TermDefinition::Expanded(Box::new(
+				definition,
+			)))
+		} else {
+			definition.simplify()
 		}
-		.simplify()
 	}
 
 	fn map_ids<U, C>(
diff --git a/crates/core/src/context/mod.rs b/crates/core/src/context/mod.rs
index 9b8051e..76d00a4 100644
--- a/crates/core/src/context/mod.rs
+++ b/crates/core/src/context/mod.rs
@@ -333,5 +333,6 @@ impl<T: PartialEq, B: PartialEq> PartialEq for Context<T, B> {
 			&& self.default_language == other.default_language
 			&& self.default_base_direction == other.default_base_direction
 			&& self.previous_context == other.previous_context
+			&& self.definitions == other.definitions
 	}
 }
-- 
2.43.0


From b01625ce43760b398278214b43b902ae128646e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 045/101] fix: error codes of the invalid entries of contexts

An invalid context or term definition entry is reported with the error code
the specification gives for that entry.
---
 crates/syntax/src/context/try_from_json.rs | 121 +++++++++++++++------
 1 file changed, 87 insertions(+), 34 deletions(-)

diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index d4a391c..23bf8f5 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -25,6 +25,15 @@ pub enum InvalidContext {
 
 	#[error("Invalid `@nest` value `{0}`")]
 	InvalidNestValue(String),
+
+	#[error("{code}: {error}")]
+	InvalidEntry {
+		/// Code of the error, as defined for the invalid entry.
+		code: ErrorCode,
+
+		/// Actual error.
+		error: Box<InvalidContext>,
+	},
 }
 
 impl InvalidContext {
@@ -36,10 +45,24 @@ impl InvalidContext {
 			Self::DuplicateKey => ErrorCode::DuplicateKey,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::InvalidNestValue(_) => ErrorCode::InvalidNestValue,
+			Self::InvalidEntry { code, .. } => *code,
 		}
 	}
 }
 
+/// Parses the value of a context (or term definition) entry.
+///
+/// The given error code is used if the value is not valid.
+fn entry<T: TryFromJson>(value: json_syntax::Value, code: ErrorCode) -> Result<T, InvalidContext>
+where
+	T::Error: Into<InvalidContext>,
+{
+	T::try_from_json(value).map_err(|e| InvalidContext::InvalidEntry {
+		code,
+		error: Box::new(e.into()),
+	})
+}
+
 impl From<crate::Unexpected> for InvalidContext {
 	fn from(crate::Unexpected(u, e): crate::Unexpected) -> Self {
 		Self::Unexpected(u, e)
@@ -59,28 +82,32 @@ impl TryFromJson for TermDefinition {
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Id) => def.id = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Type) => def.type_ = Some(Nullable::try_from_json(value)?),
+						Ok(Keyword::Id) => def.id = Some(entry(value, ErrorCode::InvalidIriMapping)?),
+						Ok(Keyword::Type) => {
+							def.type_ = Some(entry(value, ErrorCode::InvalidTypeMapping)?)
+						}
 						Ok(Keyword::Context) => {
-							def.context = Some(Box::new(Context::try_from_json(value)?))
+							def.context =
+								Some(Box::new(entry(value, ErrorCode::InvalidScopedContext)?))
 						}
 						Ok(Keyword::Reverse) => {
-							def.reverse = Some(definition::Key::try_from_json(value)?)
+							def.reverse = Some(entry(value, ErrorCode::InvalidIriMapping)?)
 						}
 						Ok(Keyword::Index) => {
-							def.index = Some(term_definition::Index::try_from_json(value)?)
+							def.index = Some(entry(value, ErrorCode::InvalidTermDefinition)?)
 						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language = Some(entry(value, ErrorCode::InvalidLanguageMapping)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction = Some(entry(value, ErrorCode::InvalidBaseDirection)?)
 						}
 						Ok(Keyword::Container) => {
 							let container = match value {
 								json_syntax::Value::Null => Nullable::Null,
 								other => {
-									let container = Container::try_from_json(other)?;
+									let container: Container =
+										entry(other, ErrorCode::InvalidContainerMapping)?;
 									Nullable::Some(container)
 								}
 							};
@@ -88,21 +115,30 @@ impl TryFromJson for TermDefinition {
 							def.container = Some(container)
 						}
 						Ok(Keyword::Nest) => {
-							def.nest = Some(term_definition::Nest::try_from_json(value)?)
+							def.nest = Some(entry(value, ErrorCode::InvalidNestValue)?)
+						}
+						Ok(Keyword::Prefix) => {
+							def.prefix = Some(entry(value, ErrorCode::InvalidPrefixValue)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate = Some(entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected = Some(entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Prefix) => def.prefix = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						_ => return Err(InvalidContext::InvalidTermDefinition),
 					}
 				}
 
 				Ok(Self::Expanded(Box::new(def)))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[json_syntax::Kind::String, json_syntax::Kind::Object],
-			)),
+			unexpected => Err(InvalidContext::InvalidEntry {
+				code: ErrorCode::InvalidTermDefinition,
+				error: Box::new(InvalidContext::Unexpected(
+					unexpected.kind(),
+					&[json_syntax::Kind::String, json_syntax::Kind::Object],
+				)),
+			}),
 		}
 	}
 }
@@ -299,30 +335,44 @@ impl TryFromJson for ContextEntry {
 			json_syntax::Value::Null => Ok(Self::Null),
 			json_syntax::Value::String(s) => match IriRefBuf::new(s.into_string()) {
 				Ok(iri_ref) => Ok(Self::IriRef(iri_ref)),
-				Err(e) => Err(InvalidContext::InvalidIriRef(e.0)),
+				Err(e) => Err(InvalidContext::InvalidEntry {
+					code: ErrorCode::LoadingDocumentFailed,
+					error: Box::new(InvalidContext::InvalidIriRef(e.0)),
+				}),
 			},
 			json_syntax::Value::Object(o) => {
 				let mut def = Definition::new();
 
 				for json_syntax::object::Entry { key, value } in o {
 					match Keyword::try_from(key.as_str()) {
-						Ok(Keyword::Base) => def.base = Some(Nullable::try_from_json(value)?),
-						Ok(Keyword::Import) => def.import = Some(IriRefBuf::try_from_json(value)?),
+						Ok(Keyword::Base) => {
+							def.base = Some(entry(value, ErrorCode::InvalidBaseIri)?)
+						}
+						Ok(Keyword::Import) => {
+							def.import =
+								Some(entry::<IriRefBuf>(value, ErrorCode::InvalidImportValue)?)
+						}
 						Ok(Keyword::Language) => {
-							def.language = Some(Nullable::try_from_json(value)?)
+							def.language = Some(entry(value, ErrorCode::InvalidDefaultLanguage)?)
 						}
 						Ok(Keyword::Direction) => {
-							def.direction = Some(Nullable::try_from_json(value)?)
+							def.direction = Some(entry(value, ErrorCode::InvalidBaseDirection)?)
+						}
+						Ok(Keyword::Propagate) => {
+							def.propagate = Some(entry(value, ErrorCode::InvalidPropagateValue)?)
+						}
+						Ok(Keyword::Protected) => {
+							def.protected = Some(entry(value, ErrorCode::InvalidProtectedValue)?)
 						}
-						Ok(Keyword::Propagate) => def.propagate = Some(bool::try_from_json(value)?),
-						Ok(Keyword::Protected) => def.protected = Some(bool::try_from_json(value)?),
 						Ok(Keyword::Type) => {
-							def.type_ = Some(definition::Type::try_from_json(value)?)
+							def.type_ = Some(entry(value, ErrorCode::KeywordRedefinition)?)
 						}
 						Ok(Keyword::Version) => {
-							def.version = Some(definition::Version::try_from_json(value)?)
+							def.version = Some(entry(value, ErrorCode::InvalidVersionValue)?)
+						}
+						Ok(Keyword::Vocab) => {
+							def.vocab = Some(entry(value, ErrorCode::InvalidVocabMapping)?)
 						}
-						Ok(Keyword::Vocab) => def.vocab = Some(Nullable::try_from_json(value)?),
 						_ => {
 							let term_def = match value {
 								json_syntax::Value::Null => Nullable::Null,
@@ -338,14 +388,17 @@ impl TryFromJson for ContextEntry {
 
 				Ok(Self::Definition(def))
 			}
-			unexpected => Err(InvalidContext::Unexpected(
-				unexpected.kind(),
-				&[
-					json_syntax::Kind::Null,
-					json_syntax::Kind::String,
-					json_syntax::Kind::Object,
-				],
-			)),
+			unexpected => Err(InvalidContext::InvalidEntry {
+				code: ErrorCode::InvalidLocalContext,
+				error: Box::new(InvalidContext::Unexpected(
+					unexpected.kind(),
+					&[
+						json_syntax::Kind::Null,
+						json_syntax::Kind::String,
+						json_syntax::Kind::Object,
+					],
+				)),
+			}),
 		}
 	}
 }
-- 
2.43.0


From c388a425c7d12438b48b32c30a1ee2b6094453ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 046/101] fix: reject the redefinition of keywords

---
 crates/context-processing/src/algorithm/define.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 7c0905b..510106b 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -171,6 +171,13 @@ where
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
 
+					// Otherwise, since keywords cannot be overridden, `term` must not be a
+					// keyword and a keyword redefinition error has been detected and
+					// processing is aborted.
+					if Keyword::try_from(key.as_str()).is_ok() {
+						return Err(Error::KeywordRedefinition);
+					}
+
 					// If `term` has the form of a keyword (i.e., it matches the ABNF rule
 					// "@"1*ALPHA from [RFC5234]), return; processors SHOULD generate a warning.
 					if key.is_keyword_like() {
-- 
2.43.0


From 19114e2f9d9d43c16e9c17d3135d6b81c416682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 047/101] fix: check the @index of set objects

---
 crates/expansion/src/element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index da79781..8af9ade 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -407,11 +407,14 @@ where
 				)))
 			} else if let Some(set_entry) = set_entry {
 				// Set objects.
-				for ExpandedEntry(_, expanded_key, _) in expanded_entries {
+				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 					match expanded_key {
 						Term::Keyword(Keyword::Index) => {
 							// having an `@index` here is tolerated,
 							// but is ignored.
+							if value.as_string().is_none() {
+								return Err(Error::InvalidIndexValue);
+							}
 						}
 						Term::Keyword(Keyword::Set) => (),
 						key if is_ignored(env.vocabulary, options.policy, &key) => (),
-- 
2.43.0


From f6166f92ef5b4ac69ecd7cf59342a4f5d9e0e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 048/101] fix: detect the collision of @index entries

---
 crates/expansion/src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index f923c7a..a9f022c 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -158,7 +158,8 @@ where
 				if (options.processing_mode == ProcessingMode::JsonLd1_0
 					|| (expanded_property != Keyword::Included
 						&& expanded_property != Keyword::Type))
-					&& result.has_key(&Term::Keyword(expanded_property))
+					&& (result.has_key(&Term::Keyword(expanded_property))
+						|| (expanded_property == Keyword::Index && result.index().is_some()))
 				{
 					return Err(Error::CollidingKeywords);
 				}
-- 
2.43.0


From 5ea5782a8206796f7b387a39ee7c830224fdffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 049/101] fix: expand compact IRIs whose suffix is not valid in
 an IRI

The result of the expansion is not an IRI either, but the compact form must
have the same meaning once expanded.
---
 .../context-processing/src/algorithm/iri.rs   | 142 +++++++++---------
 1 file changed, 68 insertions(+), 74 deletions(-)

diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index b9bc67b..819224d 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -8,9 +8,9 @@ use json_ld_core::{warning, Context, Id, Loader, Term};
 use json_ld_syntax::{self as syntax, context::definition::Key, ExpandableRef, Nullable};
 use rdf_types::{
 	vocabulary::{BlankIdVocabulary, IriVocabulary},
-	BlankId, Vocabulary, VocabularyMut,
+	Vocabulary, VocabularyMut,
 };
-use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like, CompactIri};
+use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like};
 
 pub struct MalformedIri(pub String);
 
@@ -96,56 +96,49 @@ where
 				}
 			}
 
-			if value.find(':').map(|i| i > 0).unwrap_or(false) {
-				if let Ok(blank_id) = BlankId::new(value) {
-					return Ok(Some(Term::Id(Id::blank(
-						env.vocabulary.insert_blank_id(blank_id),
+			if let Some((prefix, suffix)) = split_compact_iri(value) {
+				// If `prefix` is underscore (_) or `suffix` begins with double-forward-slash (//),
+				// return value as it is already an IRI or a blank node identifier.
+				if prefix == "_" || suffix.starts_with("//") {
+					return Ok(Some(Term::Id(Id::from_string_in(
+						env.vocabulary,
+						value.to_string(),
 					))));
 				}
 
-				if value == "_:" {
-					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
-				}
-
-				if let Ok(compact_iri) = CompactIri::new(value) {
-					// If local context is not null, it contains a `prefix` entry, and the value of the
-					// prefix entry in defined is not true, invoke the Create Term Definition
-					// algorithm, passing active context, local context, prefix as term, and defined.
-					// This will ensure that a term definition is created for prefix in active context
-					// during Context Processing.
-					Box::pin(super::define(
-						Environment {
-							vocabulary: env.vocabulary,
-							loader: env.loader,
-							warnings: env.warnings,
-						},
-						active_context,
-						local_context,
-						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
-						defined,
-						remote_contexts,
-						base_url.cloned(),
-						protected,
-						options,
-					))
-					.await?;
-
-					// If active context contains a term definition for prefix having a non-null IRI
-					// mapping and the prefix flag of the term definition is true, return the result
-					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
-					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
-						if term_definition.prefix {
-							if let Some(mapping) = &term_definition.value {
-								let mut result =
-									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
-
-								return Ok(Some(Term::Id(Id::from_string_in(
-									env.vocabulary,
-									result,
-								))));
-							}
+				// If local context is not null, it contains a `prefix` entry, and the value of the
+				// prefix entry in defined is not true, invoke the Create Term Definition
+				// algorithm, passing active context, local context, prefix as term, and defined.
+				// This will ensure that a term definition is created for prefix in active context
+				// during Context Processing.
+				Box::pin(super::define(
+					Environment {
+						vocabulary: env.vocabulary,
+						loader: env.loader,
+						warnings: env.warnings,
+					},
+					active_context,
+					local_context,
+					KeyOrKeywordRef::Key(prefix.into()),
+					defined,
+					remote_contexts,
+					base_url.cloned(),
+					protected,
+					options,
+				))
+				.await?;
+
+				// If active context contains a term definition for prefix having a non-null IRI
+				// mapping and the prefix flag of the term definition is true, return the result
+				// of concatenating the IRI mapping associated with prefix and suffix.
+				let prefix_key = Key::from(prefix.to_string());
+				if let Some(term_definition) = active_context.get_normal(&prefix_key) {
+					if term_definition.prefix {
+						if let Some(mapping) = &term_definition.value {
+							let mut result = mapping.with(&*env.vocabulary).as_str().to_string();
+							result.push_str(suffix);
+
+							return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))));
 						}
 					}
 				}
@@ -199,6 +192,14 @@ where
 	}
 }
 
+/// Splits the given value into a prefix and suffix at the first occurrence of
+/// a colon, if it is not the first character.
+fn split_compact_iri(value: &str) -> Option<(&str, &str)> {
+	value
+		.split_once(':')
+		.filter(|(prefix, _)| !prefix.is_empty())
+}
+
 fn invalid_iri<N, L, W: json_ld_core::warning::Handler<N, Warning>>(
 	env: &mut Environment<N, L, W>,
 	value: String,
@@ -273,34 +274,27 @@ where
 				}
 			}
 
-			if value.find(':').map(|i| i > 0).unwrap_or(false) {
-				if let Ok(blank_id) = BlankId::new(value) {
-					return Ok(Some(Term::Id(Id::blank(
-						env.vocabulary.insert_blank_id(blank_id),
+			if let Some((prefix, suffix)) = split_compact_iri(value) {
+				// If `prefix` is underscore (_) or `suffix` begins with double-forward-slash (//),
+				// return value as it is already an IRI or a blank node identifier.
+				if prefix == "_" || suffix.starts_with("//") {
+					return Ok(Some(Term::Id(Id::from_string_in(
+						env.vocabulary,
+						value.to_string(),
 					))));
 				}
 
-				if value == "_:" {
-					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
-				}
-
-				if let Ok(compact_iri) = CompactIri::new(value) {
-					// If active context contains a term definition for prefix having a non-null IRI
-					// mapping and the prefix flag of the term definition is true, return the result
-					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
-					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
-						if term_definition.prefix {
-							if let Some(mapping) = &term_definition.value {
-								let mut result =
-									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
-
-								return Ok(Some(Term::Id(Id::from_string_in(
-									env.vocabulary,
-									result,
-								))));
-							}
+				// If active context contains a term definition for prefix having a non-null IRI
+				// mapping and the prefix flag of the term definition is true, return the result
+				// of concatenating the IRI mapping associated with prefix and suffix.
+				let prefix_key = Key::from(prefix.to_string());
+				if let Some(term_definition) = active_context.get_normal(&prefix_key) {
+					if term_definition.prefix {
+						if let Some(mapping) = &term_definition.value {
+							let mut result = mapping.with(&*env.vocabulary).as_str().to_string();
+							result.push_str(suffix);
+
+							return Ok(Some(Term::Id(Id::from_string_in(env.vocabulary, result))));
 						}
 					}
 				}
-- 
2.43.0


From 637554e13d6f1d1c16d5f8c6ac4c67949ed5f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:17 +0000
Subject: [PATCH 050/101] fix: traverse the content of list objects

---
 crates/core/src/object/list.rs | 38 ++++++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs  |  4 ++++
 2 files changed, 42 insertions(+)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..09ebfa1 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,44 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn is_json_array(&self) -> bool {
+		matches!(self, Self::Value(_))
+	}
+
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(v) => SubFragments::Entry(Some(()), Some(v)),
+			Self::Key => SubFragments::None,
+			Self::Value(v) => SubFragments::Value(v.iter()),
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Value(std::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| super::FragmentRef::ListFragment(FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| super::FragmentRef::ListFragment(FragmentRef::Value(v)))
+				}),
+			Self::Value(i) => i.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index c17c760..ce508dc 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1052,6 +1052,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 		match self {
 			Self::IndexedNodeList(_) => true,
 			Self::ValueFragment(i) => i.is_json_array(),
+			Self::ListFragment(l) => l.is_json_array(),
 			Self::NodeFragment(n) => n.is_json_array(),
 			_ => false,
 		}
@@ -1077,6 +1078,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1112,6 +1114,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1131,6 +1134,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
-- 
2.43.0


From 65f5519c807427a9bd541e8ccc9d56af96801b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 051/101] fix: traverse the keys of reverse properties

---
 crates/core/src/object/node/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index e5cd68d..bfe2323 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -877,7 +877,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1201,7 +1201,11 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	/// Entries of a `@reverse` map, and nodes of the last visited entry.
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1223,9 +1227,13 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(k, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(k)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 4461f291988b27dec913a49281f12ddb2782c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 052/101] fix: is_json_object of value and node fragments

---
 crates/core/src/object/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index ce508dc..09d46cc 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1061,8 +1061,8 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_object(&self) -> bool {
 		match self {
 			Self::Object(_) | Self::IndexedObject(_) | Self::Node(_) | Self::IndexedNode(_) => true,
-			Self::ValueFragment(i) => i.is_json_array(),
-			Self::NodeFragment(i) => i.is_json_array(),
+			Self::ValueFragment(i) => i.is_json_object(),
+			Self::NodeFragment(i) => i.is_json_object(),
 			_ => false,
 		}
 	}
-- 
2.43.0


From f7237b1c83f7d7787bb56f3e650a8b4eb30cc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 053/101] fix: name of the @index entry key of objects

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 09d46cc..8c9d499 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -718,7 +718,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From e9b29d6e3ada96cb3bbe2469527fb213fecfc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 054/101] fix: compare the types of nodes in mapped_eq

---
 crates/core/src/object/mapped_eq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..2a48aa0 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -258,6 +258,7 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 		B: 'a + 'b,
 	{
 		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+			&& self.types().unordered_mapped_eq(other.types(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From 07b4cbee534a44c42cb33e97d67038bbb7cbbb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 055/101] fix: reject unexpected entries of value objects in
 expanded JSON

---
 crates/core/src/object/value.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..a04e90f 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -262,7 +262,7 @@ impl<T> Value<T> {
 		mut object: json_syntax::Object,
 		value_entry: json_syntax::object::Entry,
 	) -> Result<Self, InvalidExpandedJson> {
-		match object
+		let value = match object
 			.remove_unique("@type")
 			.map_err(InvalidExpandedJson::duplicate_key)?
 		{
@@ -291,17 +291,22 @@ impl<T> Value<T> {
 					.map(json_syntax::object::Entry::into_value);
 
 				if language.is_some() || direction.is_some() {
-					Ok(Self::LangString(LangString::try_from_json(
+					return Ok(Self::LangString(LangString::try_from_json(
 						object,
 						value_entry.value,
 						language,
 						direction,
-					)?))
-				} else {
-					let lit = value_entry.value.try_into()?;
-					Ok(Self::Literal(lit, None))
+					)?));
 				}
+
+				let lit = value_entry.value.try_into()?;
+				Ok(Self::Literal(lit, None))
 			}
+		}?;
+
+		match object.into_iter().next() {
+			Some(_) => Err(InvalidExpandedJson::UnexpectedEntry),
+			None => Ok(value),
 		}
 	}
 
-- 
2.43.0


From 90e46f29c15a64098e9ea699164ca20237bb9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 056/101] fix: Node::as_str of blank and invalid identifiers

---
 crates/core/src/object/node/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index bfe2323..2d6b7b0 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -260,11 +260,9 @@ impl<T, B> Node<T, B> {
 	pub fn as_str(&self) -> Option<&str>
 	where
 		T: AsRef<str>,
+		B: AsRef<str>,
 	{
-		match self.as_iri() {
-			Some(iri) => Some(iri.as_ref()),
-			None => None,
-		}
+		self.id.as_ref().map(Id::as_str)
 	}
 
 	/// Get the list of the node's types.
-- 
2.43.0


From 9e50b9d53b96eda59337c20afd246b299ce43883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 057/101] fix: rdf:type is not rdf:first in imported datasets

---
 crates/core/src/serialization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..0cb4142 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -265,7 +265,6 @@ impl<I, B> ExpandedDocument<I, B> {
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
-- 
2.43.0


From b203e5e3d1165a24ade1f644fe8d29ecf228800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 058/101] fix: keep nodes referring to themselves when
 importing a dataset

---
 crates/core/src/serialization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 0cb4142..e226202 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -297,7 +297,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			if quad.0 == quad.2 {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From a778109947a95190b7d267cddf14f1ce6cd8a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:28 +0000
Subject: [PATCH 059/101] fix: keep literal types when importing a dataset

---
 crates/core/src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index e226202..d2d9dcd 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -264,7 +264,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -291,7 +291,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
 				}
-				None => {
+				_ => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From 1020be71c4af62792b5c050bfd901b6ae9e31059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:30 +0000
Subject: [PATCH 060/101] fix: keep the description of types when importing a
 dataset

---
 crates/core/src/serialization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index d2d9dcd..d0a91e3 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -263,6 +263,9 @@ impl<I, B> ExpandedDocument<I, B> {
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
+			// Types are never embedded.
+			let mut is_type = false;
+
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
@@ -272,6 +275,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.types.insert(ty);
+					is_type = true;
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
@@ -297,7 +301,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.0 == quad.2 {
+			if is_type || quad.0 == quad.2 {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From 037874316e478463621fa0bca3553987fa011361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:11 +0000
Subject: [PATCH 061/101] fix: import the lists of a dataset

---
 crates/core/src/serialization.rs | 106 +++++++++++++++++++------------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index d0a91e3..fb66846 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -1,4 +1,4 @@
-use hashbrown::HashSet;
+use hashbrown::{HashMap, HashSet};
 use iref::Iri;
 use json_syntax::Parse;
 use linked_data::{FromLinkedDataError, LinkedDataDeserialize};
@@ -155,6 +155,41 @@ impl<R> SerGraph<R> {
 	{
 		self.resources.entry(id).or_default()
 	}
+
+	/// Sets the values of the list starting at each list head.
+	fn find_lists(&mut self, nil: &R, is_list_node: impl Fn(&R, &SerResource<R>) -> bool)
+	where
+		R: Copy + Ord + Hash,
+	{
+		let Some(nil) = self.get(nil) else { return };
+
+		let mut lists = Vec::new();
+		for &last_id in &nil.list.reverse_rest {
+			let mut head = None;
+			let mut values = Vec::new();
+			let mut next_id = Some(last_id);
+
+			while let Some(id) = next_id {
+				match self.get(&id) {
+					Some(node) if is_list_node(&id, node) => {
+						values.extend(node.list.first.iter().copied());
+						head = Some(id);
+						next_id = node.list.reverse_rest.iter().next().copied();
+					}
+					_ => break,
+				}
+			}
+
+			if let Some(head) = head {
+				values.reverse();
+				lists.push((head, values));
+			}
+		}
+
+		for (id, values) in lists {
+			self.resource_mut(id).list.values = Some(values)
+		}
+	}
 }
 
 enum RdfProperty {
@@ -252,6 +287,9 @@ impl<I, B> ExpandedDocument<I, B> {
 	{
 		let mut node_map: SerDataset<&'a T::Resource> = SerDataset::new();
 
+		// Graph in which each resource occurs, if there is only one.
+		let mut home: HashMap<&'a T::Resource, Option<Option<&'a T::Resource>>> = HashMap::new();
+
 		let mut nil = None;
 		let mut rdf_terms = RdfTerms {
 			list: None,
@@ -260,6 +298,18 @@ impl<I, B> ExpandedDocument<I, B> {
 		};
 
 		for quad in quads {
+			for r in [quad.0, quad.2] {
+				let h = home.entry(r).or_insert(Some(quad.3));
+				if *h != Some(quad.3) {
+					*h = None
+				}
+			}
+
+			home.insert(quad.1, None);
+			if let Some(g) = quad.3 {
+				home.insert(g, None);
+			}
+
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
@@ -293,7 +343,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				_ => {
 					subject.insert(quad.1, quad.2);
@@ -309,49 +359,21 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 		}
 
-		let mut graph = node_map.fold_into_default_graph();
-
-		let mut lists = Vec::new();
-		if let Some(nil_id) = nil {
-			if let Some(nil) = graph.get(&nil_id) {
-				for &node_id in &nil.list.reverse_rest {
-					let mut head_id = node_id;
-					if is_anonymous(interpretation, head_id) {
-						if let Some(mut head) = graph.get(&head_id) {
-							if head.references == 1 && head.is_list_node() {
-								let mut values = Vec::new();
-
-								loop {
-									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
-									values.push(first);
-
-									if is_anonymous(interpretation, parent_id) {
-										if let Some(parent) = graph.get(&parent_id) {
-											if parent.references == 1 && parent.is_list_node() {
-												head_id = parent_id;
-												head = parent;
-												continue;
-											}
-										}
-									}
-
-									break;
-								}
-
-								values.reverse();
-								lists.push((head_id, values))
-							}
-						}
-					}
-				}
+		if let Some(nil) = nil {
+			let is_list_node = |id: &&'a T::Resource, resource: &SerResource<&'a T::Resource>| {
+				resource.references == 1
+					&& resource.is_list_node()
+					&& is_anonymous(interpretation, id)
+					&& matches!(home.get(id), Some(Some(_)))
+			};
+
+			node_map.default_graph.find_lists(&nil, &is_list_node);
+			for graph in node_map.named_graphs.values_mut() {
+				graph.find_lists(&nil, &is_list_node);
 			}
 		}
 
-		for (id, values) in lists {
-			graph.resource_mut(id).list.values = Some(values)
-		}
+		let graph = node_map.fold_into_default_graph();
 
 		let mut result = ExpandedDocument::new();
 		for (id, resource) in &graph.resources {
-- 
2.43.0


From 87009c8b46a24c23fd6d3a8917f56a658d76ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:12 +0000
Subject: [PATCH 062/101] fix: keep cyclic descriptions when importing a
 dataset

---
 crates/core/src/serialization.rs | 83 +++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index fb66846..e2fc22d 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -51,11 +51,16 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
-	fn fold_into_default_graph(mut self) -> SerGraph<R> {
-		for (id, graph) in self.named_graphs {
+	fn fold_into_default_graph(mut self) -> SerGraph<R>
+	where
+		R: Copy + Ord + Hash,
+	{
+		for (id, mut graph) in self.named_graphs {
+			graph.break_cycles();
 			self.default_graph.resource_mut(id).graph = Some(graph);
 		}
 
+		self.default_graph.break_cycles();
 		self.default_graph
 	}
 }
@@ -69,6 +74,7 @@ struct SerList<R> {
 	rest: HashSet<R>,
 	reverse_rest: HashSet<R>,
 	values: Option<Vec<R>>,
+	in_list: bool,
 }
 
 impl<R> Default for SerList<R> {
@@ -78,6 +84,7 @@ impl<R> Default for SerList<R> {
 			rest: HashSet::new(),
 			reverse_rest: HashSet::new(),
 			values: None,
+			in_list: false,
 		}
 	}
 }
@@ -127,6 +134,16 @@ impl<R> SerResource<R> {
 			&& self.list.is_well_formed()
 	}
 
+	/// Resources that are embedded in this resource if nothing else refers to
+	/// them.
+	fn objects(&self) -> impl Iterator<Item = &R> {
+		self.properties
+			.values()
+			.flatten()
+			.chain(&self.list.first)
+			.chain(&self.list.rest)
+	}
+
 	fn insert(&mut self, prop: R, object: R)
 	where
 		R: Ord,
@@ -156,6 +173,62 @@ impl<R> SerGraph<R> {
 		self.resources.entry(id).or_default()
 	}
 
+	/// Makes sure that no cycle of resources is made only of embedded
+	/// resources, which would then all be left out.
+	fn break_cycles(&mut self)
+	where
+		R: Copy + Ord + Hash,
+	{
+		// The referrer of each embedded resource.
+		let mut referrers = HashMap::new();
+		for (&id, resource) in &self.resources {
+			for &object in resource.objects() {
+				if self.get(&object).is_some_and(|o| o.references == 1) {
+					referrers.insert(object, id);
+				}
+			}
+		}
+
+		let mut visited = HashSet::new();
+		let mut broken = Vec::new();
+		for &id in self.resources.keys() {
+			let mut path = Vec::new();
+			let mut next_id = Some(id);
+
+			while let Some(id) = next_id {
+				if !visited.insert(id) {
+					// The path ends on a cycle if it comes back to itself.
+					if let Some(start) = path.iter().position(|&i| i == id) {
+						let cycle = &path[start..];
+						broken.extend(
+							cycle
+								.iter()
+								.find(|id| !self.resources[*id].list.in_list)
+								.or_else(|| {
+									let is_list =
+										|id: &&R| self.resources[*id].list.values.is_some();
+									cycle.iter().find(is_list)
+								})
+								.or(cycle.first())
+								.copied(),
+						);
+					}
+
+					break;
+				}
+
+				path.push(id);
+				next_id = referrers.get(&id).copied();
+			}
+		}
+
+		for id in broken {
+			let resource = self.resource_mut(id);
+			resource.references = usize::MAX;
+			resource.list.values = None;
+		}
+	}
+
 	/// Sets the values of the list starting at each list head.
 	fn find_lists(&mut self, nil: &R, is_list_node: impl Fn(&R, &SerResource<R>) -> bool)
 	where
@@ -164,6 +237,7 @@ impl<R> SerGraph<R> {
 		let Some(nil) = self.get(nil) else { return };
 
 		let mut lists = Vec::new();
+		let mut nodes = Vec::new();
 		for &last_id in &nil.list.reverse_rest {
 			let mut head = None;
 			let mut values = Vec::new();
@@ -173,6 +247,7 @@ impl<R> SerGraph<R> {
 				match self.get(&id) {
 					Some(node) if is_list_node(&id, node) => {
 						values.extend(node.list.first.iter().copied());
+						nodes.push(id);
 						head = Some(id);
 						next_id = node.list.reverse_rest.iter().next().copied();
 					}
@@ -189,6 +264,10 @@ impl<R> SerGraph<R> {
 		for (id, values) in lists {
 			self.resource_mut(id).list.values = Some(values)
 		}
+
+		for id in nodes {
+			self.resource_mut(id).list.in_list = true
+		}
 	}
 }
 
-- 
2.43.0


From bf8e19f7c9647e848d3db8bed234c45c189d95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:27 +0000
Subject: [PATCH 063/101] fix: resolve the references of remote expansion
 contexts against their URL

---
 src/processor/remote_document.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index 7fab4e7..c7b7b4e 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -8,9 +8,14 @@ use crate::IntoDocumentResult;
 use crate::{Context, Flatten, Loader, RemoteDocument, RemoteDocumentReference};
 use contextual::WithContext;
 use json_ld_core::{Document, RemoteContextReference};
-use rdf_types::{Generator, VocabularyMut};
+use rdf_types::{vocabulary::IriVocabulary, Generator, VocabularyMut};
 use std::hash::Hash;
 
+/// Local context made of a reference to a remote context.
+fn remote_context<V: IriVocabulary>(vocabulary: &V, iri: &V::Iri) -> json_ld_syntax::Context {
+	json_ld_syntax::Context::iri_ref(vocabulary.iri(iri).unwrap().to_owned().into())
+}
+
 impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 	async fn compare_full<N>(
 		&self,
@@ -57,11 +62,12 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		let mut active_context = Context::new(options.base.clone().or_else(|| self.url().cloned()));
 
 		if let Some(expand_context) = options.expand_context.take() {
+			let expand_context = match expand_context {
+				RemoteDocumentReference::Iri(iri) => remote_context(vocabulary, &iri),
+				RemoteDocumentReference::Loaded(context) => context.into_document(),
+			};
+
 			active_context = expand_context
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
 				.process_full(
 					vocabulary,
 					&active_context,
@@ -76,11 +82,7 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		};
 
 		if let Some(context_url) = self.context_url() {
-			active_context = RemoteDocumentReference::Iri(context_url.clone())
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			active_context = remote_context(vocabulary, context_url)
 				.process_full(
 					vocabulary,
 					&active_context,
-- 
2.43.0


From 8b964aab23059ddac6a8c80e9e098f7a1a4597a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 064/101] fix: resolve the references of remote compaction
 contexts against their URL

---
 src/processor/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..074e5c5 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -1889,7 +1889,10 @@ where
 	T: Compact<N::Iri, N::BlankId>,
 	L: Loader,
 {
-	let context_base = url.or(options.base.as_ref());
+	let context_base = match &context {
+		RemoteContextReference::Iri(iri) => Some(iri.clone()),
+		RemoteContextReference::Loaded(_) => url.or(options.base.as_ref()).cloned(),
+	};
 
 	let context = context
 		.load_context_with(vocabulary, loader)
@@ -1902,7 +1905,7 @@ where
 			vocabulary,
 			&Context::new(None),
 			loader,
-			context_base.cloned(),
+			context_base,
 			options.context_processing_options(),
 			warnings,
 		)
-- 
2.43.0


From 0eb4df728ccc85650cfda10f648828fbf0d4abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 065/101] fix: quote the profile of the Accept header

---
 crates/core/src/loader/reqwest/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..25cca06 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -104,11 +104,7 @@ impl ReqwestLoader {
 		let mut json_ld_params = String::new();
 
 		if !options.request_profile.is_empty() {
-			json_ld_params.push_str("; profile=");
-
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push_str("; profile=\"");
 
 			for (i, p) in options.request_profile.iter().enumerate() {
 				if i > 0 {
@@ -118,9 +114,7 @@ impl ReqwestLoader {
 				json_ld_params.push_str(p.iri().as_str());
 			}
 
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push('"');
 		}
 
 		Self {
-- 
2.43.0


From 970b41549d56c3c538c47ea2614b84b4a64dc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 066/101] fix: white space around the parameters of a
 Content-Type header

---
 crates/core/src/loader/reqwest/content_type.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..08f5617 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -40,11 +40,12 @@ impl ContentType {
 				},
 				State::NextParam => match bytes.next().copied() {
 					Some(b';') => state = State::BeginKey,
+					Some(b' ' | b'\t') => (),
 					Some(_) => return None,
 					None => break,
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t') => (),
 					Some(b) => {
 						current_key.push(b);
 						state = State::Key
@@ -85,6 +86,14 @@ impl ContentType {
 
 						state = State::BeginKey
 					}
+					Some(b' ' | b'\t') => {
+						params.insert(
+							std::mem::take(&mut current_key),
+							std::mem::take(&mut current_value),
+						);
+
+						state = State::NextParam
+					}
 					Some(b) => current_value.push(b),
 					None => {
 						params.insert(
@@ -97,7 +106,7 @@ impl ContentType {
 			}
 		}
 
-		match Mime::from_str(std::str::from_utf8(&mime).ok()?) {
+		match Mime::from_str(std::str::from_utf8(&mime).ok()?.trim()) {
 			Ok(media_type) => Some(Self { media_type, params }),
 			Err(_) => None,
 		}
-- 
2.43.0


From a79f33c75ed5518997eccbb2240b6b14785eaa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:31 +0000
Subject: [PATCH 067/101] fix: accept JSON documents of any media type with a
 +json suffix

---
 crates/core/src/loader/reqwest/content_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 08f5617..18f4b8c 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -113,7 +113,7 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json" || self.media_type.suffix() == Some(mime::JSON)
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From 653c1a4d80baac239d74d5f1dc6f81e39c7d70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 068/101] fix: final URL of a document loaded after HTTP
 redirections

---
 crates/core/src/loader/reqwest/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 25cca06..26fe4b6 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -9,7 +9,7 @@ use iref::{Iri, IriBuf};
 use json_syntax::Parse;
 use reqwest::{
 	header::{ACCEPT, CONTENT_TYPE, LINK},
-	StatusCode,
+	StatusCode, Url,
 };
 use reqwest_middleware::ClientWithMiddleware;
 use std::string::FromUtf8Error;
@@ -157,6 +157,18 @@ impl Loader for ReqwestLoader {
 				.await
 				.map_err(|e| LoadError::new(url.clone(), e))?;
 
+			// The client may have followed redirections.
+			if let Ok(mut asked) = Url::parse(url.as_str()) {
+				let mut answered = response.url().clone();
+				asked.set_fragment(None);
+				answered.set_fragment(None);
+				if asked != answered {
+					if let Ok(answered) = IriBuf::new(response.url().to_string()) {
+						url = answered
+					}
+				}
+			}
+
 			match response.status() {
 				StatusCode::OK => {
 					let mut content_types = response
-- 
2.43.0


From 602872c4050eeea20e2fcf74758590a0de5f035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 069/101] fix: parse Link headers with several links, tokens
 and white space

---
 crates/core/src/loader/reqwest/link.rs | 115 +++++++++++++++++--------
 crates/core/src/loader/reqwest/mod.rs  |  41 ++++-----
 2 files changed, 96 insertions(+), 60 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..ba28539 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -8,7 +8,21 @@ pub struct Link {
 }
 
 impl Link {
+	/// Parses the first link of the given header.
+	#[cfg(test)]
 	pub fn new(value: &HeaderValue) -> Option<Self> {
+		Self::all(value).next()
+	}
+
+	/// Parses all the links of the given header.
+	///
+	/// See: <https://www.rfc-editor.org/rfc/rfc8288#section-3>
+	pub fn all(value: &HeaderValue) -> impl '_ + Iterator<Item = Self> {
+		let mut bytes = value.as_bytes().iter().copied();
+		std::iter::from_fn(move || Self::parse(&mut bytes))
+	}
+
+	fn parse(bytes: &mut impl Iterator<Item = u8>) -> Option<Self> {
 		enum State {
 			BeginHref,
 			Href,
@@ -16,6 +30,7 @@ impl Link {
 			BeginKey,
 			Key,
 			BeginValue,
+			QuotedValue,
 			Value,
 		}
 
@@ -25,72 +40,98 @@ impl Link {
 		let mut current_value = Vec::new();
 		let mut params = HashMap::new();
 
-		let mut bytes = value.as_bytes().iter();
+		// The first occurrence of a parameter is the one that counts.
+		let mut insert = |key: &mut Vec<u8>, value: &mut Vec<u8>| {
+			params
+				.entry(std::mem::take(key))
+				.or_insert(std::mem::take(value));
+		};
 
 		loop {
 			match state {
-				State::BeginHref => match bytes.next().copied() {
-					Some(b'<') => state = State::Href,
-					_ => break None,
+				State::BeginHref => match bytes.next()? {
+					b'<' => state = State::Href,
+					b' ' | b'\t' | b',' => (),
+					_ => return None,
 				},
-				State::Href => match bytes.next().copied() {
-					Some(b'>') => state = State::NextParam,
-					Some(b) => {
-						href.push(b);
-					}
-					None => break None,
+				State::Href => match bytes.next()? {
+					b'>' => state = State::NextParam,
+					b => href.push(b),
 				},
-				State::NextParam => match bytes.next().copied() {
+				State::NextParam => match bytes.next() {
 					Some(b';') => state = State::BeginKey,
-					Some(_) => break None,
-					None => {
-						break match IriRefBuf::from_vec(href) {
-							Ok(href) => Some(Self { href, params }),
-							Err(_) => None,
-						}
-					}
+					Some(b' ' | b'\t') => (),
+					Some(b',') | None => break,
+					Some(_) => return None,
 				},
-				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
-					Some(b) => {
+				State::BeginKey => match bytes.next()? {
+					b' ' | b'\t' => (),
+					b => {
 						current_key.push(b);
 						state = State::Key
 					}
-					None => break None,
 				},
-				State::Key => match bytes.next().copied() {
-					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => break None,
+				State::Key => match bytes.next()? {
+					b'=' => state = State::BeginValue,
+					b' ' | b'\t' => (),
+					b => current_key.push(b),
 				},
-				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
+				State::BeginValue => match bytes.next()? {
+					b'"' => state = State::QuotedValue,
+					b' ' | b'\t' => (),
+					b => {
+						current_value.push(b);
+						state = State::Value
+					}
 				},
-				State::Value => match bytes.next().copied() {
-					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
+				State::QuotedValue => match bytes.next()? {
+					b'"' => {
+						insert(&mut current_key, &mut current_value);
 						state = State::NextParam
 					}
+					b'\\' => current_value.push(bytes.next()?),
+					b => current_value.push(b),
+				},
+				State::Value => match bytes.next() {
+					Some(b';') => {
+						insert(&mut current_key, &mut current_value);
+						state = State::BeginKey
+					}
+					Some(b' ' | b'\t') => {
+						insert(&mut current_key, &mut current_value);
+						state = State::NextParam
+					}
+					Some(b',') | None => {
+						insert(&mut current_key, &mut current_value);
+						break;
+					}
 					Some(b) => current_value.push(b),
-					None => break None,
 				},
 			}
 		}
+
+		match IriRefBuf::from_vec(href) {
+			Ok(href) => Some(Self { href, params }),
+			Err(_) => None,
+		}
 	}
 
 	pub fn href(&self) -> &IriRef {
 		self.href.as_iri_ref()
 	}
 
+	#[cfg(test)]
 	pub fn rel(&self) -> Option<&[u8]> {
 		self.params.get(b"rel".as_slice()).map(Vec::as_slice)
 	}
 
+	/// Checks if the given relation type is one of those of this link.
+	pub fn has_rel(&self, rel: &[u8]) -> bool {
+		self.params
+			.get(b"rel".as_slice())
+			.is_some_and(|r| r.split(|b| *b == b' ').any(|r| r == rel))
+	}
+
 	pub fn type_(&self) -> Option<&[u8]> {
 		self.params.get(b"type".as_slice()).map(Vec::as_slice)
 	}
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 26fe4b6..31fa625 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -181,20 +181,17 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								for link in response.headers().get_all(LINK).iter().flat_map(Link::all)
+								{
+									if link.has_rel(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -230,16 +227,14 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							for link in response.headers().get_all(LINK).iter().flat_map(Link::all) {
+								if link.has_rel(b"alternate")
+									&& link.type_() == Some(b"application/ld+json")
+								{
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From 8d1fca780b7ee79793df23904da77f71568b4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 070/101] fix: mount file system loaders on prefixes without
 path or ending with a slash

---
 crates/core/src/loader/fs.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index e701190..865ee29 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -44,8 +44,22 @@ impl FsLoader {
 	///
 	/// Any document with an IRI matching the given prefix will be loaded from
 	/// the referenced local directory.
-	#[inline(always)]
-	pub fn mount<P: AsRef<Path>>(&mut self, url: IriBuf, path: P) {
+	///
+	/// A trailing slash in the prefix makes no difference.
+	pub fn mount<P: AsRef<Path>>(&mut self, mut url: IriBuf, path: P) {
+		let prefix = url.path().as_str();
+		let directory = match prefix.strip_suffix('/') {
+			None if prefix.is_empty() => Some("/".to_owned()),
+			Some(directory) if !directory.is_empty() => Some(directory.to_owned()),
+			_ => None,
+		};
+
+		if let Some(directory) = directory {
+			if let Ok(directory) = iref::iri::Path::new(&directory) {
+				url.set_path(directory)
+			}
+		}
+
 		self.mount_points.push((path.as_ref().into(), url));
 	}
 
-- 
2.43.0


From f2b7d8eb036a3f6b98b16a115d4458b4b3d099e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 071/101] fix: length of the iterator over context bindings

---
 crates/syntax/src/context/definition/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/syntax/src/context/definition/mod.rs b/crates/syntax/src/context/definition/mod.rs
index b95e220..bc00b7b 100644
--- a/crates/syntax/src/context/definition/mod.rs
+++ b/crates/syntax/src/context/definition/mod.rs
@@ -161,6 +161,10 @@ pub struct BindingsIter<'a>(indexmap::map::Iter<'a, Key, Nullable<TermDefinition
 impl<'a> Iterator for BindingsIter<'a> {
 	type Item = (&'a Key, Nullable<&'a TermDefinition>);
 
+	fn size_hint(&self) -> (usize, Option<usize>) {
+		self.0.size_hint()
+	}
+
 	fn next(&mut self) -> Option<Self::Item> {
 		self.0.next().map(|(k, d)| (k, d.as_ref()))
 	}
-- 
2.43.0


From a43e6b1ca55dd02e80899554d288c328785e9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 072/101] fix: do not simplify term definitions without entries
 to null

---
 crates/syntax/src/context/term_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index 3d22c94..2271096 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -210,7 +210,7 @@ impl Expanded {
 	}
 
 	pub fn is_null(&self) -> bool {
-		matches!(&self.id, None | Some(Nullable::Null))
+		matches!(&self.id, Some(Nullable::Null))
 			&& self.type_.is_none()
 			&& self.context.is_none()
 			&& self.reverse.is_none()
-- 
2.43.0


From a4244a002d2c4b1c69f2b960da7f946530f1081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 073/101] fix: do not serialize a missing @protected entry of
 @type as null

---
 crates/syntax/src/context/definition/type_.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/definition/type_.rs b/crates/syntax/src/context/definition/type_.rs
index 4edf300..f81f218 100644
--- a/crates/syntax/src/context/definition/type_.rs
+++ b/crates/syntax/src/context/definition/type_.rs
@@ -6,7 +6,14 @@ pub struct Type {
 	#[cfg_attr(feature = "serde", serde(rename = "@container"))]
 	pub container: TypeContainer,
 
-	#[cfg_attr(feature = "serde", serde(rename = "@protected"))]
+	#[cfg_attr(
+		feature = "serde",
+		serde(
+			rename = "@protected",
+			default,
+			skip_serializing_if = "Option::is_none"
+		)
+	)]
 	pub protected: Option<bool>,
 }
 
-- 
2.43.0


From cd3551c7ab70d2312748d3e12a8b053b34b5ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 074/101] fix: deserialize null scoped contexts

---
 .../syntax/src/context/term_definition/mod.rs   | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index 2271096..9c1631f 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -122,7 +122,12 @@ pub struct Expanded {
 
 	#[cfg_attr(
 		feature = "serde",
-		serde(rename = "@context", default, skip_serializing_if = "Option::is_none")
+		serde(
+			rename = "@context",
+			default,
+			deserialize_with = "deserialize_some",
+			skip_serializing_if = "Option::is_none"
+		)
 	)]
 	pub context: Option<Box<context::Context>>,
 
@@ -204,6 +209,16 @@ pub struct Expanded {
 	pub protected: Option<bool>,
 }
 
+/// Deserializes the value of an entry that is present, even if it is `null`.
+#[cfg(feature = "serde")]
+fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	T: serde::Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 impl Expanded {
 	pub fn new() -> Self {
 		Self::default()
-- 
2.43.0


From f809072981c089b55df2266f10aafa99244cf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 075/101] fix: accept every representation of the version
 number

---
 crates/syntax/src/context/definition/version.rs | 14 +++++++++-----
 crates/syntax/src/context/try_from_json.rs      |  7 +++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/syntax/src/context/definition/version.rs b/crates/syntax/src/context/definition/version.rs
index cb8d633..3fdf058 100644
--- a/crates/syntax/src/context/definition/version.rs
+++ b/crates/syntax/src/context/definition/version.rs
@@ -60,15 +60,19 @@ impl From<Version> for json_syntax::NumberBuf {
 	}
 }
 
+impl<'a> TryFrom<&'a json_syntax::Number> for Version {
+	type Error = UnknownVersion;
+
+	fn try_from(value: &'a json_syntax::Number) -> Result<Self, Self::Error> {
+		value.as_f64_lossy().try_into()
+	}
+}
+
 impl TryFrom<json_syntax::NumberBuf> for Version {
 	type Error = UnknownVersion;
 
 	fn try_from(value: json_syntax::NumberBuf) -> Result<Self, Self::Error> {
-		if value.trimmed().as_str() == "1.1" {
-			Ok(Self::V1_1)
-		} else {
-			Err(UnknownVersion(value.to_string()))
-		}
+		Self::try_from(value.as_number()).map_err(|_| UnknownVersion(value.to_string()))
 	}
 }
 
diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index 23bf8f5..a403489 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -223,10 +223,9 @@ impl TryFromJson for definition::Version {
 
 	fn try_from_json(value: json_syntax::Value) -> Result<Self, InvalidContext> {
 		match value {
-			json_syntax::Value::Number(n) => match n.as_str() {
-				"1.1" => Ok(Self::V1_1),
-				_ => Err(InvalidContext::InvalidTermDefinition),
-			},
+			json_syntax::Value::Number(n) => {
+				Self::try_from(n).map_err(|_| InvalidContext::InvalidTermDefinition)
+			}
 			unexpected => Err(InvalidContext::Unexpected(
 				unexpected.kind(),
 				&[json_syntax::Kind::Number],
-- 
2.43.0


From 8de252f7dbb07565441ee9f47bdfd874c06b6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 076/101] fix: parse the duplicate key error code

---
 crates/syntax/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/syntax/src/error.rs b/crates/syntax/src/error.rs
index 094753b..76e39df 100644
--- a/crates/syntax/src/error.rs
+++ b/crates/syntax/src/error.rs
@@ -290,6 +290,7 @@ impl<'a> TryFrom<&'a str> for ErrorCode {
 			"multiple context link headers" => Ok(MultipleContextLinkHeaders),
 			"processing mode conflict" => Ok(ProcessingModeConflict),
 			"protected term redefinition" => Ok(ProtectedTermRedefinition),
+			"duplicate key" => Ok(DuplicateKey),
 			_ => Err(()),
 		}
 	}
-- 
2.43.0


From d5c229bc0ebffb7e5e3ebf54f886f90ef3b0e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 077/101] fix: expand entries in order when the ordered option
 is set

Entries were copied, but not sorted.
---
 crates/expansion/src/element.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 8af9ade..e838692 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -213,7 +213,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
-- 
2.43.0


From 0765281a50f4b6cbcebae298b3e1e6955fa2c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 078/101] fix: terminate the lists of visited linked data with
 rdf:nil

---
 .../core/src/deserialization/object/list.rs   | 39 ++++++++++++++-----
 crates/core/src/deserialization/object/mod.rs |  1 +
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/deserialization/object/list.rs b/crates/core/src/deserialization/object/list.rs
index 6b07da2..0419483 100644
--- a/crates/core/src/deserialization/object/list.rs
+++ b/crates/core/src/deserialization/object/list.rs
@@ -1,22 +1,25 @@
 use linked_data::{
-	LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
-	ResourceInterpretation,
+	CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource,
+	LinkedDataSubject, ResourceInterpretation,
 };
-use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Id, Interpretation, Term, Vocabulary};
 
 use crate::{
 	object::List,
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	IndexedObject,
 };
 
-impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B> {
+impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.as_slice())
 	}
 }
 
@@ -80,15 +83,31 @@ where
 	}
 }
 
+/// The empty list is `rdf:nil`, any other list is an anonymous resource.
+fn list_interpretation<'a, T, B, V: Vocabulary + IriVocabularyMut, I: Interpretation>(
+	vocabulary: &mut V,
+	items: &[IndexedObject<T, B>],
+) -> ResourceInterpretation<'a, I, V> {
+	ResourceInterpretation::Uninterpreted(if items.is_empty() {
+		let nil = vocabulary.insert(RDF_NIL);
+		Some(CowRdfTerm::Owned(Term::Id(Id::Iri(nil))))
+	} else {
+		None
+	})
+}
+
 struct Rest<'a, T, B>(&'a [IndexedObject<T, B>]);
 
-impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B> {
+impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.0)
 	}
 }
 
diff --git a/crates/core/src/deserialization/object/mod.rs b/crates/core/src/deserialization/object/mod.rs
index f51ed88..992c84a 100644
--- a/crates/core/src/deserialization/object/mod.rs
+++ b/crates/core/src/deserialization/object/mod.rs
@@ -13,6 +13,7 @@ impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataResource<I, V> f
 where
 	T: LinkedDataResource<I, V>,
 	B: LinkedDataResource<I, V>,
+	V: IriVocabularyMut,
 {
 	fn interpretation(
 		&self,
-- 
2.43.0


From aab3e6cf048939957d4a34dfe6c5727a611427cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 079/101] fix: visit the graph of a node which has other
 entries

---
 crates/core/src/deserialization/object/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..d200d08 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -51,7 +51,7 @@ where
 			}
 		}
 
-		if self.is_graph() {
+		if self.graph().is_some() {
 			visitor.graph(self)?;
 		}
 
@@ -119,7 +119,7 @@ where
 		if self.is_graph() {
 			visitor.named_graph(self)?;
 		} else {
-			visitor.default_graph(self)?;
+			visitor.default_graph(std::slice::from_ref(self))?;
 		}
 
 		visitor.end()
-- 
2.43.0


From 81c1d5ead09390230a8ad6b5ecd16c749d1880ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:21 +0000
Subject: [PATCH 080/101] fix: visit JSON literals with the value they have in
 RDF

---
 .../core/src/deserialization/object/value.rs  | 54 +++++++++++++------
 crates/core/src/rdf/mod.rs                    | 36 +++++++------
 2 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index d2f147e..c602cbb 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -2,11 +2,18 @@ use linked_data::{
 	xsd_types, CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects,
 	LinkedDataResource, LinkedDataSubject, RdfLiteral, RdfLiteralRef, ResourceInterpretation,
 };
-use rdf_types::{Interpretation, LiteralTypeRef, Term, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, LiteralType, LiteralTypeRef, Term, Vocabulary};
 
-use crate::{object::Literal, Value};
+use crate::{
+	object::Literal,
+	rdf::{number_lexical_form, XSD_INTEGER},
+	Value,
+};
 
-impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn interpretation(
 		&self,
 		vocabulary: &mut V,
@@ -17,21 +24,32 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Null => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::String("null".to_string()),
 				))),
-				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
-					xsd_types::Value::Boolean((*b).into()),
-				))),
+				Literal::Boolean(b) => match ty {
+					Some(ty) => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
+						if *b { "true" } else { "false" },
+						LiteralTypeRef::Any(ty),
+					))),
+					None => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
+						xsd_types::Value::Boolean((*b).into()),
+					))),
+				},
 				Literal::Number(n) => match ty {
 					Some(ty) => match typed_number_interpretation(vocabulary, ty, n) {
 						Some(value) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value))),
-						None => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
-							n.as_str(),
-							LiteralTypeRef::Any(ty),
-						))),
+						None => {
+							let ty_iri = vocabulary.iri(ty).unwrap().to_owned();
+							let ty = vocabulary.insert_owned(ty_iri);
+							CowRdfTerm::Owned(Term::Literal(RdfLiteral::Any(
+								number_lexical_form(n, false).0,
+								LiteralType::Any(ty),
+							)))
+						}
 					},
 					None => {
-						let value = match n.as_i64() {
-							Some(i) => xsd_types::Value::Integer(i.into()),
-							None => xsd_types::Value::Double(n.as_f64_lossy().into()),
+						let (lit, number_ty) = number_lexical_form(n, false);
+						let value = match lit.parse() {
+							Ok(i) if number_ty == XSD_INTEGER => xsd_types::Value::Integer(i),
+							_ => xsd_types::Value::Double(n.as_f64_lossy().into()),
 						};
 
 						CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value)))
@@ -86,7 +104,10 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for V
 	}
 }
 
-impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn visit_graph<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::GraphVisitor<I, V>,
@@ -96,7 +117,10 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataGraph<I, V> for Value<V::Iri> {
 	}
 }
 
-impl<V: Vocabulary, I: Interpretation> LinkedData<I, V> for Value<V::Iri> {
+impl<V: Vocabulary, I: Interpretation> LinkedData<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
 	fn visit<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::Visitor<I, V>,
diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 4590d39..0dd117e 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -266,21 +266,8 @@ impl<T: Clone> crate::object::Value<T> {
 							.as_ref()
 							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
 							.unwrap_or(false);
-						let f = n.as_f64_lossy();
-
-						if is_double || f.fract() != 0.0 || f.abs() >= 1e21 {
-							(
-								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
-								Some(vocabulary.insert(XSD_DOUBLE)),
-							)
-						} else {
-							// Number without fractional part, in canonical form.
-							let lit = match n.as_i64() {
-								Some(i) => i.to_string(),
-								None => format!("{:.0}", if f == 0.0 { 0.0 } else { f }),
-							};
-							(lit, Some(vocabulary.insert(XSD_INTEGER)))
-						}
+						let (lit, number_ty) = number_lexical_form(n, is_double);
+						(lit, Some(vocabulary.insert(number_ty)))
 					}
 					value::Literal::String(s) => (s.to_string(), None),
 				};
@@ -316,6 +303,25 @@ const XSD_CANONICAL_FLOAT: pretty_dtoa::FmtFloatConfig = pretty_dtoa::FmtFloatCo
 	.force_e_notation()
 	.capitalize_e(true);
 
+/// Canonical lexical form of a JSON number, and its type if it has no other.
+pub(crate) fn number_lexical_form(
+	n: &json_syntax::Number,
+	is_double: bool,
+) -> (String, &'static Iri) {
+	let f = n.as_f64_lossy();
+
+	if is_double || f.fract() != 0.0 || f.abs() >= 1e21 {
+		(pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT), XSD_DOUBLE)
+	} else {
+		// Number without fractional part, in canonical form.
+		let lit = match n.as_i64() {
+			Some(i) => i.to_string(),
+			None => format!("{:.0}", if f == 0.0 { 0.0 } else { f }),
+		};
+		(lit, XSD_INTEGER)
+	}
+}
+
 impl<T: Clone, B: Clone> Node<T, B> {
 	fn rdf_value<L>(&self) -> Option<Value<T, B, L>> {
 		self.id.as_ref().and_then(Id::rdf_value)
-- 
2.43.0


From 8f9495095ace8c00faa51f6059bdbfb8736c60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:00 +0000
Subject: [PATCH 081/101] fix: keep every visit of a predicate or graph when
 serializing

---
 crates/serialization/src/expanded/node.rs   | 18 ++++++++++++------
 crates/serialization/src/expanded/object.rs | 11 ++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/serialization/src/expanded/node.rs b/crates/serialization/src/expanded/node.rs
index e2d4e7b..15336ed 100644
--- a/crates/serialization/src/expanded/node.rs
+++ b/crates/serialization/src/expanded/node.rs
@@ -1,5 +1,8 @@
 use iref::Iri;
-use json_ld_core::{object::node::Multiset, Indexed, Node, Object};
+use json_ld_core::{
+	object::{node::Multiset, Graph},
+	Indexed, Node, Object,
+};
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
@@ -103,7 +106,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects: Multiset<_> = Multiset::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
@@ -115,10 +118,10 @@ where
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.result.properties_mut().set(prop, non_iri_objects);
+				self.result.properties_mut().insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.result.properties_mut().set(prop, objects);
+			self.result.properties_mut().insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -142,7 +145,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 		self.result
 			.reverse_properties_mut_or_default()
-			.set(prop, objects);
+			.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -166,7 +169,10 @@ where
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
 
 		let graph = value.visit_graph(serializer)?;
-		self.result.graph = Some(graph);
+		self.result
+			.graph
+			.get_or_insert_with(Graph::new)
+			.extend(graph);
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..52a31a9 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -143,7 +143,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects: Multiset<_> = Multiset::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
@@ -155,10 +155,10 @@ where
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.properties.set(prop, non_iri_objects);
+				self.properties.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.properties.set(prop, objects);
+			self.properties.insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -180,7 +180,7 @@ where
 		let serializer = SerializeReverseProperty::new(self.vocabulary, self.interpretation);
 
 		let objects = value.visit_objects(serializer)?;
-		self.reverse_properties.set(prop, objects);
+		self.reverse_properties.insert_all(prop, objects);
 
 		Ok(())
 	}
@@ -199,7 +199,8 @@ where
 		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
 	{
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
-		self.graph = Some(value.visit_graph(serializer)?);
+		let graph = value.visit_graph(serializer)?;
+		self.graph.get_or_insert_with(Graph::new).extend(graph);
 		Ok(())
 	}
 
-- 
2.43.0


From b7ce263bfd8923f5e0161cbc783d96994c4743a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:09 +0000
Subject: [PATCH 082/101] fix: serialize lists as lists

---
 .../src/expanded/default_graph.rs             |  27 +--
 crates/serialization/src/expanded/graph.rs    |   4 +-
 crates/serialization/src/expanded/list.rs     | 199 ------------------
 crates/serialization/src/expanded/mod.rs      |   1 -
 crates/serialization/src/expanded/object.rs   | 175 ++++++++-------
 5 files changed, 112 insertions(+), 294 deletions(-)
 delete mode 100644 crates/serialization/src/expanded/list.rs

diff --git a/crates/serialization/src/expanded/default_graph.rs b/crates/serialization/src/expanded/default_graph.rs
index 8122d5e..e3a0183 100644
--- a/crates/serialization/src/expanded/default_graph.rs
+++ b/crates/serialization/src/expanded/default_graph.rs
@@ -1,18 +1,18 @@
 use std::hash::Hash;
 
-use json_ld_core::{ExpandedDocument, Indexed, Object};
-use linked_data::{CowRdfTerm, LinkedDataResource};
+use json_ld_core::{ExpandedDocument, Indexed};
+use linked_data::LinkedDataResource;
 use rdf_types::{
 	interpretation::{
 		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
 	},
 	vocabulary::IriVocabularyMut,
-	Interpretation, Term, Vocabulary,
+	Interpretation, Vocabulary,
 };
 
 use crate::Error;
 
-use super::{node::SerializeNode, value::literal_to_value};
+use super::object::serialize_subject_with;
 
 pub struct SerializeDefaultGraph<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
@@ -51,23 +51,8 @@ where
 	where
 		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
 	{
-		let id = match value
-			.lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_owned)
-		{
-			Some(Term::Literal(lit)) => {
-				let value = literal_to_value(self.vocabulary, lit);
-				self.result.insert(Indexed::new(Object::Value(value), None));
-				return Ok(());
-			}
-			Some(Term::Id(id)) => Some(json_ld_core::Id::Valid(id)),
-			_ => None,
-		};
-
-		let serializer = SerializeNode::new(self.vocabulary, self.interpretation, id);
-
-		let node = value.visit_subject(serializer)?;
-		self.result.insert(Indexed::new(Object::node(node), None));
+		let object = serialize_subject_with(self.vocabulary, self.interpretation, value)?;
+		self.result.insert(Indexed::new(object, None));
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/graph.rs b/crates/serialization/src/expanded/graph.rs
index 33aeaeb..151b0ec 100644
--- a/crates/serialization/src/expanded/graph.rs
+++ b/crates/serialization/src/expanded/graph.rs
@@ -12,7 +12,7 @@ use rdf_types::{
 
 use crate::Error;
 
-use super::object::serialize_object_with;
+use super::object::serialize_subject_with;
 
 pub struct SerializeGraph<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
@@ -47,7 +47,7 @@ where
 	where
 		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
 	{
-		let object = serialize_object_with(self.vocabulary, self.interpretation, value)?;
+		let object = serialize_subject_with(self.vocabulary, self.interpretation, value)?;
 		self.result.insert(Indexed::new(object, None));
 		Ok(())
 	}
diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
deleted file mode 100644
index 8bd5f08..0000000
--- a/crates/serialization/src/expanded/list.rs
+++ /dev/null
@@ -1,199 +0,0 @@
-use std::hash::Hash;
-
-use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
-	Indexed, IndexedObject, Object,
-};
-use linked_data::{CowRdfTerm, LinkedDataResource};
-use rdf_types::{
-	interpretation::{
-		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
-	},
-	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
-};
-
-use crate::Error;
-
-use super::object::serialize_object_with;
-
-pub struct SerializeList<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			first: None,
-			rest: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
-	for SerializeList<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		let repr = predicate
-			.interpretation(self.vocabulary, self.interpretation)
-			.into_lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_term);
-
-		match repr {
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = id {
-					let iri = self.vocabulary.iri(iri.as_ref()).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = value.visit_objects(serializer)?;
-					}
-				}
-
-				Ok(())
-			}
-			_ => Err(Error::InvalidPredicate),
-		}
-	}
-
-	fn reverse_predicate<L, T>(&mut self, _predicate: &L, _subjects: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		Err(Error::ListReverseProperty)
-	}
-
-	fn graph<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
-	{
-		Ok(())
-	}
-
-	fn include<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		Err(Error::ListInclude)
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
-	}
-}
-
-pub struct SerializeListFirst<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Option<Object<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: None,
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListFirst<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Option<Object<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		self.result = Some(serialize_object_with(
-			self.vocabulary,
-			self.interpretation,
-			value,
-		)?);
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
-
-pub struct SerializeListRest<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListRest<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
diff --git a/crates/serialization/src/expanded/mod.rs b/crates/serialization/src/expanded/mod.rs
index f6d8e67..f71fe9f 100644
--- a/crates/serialization/src/expanded/mod.rs
+++ b/crates/serialization/src/expanded/mod.rs
@@ -13,7 +13,6 @@ use crate::Error;
 
 mod default_graph;
 mod graph;
-mod list;
 mod node;
 mod object;
 mod property;
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 52a31a9..7b4ed56 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -5,8 +5,8 @@ use json_ld_core::{
 		node::{Included, Multiset, Properties, ReverseProperties},
 		Graph, List,
 	},
-	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
-	Indexed, IndexedObject, Node, Object,
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
+	Indexed, Node, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
@@ -14,14 +14,13 @@ use rdf_types::{
 		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
 	},
 	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
+	Interpretation, Term, Vocabulary,
 };
 
 use crate::Error;
 
 use super::{
 	graph::SerializeGraph,
-	list::{SerializeListFirst, SerializeListRest},
 	node::{into_type_value, is_iri, SerializeNode},
 	property::{SerializeProperty, SerializeReverseProperty},
 	serialize_node_with,
@@ -53,13 +52,16 @@ where
 			Ok(Object::Value(value))
 		}
 		Some(Term::Id(id)) => {
-			let serializer = SerializeNode::new(
-				vocabulary,
-				interpretation,
-				Some(json_ld_core::Id::Valid(id)),
-			);
-
-			Ok(Object::node(value.visit_subject(serializer)?))
+			let id = json_ld_core::Id::Valid(id);
+			let is_nil = is_iri(vocabulary, &id, RDF_NIL);
+			let serializer = SerializeNode::new(vocabulary, interpretation, Some(id));
+			let node = value.visit_subject(serializer)?;
+
+			if is_nil && node.is_empty() {
+				Ok(Object::List(List::new(Vec::new())))
+			} else {
+				Ok(Object::node(node))
+			}
 		}
 		None => {
 			let serializer = SerializeObject::new(vocabulary, interpretation);
@@ -69,6 +71,39 @@ where
 	}
 }
 
+/// Serialize the given subject of a graph, which is not turned into a list
+/// since lists may only appear as property values.
+pub(crate) fn serialize_subject_with<I, V, T>(
+	vocabulary: &mut V,
+	interpretation: &mut I,
+	value: &T,
+) -> Result<Object<V::Iri, V::BlankId>, Error>
+where
+	V: Vocabulary + IriVocabularyMut,
+	V::Iri: Clone + Eq + Hash,
+	V::BlankId: Clone + Eq + Hash,
+	I: ReverseIriInterpretation<Iri = V::Iri>
+		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
+		+ ReverseLiteralInterpretation<Literal = V::Literal>,
+	T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
+{
+	let id = match value
+		.lexical_representation(vocabulary, interpretation)
+		.map(CowRdfTerm::into_owned)
+	{
+		Some(Term::Literal(lit)) => {
+			let value = literal_to_value(vocabulary, lit);
+			return Ok(Object::Value(value));
+		}
+		Some(Term::Id(id)) => Some(json_ld_core::Id::Valid(id)),
+		None => None,
+	};
+
+	let serializer = SerializeNode::new(vocabulary, interpretation, id);
+
+	Ok(Object::node(value.visit_subject(serializer)?))
+}
+
 pub struct SerializeObject<'a, I, V: Vocabulary> {
 	vocabulary: &'a mut V,
 	interpretation: &'a mut I,
@@ -77,8 +112,6 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	reverse_properties: ReverseProperties<V::Iri, V::BlankId>,
 	included: Included<V::Iri, V::BlankId>,
 	graph: Option<Graph<V::Iri, V::BlankId>>,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -91,12 +124,51 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			reverse_properties: ReverseProperties::new(),
 			included: Included::new(),
 			graph: None,
-			first: None,
-			rest: None,
 		}
 	}
 }
 
+impl<'a, I, V: Vocabulary + IriVocabularyMut> SerializeObject<'a, I, V>
+where
+	V::Iri: Clone + Eq + Hash,
+	V::BlankId: Clone + Eq + Hash,
+{
+	/// Turns the object into a list, if it is nothing but the cell of a list:
+	/// a `rdf:first` object followed by a `rdf:rest` list.
+	fn take_list(&mut self) -> Option<List<V::Iri, V::BlankId>> {
+		if self.properties.len() != 2
+			|| !self.types.is_empty()
+			|| !self.reverse_properties.is_empty()
+			|| !self.included.is_empty()
+			|| self.graph.is_some()
+		{
+			return None;
+		}
+
+		let first = json_ld_core::Id::iri(self.vocabulary.insert(RDF_FIRST));
+		let rest = json_ld_core::Id::iri(self.vocabulary.insert(RDF_REST));
+
+		match (
+			self.properties.get(&first).collect::<Vec<_>>().as_slice(),
+			self.properties.get(&rest).collect::<Vec<_>>().as_slice(),
+		) {
+			([_], [tail]) if tail.is_list() => (),
+			_ => return None,
+		}
+
+		let mut list = match self.properties.remove(&rest)?.into_iter().next()?.into_inner() {
+			Object::List(list) => list,
+			_ => return None,
+		};
+
+		for item in self.properties.remove(&first)? {
+			list.entry_mut().insert(0, item)
+		}
+
+		Some(list)
+	}
+}
+
 impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
 	for SerializeObject<'a, I, V>
 where
@@ -119,22 +191,7 @@ where
 			.lexical_representation(self.vocabulary, self.interpretation)
 			.map(CowRdfTerm::into_owned)
 		{
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = &id {
-					let iri = self.vocabulary.iri(iri).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
-					}
-				}
-
-				json_ld_core::Id::Valid(id)
-			}
+			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
 			_ => return Err(Error::InvalidPredicate),
 		};
 
@@ -205,52 +262,28 @@ where
 	}
 
 	fn end(mut self) -> Result<Self::Ok, Self::Error> {
-		if self.first.is_some()
-			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
-			&& self.graph.is_none()
-		{
-			#[allow(clippy::unnecessary_unwrap)]
-			let mut items = self.rest.unwrap();
-			#[allow(clippy::unnecessary_unwrap)]
-			items.push(Indexed::none(self.first.unwrap()));
-			items.reverse();
-			Ok(Object::List(List::new(items)))
-		} else {
-			if let Some(item) = self.first {
-				let iri = self.vocabulary.insert(RDF_FIRST);
-				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
-			}
-
-			if let Some(rest) = self.rest {
-				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
-			}
+		if let Some(list) = self.take_list() {
+			return Ok(Object::List(list));
+		}
 
-			let mut node = Node::new();
+		let mut node = Node::new();
 
-			if !self.types.is_empty() {
-				node.types = Some(self.types)
-			}
+		if !self.types.is_empty() {
+			node.types = Some(self.types)
+		}
 
-			*node.properties_mut() = self.properties;
+		*node.properties_mut() = self.properties;
 
-			if !self.reverse_properties.is_empty() {
-				node.set_reverse_properties(Some(self.reverse_properties));
-			}
+		if !self.reverse_properties.is_empty() {
+			node.set_reverse_properties(Some(self.reverse_properties));
+		}
 
-			if !self.included.is_empty() {
-				node.set_included(Some(self.included));
-			}
+		if !self.included.is_empty() {
+			node.set_included(Some(self.included));
+		}
 
-			node.graph = self.graph;
+		node.graph = self.graph;
 
-			Ok(Object::node(node))
-		}
+		Ok(Object::node(node))
 	}
 }
-- 
2.43.0


From 63212a10ab8a2ea1d128e3fa50f427211de13668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:21 +0000
Subject: [PATCH 083/101] fix: visit the literals of a list

---
 crates/core/src/deserialization/object/value.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index c602cbb..6ed4e81 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -95,11 +95,15 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	}
 }
 
-impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<T> {
-	fn visit_objects<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
+impl<V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<V::Iri>
+where
+	V: IriVocabularyMut,
+{
+	fn visit_objects<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::PredicateObjectsVisitor<I, V>,
 	{
+		visitor.object(self)?;
 		visitor.end()
 	}
 }
-- 
2.43.0


From 8600b5c348cbecacd94f5a34ac61564192a5d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:22 +0000
Subject: [PATCH 084/101] fix: do not visit the free-floating values of a graph
 as subjects

---
 crates/core/src/deserialization/mod.rs         | 5 ++++-
 crates/core/src/deserialization/object/node.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/mod.rs b/crates/core/src/deserialization/mod.rs
index 711f244..d8a4d69 100644
--- a/crates/core/src/deserialization/mod.rs
+++ b/crates/core/src/deserialization/mod.rs
@@ -17,7 +17,10 @@ where
 		S: linked_data::GraphVisitor<I, V>,
 	{
 		for object in self {
-			visitor.subject(object.inner())?;
+			// Values are no subjects.
+			if !object.is_value() {
+				visitor.subject(object.inner())?;
+			}
 		}
 
 		visitor.end()
diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index d200d08..a609c7d 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -94,7 +94,10 @@ where
 		match self.graph() {
 			Some(g) => {
 				for object in g.iter() {
-					visitor.subject(object.inner())?;
+					// Values are no subjects.
+					if !object.is_value() {
+						visitor.subject(object.inner())?;
+					}
 				}
 			}
 			None => {
-- 
2.43.0


From c83f096e7457fe6cf52299214e6c5417d866ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 085/101] fix: only read JSON numbers as values of numeric
 datatypes

---
 crates/core/src/deserialization/object/value.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index 6ed4e81..6721221 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -83,7 +83,13 @@ fn typed_number_interpretation<V: Vocabulary>(
 ) -> Option<xsd_types::Value> {
 	let iri = vocabulary.iri(ty)?;
 	let xsd_ty = xsd_types::Datatype::from_iri(iri)?;
-	xsd_ty.parse(n).ok()
+
+	match xsd_ty {
+		xsd_types::Datatype::Decimal(_)
+		| xsd_types::Datatype::Double
+		| xsd_types::Datatype::Float => xsd_ty.parse(n).ok(),
+		_ => None,
+	}
 }
 
 impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
-- 
2.43.0


From 1df1bad095c7704b590d831f2182f14fb5315e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 086/101] fix: do not visit the free-floating lists of a graph

---
 crates/core/src/deserialization/mod.rs         | 4 ++--
 crates/core/src/deserialization/object/node.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/deserialization/mod.rs b/crates/core/src/deserialization/mod.rs
index d8a4d69..d9174a1 100644
--- a/crates/core/src/deserialization/mod.rs
+++ b/crates/core/src/deserialization/mod.rs
@@ -17,8 +17,8 @@ where
 		S: linked_data::GraphVisitor<I, V>,
 	{
 		for object in self {
-			// Values are no subjects.
-			if !object.is_value() {
+			// Free-floating values and lists are dropped.
+			if object.is_node() {
 				visitor.subject(object.inner())?;
 			}
 		}
diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index a609c7d..880d3fa 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -94,8 +94,8 @@ where
 		match self.graph() {
 			Some(g) => {
 				for object in g.iter() {
-					// Values are no subjects.
-					if !object.is_value() {
+					// Free-floating values and lists are dropped.
+					if object.is_node() {
 						visitor.subject(object.inner())?;
 					}
 				}
-- 
2.43.0


From ac2c714af6c88300da9b5842d42f272539883c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 087/101] fix: compare JSON objects with duplicate keys without
 panicking

---
 crates/syntax/src/compare.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..b31707d 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -36,13 +36,15 @@ impl Compare for Value {
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
 					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
+						// Objects with duplicate keys have no meaning in JSON-LD:
+						// they are not equal to anything.
+						match (a.get_unique(&*entry.key), b.get_unique(&*entry.key)) {
+							(Ok(_), Ok(Some(value))) => {
 								if !entry.value.compare(value) {
 									return false;
 								}
 							}
-							None => return false,
+							_ => return false,
 						}
 					}
 
-- 
2.43.0


From 86fafd3c26afcbe021fc0fb124da7595fe677264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:46 +0000
Subject: [PATCH 088/101] fix: reject keywords used as properties in expanded
 JSON

---
 crates/core/src/object/node/properties.rs         | 5 +++++
 crates/core/src/object/node/reverse_properties.rs | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/properties.rs b/crates/core/src/object/node/properties.rs
index d556ec0..a082da2 100644
--- a/crates/core/src/object/node/properties.rs
+++ b/crates/core/src/object/node/properties.rs
@@ -5,6 +5,7 @@ use crate::{
 };
 use educe::Educe;
 use indexmap::IndexMap;
+use json_ld_syntax::Keyword;
 use rdf_types::VocabularyMut;
 use std::hash::{Hash, Hasher};
 
@@ -218,6 +219,10 @@ impl<T: Eq + Hash, B: Eq + Hash> TryFromJsonObject<T, B> for Properties<T, B> {
 		let mut result = Self::new();
 
 		for entry in object {
+			if Keyword::try_from(entry.key.as_str()).is_ok() {
+				return Err(InvalidExpandedJson::UnexpectedEntry);
+			}
+
 			let prop = Id::from_string_in(vocabulary, entry.key.to_string());
 			let objects: Vec<IndexedObject<T, B>> = Vec::try_from_json_in(vocabulary, entry.value)?;
 			result.insert_all(prop, objects)
diff --git a/crates/core/src/object/node/reverse_properties.rs b/crates/core/src/object/node/reverse_properties.rs
index 96fe85c..4f8bdbd 100644
--- a/crates/core/src/object/node/reverse_properties.rs
+++ b/crates/core/src/object/node/reverse_properties.rs
@@ -7,7 +7,7 @@ use contextual::WithContext;
 use educe::Educe;
 use indexmap::IndexMap;
 use iref::IriBuf;
-use json_ld_syntax::IntoJsonWithContext;
+use json_ld_syntax::{IntoJsonWithContext, Keyword};
 use rdf_types::{BlankIdBuf, Vocabulary, VocabularyMut};
 use std::hash::{Hash, Hasher};
 
@@ -223,6 +223,10 @@ impl<T: Eq + Hash, B: Eq + Hash> TryFromJsonObject<T, B> for ReverseProperties<T
 		let mut result = Self::new();
 
 		for entry in object {
+			if Keyword::try_from(entry.key.as_str()).is_ok() {
+				return Err(InvalidExpandedJson::UnexpectedEntry);
+			}
+
 			let prop = Id::from_string_in(vocabulary, entry.key.to_string());
 			let nodes: Vec<IndexedNode<T, B>> = Vec::try_from_json_in(vocabulary, entry.value)?;
 			result.insert_all(prop, nodes)
-- 
2.43.0


From fec5f4e06d9230cbb6c7cf0554fd043981809692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:16 +0000
Subject: [PATCH 089/101] fix: limit the number of nested remote contexts

---
 crates/context-processing/src/algorithm/mod.rs |  9 +++++++++
 crates/context-processing/src/lib.rs           |  4 ++++
 crates/context-processing/src/stack.rs         | 11 ++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index c3d1269..7df6563 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -17,6 +17,11 @@ pub use iri::*;
 pub use merged::*;
 use syntax::context::definition::KeyOrKeywordRef;
 
+/// Maximum number of nested remote contexts.
+///
+/// A remote context nested deeper than that causes a context overflow error.
+const MAX_REMOTE_CONTEXTS: usize = 64;
+
 impl Process for syntax::context::Context {
 	async fn process_full<N, L, W>(
 		&self,
@@ -170,6 +175,10 @@ where
 				// is not nested in the items preceding it.
 				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
+					if remote_contexts.len() > MAX_REMOTE_CONTEXTS {
+						return Err(Error::ContextOverflow);
+					}
+
 					let loaded_context = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index f49e726..1a7e1c2 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -49,6 +49,9 @@ pub enum Error {
 	#[error("Remote document loading failed")]
 	LoadingDocumentFailed,
 
+	#[error("Too many nested remote contexts")]
+	ContextOverflow,
+
 	#[error("Processing mode conflict")]
 	ProcessingModeConflict,
 
@@ -121,6 +124,7 @@ impl Error {
 		match self {
 			Self::InvalidContextNullification => ErrorCode::InvalidContextNullification,
 			Self::LoadingDocumentFailed => ErrorCode::LoadingDocumentFailed,
+			Self::ContextOverflow => ErrorCode::ContextOverflow,
 			Self::ProcessingModeConflict => ErrorCode::ProcessingModeConflict,
 			Self::InvalidContextEntry => ErrorCode::InvalidContextEntry,
 			Self::InvalidImportValue => ErrorCode::InvalidImportValue,
diff --git a/crates/context-processing/src/stack.rs b/crates/context-processing/src/stack.rs
index 4288450..a52af28 100644
--- a/crates/context-processing/src/stack.rs
+++ b/crates/context-processing/src/stack.rs
@@ -7,12 +7,16 @@ struct StackNode<I> {
 
 	/// URL of the last loaded context.
 	url: I,
+
+	/// Number of frames in the stack, including this one.
+	len: usize,
 }
 
 impl<I> StackNode<I> {
 	/// Create a new stack frame registering the load of the given context URL.
 	fn new(previous: Option<Arc<StackNode<I>>>, url: I) -> StackNode<I> {
-		StackNode { previous, url }
+		let len = previous.as_ref().map_or(0, |p| p.len) + 1;
+		StackNode { previous, url, len }
 	}
 
 	/// Checks if this frame or any parent holds the given URL.
@@ -50,6 +54,11 @@ impl<I> ProcessingStack<I> {
 		self.head.is_none()
 	}
 
+	/// Returns the number of URLs in the stack.
+	pub fn len(&self) -> usize {
+		self.head.as_ref().map_or(0, |head| head.len)
+	}
+
 	/// Checks if the given URL is already in the stack.
 	///
 	/// This is used for loop detection.
-- 
2.43.0


From 127b6dbdb44d5a9949c475434b2c6ff49e1fa12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 090/101] fix: find colons inside terms which also begin or end
 with one

---
 crates/context-processing/src/algorithm/define.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 510106b..f8d89f4 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -39,12 +39,10 @@ fn is_gen_delim_or_blank<T, B>(
 
 /// Checks if the the given character is included in the given string anywhere but at the first or last position.
 fn contains_between_boundaries(id: &str, c: char) -> bool {
-	if let Some(i) = id.find(c) {
-		let j = id.rfind(c).unwrap();
-		i > 0 && j < id.len() - 1
-	} else {
-		false
-	}
+	let mut inner = id.chars();
+	inner.next();
+	inner.next_back();
+	inner.as_str().contains(c)
 }
 
 #[derive(Default)]
-- 
2.43.0


From 03da2358094e411913324981dec26bf3dd37ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 091/101] fix: only reject empty terms which are defined

---
 crates/context-processing/src/algorithm/define.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index f8d89f4..fb250c5 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -102,13 +102,13 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From 9ac6633e0420bebc0def6bd3995b76729676b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 092/101] fix: reject empty container mappings

---
 crates/core/src/container.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index 07b0fac..29fd77c 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -44,6 +44,10 @@ impl Container {
 			Nullable::Null => Ok(Self::None),
 			Nullable::Some(json_ld_syntax::Container::One(c)) => Ok((*c).into()),
 			Nullable::Some(json_ld_syntax::Container::Many(m)) => {
+				if m.is_empty() {
+					return Err(InvalidContainer);
+				}
+
 				let mut container = Container::new();
 
 				for t in m {
-- 
2.43.0


From 457fd0a21ac1aa3afe5ecab0b7b6d1258ee567f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:35 +0000
Subject: [PATCH 093/101] fix: let blank node identifiers be prefixes of the
 terms of a context

---
 .../src/algorithm/define.rs                   | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index fb250c5..aedf550 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,5 +1,6 @@
 use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
+use contextual::WithContext;
 use iref::{Iri, IriRef};
 use json_ld_core::{
 	context::{NormalTermDefinition, TypeTermDefinition},
@@ -490,21 +491,17 @@ where
 									{
 										let mut result = String::new();
 
-										if let Some(prefix_key) = prefix_definition.value() {
-											if let Some(prefix_iri) = prefix_key.as_iri() {
-												result = env
-													.vocabulary
-													.iri(prefix_iri)
-													.unwrap()
-													.to_string()
-											}
+										if let Some(prefix_value) = prefix_definition.value() {
+											result.push_str(
+												prefix_value.with(&*env.vocabulary).as_str(),
+											)
 										}
 
 										result.push_str(compact_iri.suffix());
 
-										if let Ok(iri) = Iri::new(result.as_str()) {
-											definition.value =
-												Some(Term::Id(Id::iri(env.vocabulary.insert(iri))))
+										let id = Id::from_string_in(env.vocabulary, result);
+										if id.is_valid() {
+											definition.value = Some(Term::Id(id))
 										} else {
 											return Err(Error::InvalidIriMapping);
 										}
-- 
2.43.0


From e6589907ceda349d78893f9ab9bd70d03b10c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:53 +0000
Subject: [PATCH 094/101] fix: let the vocabulary mapping of a defined term be
 a blank node identifier

---
 .../src/algorithm/define.rs                   | 28 +++++++------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index aedf550..c542a2e 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,7 +1,7 @@
 use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
 use contextual::WithContext;
-use iref::{Iri, IriRef};
+use iref::IriRef;
 use json_ld_core::{
 	context::{NormalTermDefinition, TypeTermDefinition},
 	Container, Context, Id, Loader, ProcessingMode, Term, Type, ValidId,
@@ -557,23 +557,15 @@ where
 											// associated with the vocabulary mapping and `term`.
 											// If it does not have a vocabulary mapping, an invalid IRI mapping error
 											// been detected and processing is aborted.
-											if let Some(vocabulary_iri) =
-												context_vocabulary.as_iri()
-											{
-												let mut result = env
-													.vocabulary
-													.iri(vocabulary_iri)
-													.unwrap()
-													.to_string();
-												result.push_str(key.as_str());
-												if let Ok(iri) = Iri::new(result.as_str()) {
-													definition.value =
-														Some(Term::<N::Iri, N::BlankId>::from(
-															env.vocabulary.insert(iri),
-														))
-												} else {
-													return Err(Error::InvalidIriMapping);
-												}
+											let mut result = context_vocabulary
+												.with(&*env.vocabulary)
+												.as_str()
+												.to_string();
+											result.push_str(key.as_str());
+
+											let id = Id::from_string_in(env.vocabulary, result);
+											if id.is_valid() {
+												definition.value = Some(Term::Id(id))
 											} else {
 												return Err(Error::InvalidIriMapping);
 											}
-- 
2.43.0


From ebb01f8418da281cd52c058f25bfafae7d4e2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:24 +0000
Subject: [PATCH 095/101] fix: do not apply the vocabulary policy to language
 tags and indexes

---
 crates/expansion/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index a9f022c..27799b8 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -614,7 +614,8 @@ where
 												active_context,
 												Nullable::Some(language.as_str().into()),
 												false,
-												Some(options.policy.vocab),
+												// Language tags are not terms.
+												Some(Action::Keep),
 											)? == Some(Term::Keyword(
 												Keyword::None,
 											)) {
@@ -761,13 +762,18 @@ where
 								// TODO What?
 
 								// Initialize `expanded_index` to the result of IRI
-								// expanding index.
+								// expanding index. It is only used as a term by
+								// type maps.
 								let expanded_index = match expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
-									Some(options.policy.vocab),
+									Some(if container_mapping.contains(ContainerKind::Type) {
+										options.policy.vocab
+									} else {
+										Action::Keep
+									}),
 								)? {
 									Some(Term::Keyword(Keyword::None)) => None,
 									key => key,
-- 
2.43.0


From 1b7cde0b82c6a0cdacc0b9385e2293e9959ff6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:11 +0000
Subject: [PATCH 096/101] fix: apply the policy for invalid terms to the keys
 of type maps

---
 crates/expansion/src/node.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 27799b8..45f70d4 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -776,6 +776,16 @@ where
 									}),
 								)? {
 									Some(Term::Keyword(Keyword::None)) => None,
+									Some(Term::Id(Id::Invalid(_)))
+										if container_mapping.contains(ContainerKind::Type)
+											&& options.policy.invalid != Action::Keep =>
+									{
+										if options.policy.invalid.is_reject() {
+											return Err(Error::InvalidTypeValue);
+										}
+
+										None
+									}
 									key => key,
 								};
 
-- 
2.43.0


From 9ef22e442277bca3243c44f2ad00f5ac1473fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:24 +0000
Subject: [PATCH 097/101] fix: apply the vocabulary policy with the context of
 the node only

---
 crates/expansion/src/element.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index e838692..5ae46bb 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,6 +1,6 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, is_ignored, Error, Expanded,
-	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, is_ignored, Action, Error,
+	Expanded, GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
@@ -128,7 +128,8 @@ where
 			// 	Cow::Borrowed(element.entries().as_slice())
 			// };
 
-			// Preliminary key expansions.
+			// Preliminary key expansions. The policy is applied once the context
+			// of the element is known.
 			let mut preliminary_value_entry = None;
 			let mut preliminary_id_entry = None;
 			for Entry { key, value } in element.entries() {
@@ -137,7 +138,7 @@ where
 					active_context,
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)? {
 					Some(Term::Keyword(Keyword::Value)) => {
 						preliminary_value_entry = Some(value.clone())
@@ -227,7 +228,7 @@ where
 					active_context.as_ref(),
 					Nullable::Some(key.as_str().into()),
 					false,
-					Some(options.policy.vocab),
+					Some(Action::Keep),
 				)?;
 
 				if let Some(Term::Keyword(Keyword::Type)) = expanded_key {
@@ -302,7 +303,7 @@ where
 								active_context.as_ref(),
 								Nullable::Some(input_type_str.into()),
 								false,
-								Some(options.policy.vocab),
+								Some(Action::Keep),
 							)
 						})
 						.transpose()?
-- 
2.43.0


From e35a5d87e57f675605cbadce73f77fc0b1bf5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 098/101] fix: ignore the reverse properties mapped to null
 whatever the policy

---
 crates/expansion/src/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 45f70d4..edea70d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -407,7 +407,9 @@ where
 											)
 										}
 									}
-									_ => {
+									// The key is mapped to `null`.
+									Some(Term::Null) | None => (),
+									Some(Term::Id(_)) => {
 										if options.policy.invalid.is_reject() {
 											return Err(Error::KeyExpansionFailed(
 												reverse_key.to_string(),
-- 
2.43.0


From 4d5670e5d02af43be648bf83ea59cc4e40e7ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:01 +0000
Subject: [PATCH 099/101] fix: reject @propagate in JSON-LD 1.0 mode in every
 context definition

Only a context which is not in an array was checked.
---
 crates/context-processing/src/algorithm/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 7df6563..492cd18 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -226,6 +226,15 @@ where
 					}
 				}
 
+				// 5.11) If context has a @propagate entry:
+				if context.propagate.is_some() {
+					// 5.11.1) If processing mode is json-ld-1.0, an invalid context entry error
+					// has been detected and processing is aborted.
+					if options.processing_mode == ProcessingMode::JsonLd1_0 {
+						return Err(Error::InvalidContextEntry);
+					}
+				}
+
 				// 5.6) If context has an @import entry:
 				let import_context = match &context.import {
 					Some(import_value) => {
-- 
2.43.0


From f413cf7a3cf4e6e0ebc021ed2b9b6b429862b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:01 +0000
Subject: [PATCH 100/101] fix: apply the JSON-LD 1.0 processing mode to value
 objects

In this mode, @direction is ignored and JSON literals are rejected.
---
 crates/expansion/src/element.rs |  1 +
 crates/expansion/src/value.rs   | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 5ae46bb..b50273a 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -443,6 +443,7 @@ where
 				let expanded_value = expand_value(
 					&mut env,
 					options.policy,
+					options.processing_mode,
 					input_type,
 					type_scoped_context,
 					expanded_entries,
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 5eaff4c..bd31d47 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -3,7 +3,7 @@ use contextual::WithContext;
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
-	Term, ValidId, Value,
+	ProcessingMode, Term, ValidId, Value,
 };
 use json_ld_syntax::{Direction, ErrorCode, Keyword, LenientLangTagBuf, Nullable};
 use rdf_types::{Vocabulary, VocabularyMut};
@@ -84,6 +84,7 @@ pub(crate) fn is_ignored<V: Vocabulary>(
 pub(crate) fn expand_value<N, L, W>(
 	env: &mut Environment<N, L, W>,
 	policy: Policy,
+	processing_mode: ProcessingMode,
 	input_type: Option<Term<N::Iri, N::BlankId>>,
 	type_scoped_context: &Context<N::Iri, N::BlankId>,
 	expanded_entries: Vec<ExpandedEntry<N::Iri, N::BlankId>>,
@@ -129,7 +130,9 @@ where
 			Term::Keyword(Keyword::Direction) => {
 				// If processing mode is json-ld-1.0, continue with the next key
 				// from element.
-				// TODO processing mode.
+				if processing_mode == ProcessingMode::JsonLd1_0 {
+					continue;
+				}
 
 				// If value is neither "ltr" nor "rtl", an invalid base direction
 				// error has been detected and processing is aborted.
@@ -202,6 +205,10 @@ where
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
 	if is_json && !invalid_type {
+		if processing_mode == ProcessingMode::JsonLd1_0 {
+			return Err(InvalidValue::ValueObjectValue);
+		}
+
 		if language.is_some() || direction.is_some() {
 			return Err(InvalidValue::ValueObject);
 		}
-- 
2.43.0


From 44f45a1e3dfbfebb08b5faaad2a507ddfc512cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 101/101] fix: warn about the entries of @nest objects

Empty terms and blank node properties were only reported when not nested.
---
 crates/expansion/src/node.rs | 52 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index edea70d..21e8ea3 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -7,7 +7,7 @@ use indexmap::IndexSet;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{
 	object, object::value::Literal, Container, Context, Environment, Id, Indexed, IndexedObject,
-	LangString, Loader, Node, Object, ProcessingMode, Term, Type, Value,
+	LangString, Loader, Node, Object, ProcessingMode, Term, Type, ValidId, Value,
 };
 use json_ld_syntax::{ContainerKind, Keyword, LenientLangTagBuf, Nullable};
 use json_syntax::object::Entry;
@@ -482,24 +482,38 @@ where
 									nested_entries.sort_by_key(|entry| &entry.key);
 								}
 
-								let nested_expanded_entries = nested_entries
-									.into_iter()
-									.filter_map(|Entry { key, value }| {
-										expand_iri(
-											&mut env,
-											active_context.as_ref(),
-											Nullable::Some(key.as_str().into()),
-											false,
-											Some(options.policy.vocab),
-										)
-										.map(|e| {
-											e.map(|expanded_key| {
-												ExpandedEntry(key, expanded_key, value)
-											})
-										})
-										.transpose()
-									})
-									.collect::<Result<_, _>>()?;
+								let mut nested_expanded_entries =
+									Vec::with_capacity(nested_entries.len());
+								for Entry { key, value } in nested_entries {
+									if key.is_empty() {
+										env.warnings.handle(env.vocabulary, Warning::EmptyTerm);
+									}
+
+									let expanded_key = expand_iri(
+										&mut env,
+										active_context.as_ref(),
+										Nullable::Some(key.as_str().into()),
+										false,
+										Some(options.policy.vocab),
+									)?;
+
+									if let Some(expanded_key) = expanded_key {
+										if let Term::Id(Id::Valid(ValidId::Blank(id))) =
+											&expanded_key
+										{
+											env.warnings.handle(
+												env.vocabulary,
+												Warning::BlankNodeIdProperty(id.clone()),
+											);
+										}
+
+										nested_expanded_entries.push(ExpandedEntry(
+											key,
+											expanded_key,
+											value,
+										))
+									}
+								}
 
 								let (new_result, new_has_value_object_entries) =
 									Box::pin(expand_node_entries(
-- 
2.43.0

