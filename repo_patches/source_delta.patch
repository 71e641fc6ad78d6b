From 0b96ab5e50a36ec4155c0ce186de902d01841820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 01/68] fix: match sum variants with their own intro variables
 when hydrating

---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 14e62a7bf85276f949ee738a801e91574bfa85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 02/68] fix: report hydration failures as errors instead of
 panicking

---
 layouts/src/distill/hy/data.rs | 44 ++++++++++++++++++----------------
 layouts/src/distill/hy/mod.rs  | 32 ++++++++++++++-----------
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..15de4f1 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,17 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					// Language-tagged strings never match a data layout.
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +116,17 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					// Language-tagged strings never match a data layout.
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +160,17 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					// Language-tagged strings never match a data layout.
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +204,17 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					// Language-tagged strings never match a data layout.
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +232,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -241,9 +245,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				let decimal = value.value();
 				Ok(decimal.into_big_rational().into())
 			}
-			Err(_) => {
-				todo!()
-			}
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..a83d43b 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,10 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						// No IRI matching the layout.
+						None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+							layout_ref.clone(),
+						)))),
 					}
 				}
 			}
@@ -294,14 +297,14 @@ where
 						);
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Discriminant(layout_ref.clone()),
+									)))
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -315,9 +318,10 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				// No variant found.
+				None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+					layout_ref.clone(),
+				)))),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 80dd486dbb4622a2fc0c65912e0dd961afa885b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:23 +0000
Subject: [PATCH 03/68] fix: report unbound layout variables as ambiguities
 when hydrating

---
 layouts/src/distill/hy/data.rs |  30 +++------
 layouts/src/distill/hy/mod.rs  | 115 ++++++++++++++++++++++++---------
 2 files changed, 95 insertions(+), 50 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 15de4f1..87aebfb 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::{lexical::Lexical, ParseXsd};
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{select_resource, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -104,11 +101,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -148,11 +142,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -192,11 +183,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index a83d43b..3b25dde 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -213,11 +213,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = select_resource(&layout.resource, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut selected = None;
 
@@ -278,13 +275,21 @@ where
 				match variant_substitution {
 					Some(variant_substitution) => {
 						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
+							select_inputs(&variant.value.input, &variant_substitution)
+								.for_fragment(|| DataFragment::Variant {
+									layout: layout_ref.clone().cast(),
+									variant_name: variant.name.clone(),
+								})?;
 
 						let variant_graph = select_graph(
 							current_graph,
 							&variant.value.graph,
 							&variant_substitution,
-						);
+						)
+						.for_fragment(|| DataFragment::Variant {
+							layout: layout_ref.clone().cast(),
+							variant_name: variant.name.clone(),
+						})?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -355,10 +360,18 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let field_inputs = select_inputs(&field.value.input, &field_substitution)
+							.for_fragment(|| DataFragment::Key {
+							layout: layout_ref.clone().cast(),
+							key: key.clone(),
+						})?;
 
 						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+							select_graph(current_graph, &field.value.graph, &field_substitution)
+								.for_fragment(|| DataFragment::Key {
+									layout: layout_ref.clone().cast(),
+									key: key.clone(),
+								})?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -414,13 +427,15 @@ where
 
 					for item_substitution in matching {
 						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+							select_inputs(&layout.item.value.input, &item_substitution)
+								.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+						)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -451,8 +466,10 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = select_resource(&layout.head, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
+					let tail = select_resource(&layout.tail, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut items = Vec::new();
 
@@ -473,18 +490,28 @@ where
 						.into_required_unique()
 						.for_fragment(|| DataFragment::OrderedListNode {
 							layout: layout_ref.clone().cast(),
-							head,
+							head: head.clone(),
 							tail: tail.clone(),
 						})?;
 
 						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+							select_inputs(&layout.node.value.input, &item_substitution)
+								.for_fragment(|| DataFragment::OrderedListNode {
+									layout: layout_ref.clone().cast(),
+									head: head.clone(),
+									tail: tail.clone(),
+								})?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+						)
+						.for_fragment(|| DataFragment::OrderedListNode {
+							layout: layout_ref.clone().cast(),
+							head: head.clone(),
+							tail: tail.clone(),
+						})?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -498,7 +525,12 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = select_resource(&Pattern::Var(rest), &item_substitution)
+							.for_fragment(|| DataFragment::OrderedListNode {
+								layout: layout_ref.clone().cast(),
+								head: head.clone(),
+								tail: tail.clone(),
+							})?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -532,9 +564,17 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
+						let item_inputs = select_inputs(&item.value.input, &item_substitution)
+							.for_fragment(|| DataFragment::SizedListItem {
+								layout: layout_ref.clone().cast(),
+								index,
+							})?;
 						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+							select_graph(current_graph, &item.value.graph, &item_substitution)
+								.for_fragment(|| DataFragment::SizedListItem {
+									layout: layout_ref.clone().cast(),
+									index,
+								})?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -557,10 +597,27 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+/// Returns the resource designated by the given pattern.
+///
+/// A variable left unbound by the pattern matching may designate any resource,
+/// which is reported as an ambiguity.
+fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, matching::Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(matching::Error::Ambiguity)
+}
+
+fn select_inputs<R: Clone>(
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+) -> Result<Vec<R>, matching::Error> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| select_resource(p, substitution))
 		.collect()
 }
 
@@ -568,12 +625,12 @@ fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, matching::Error> {
+	match graph_pattern {
+		Some(g) => g
+			.as_ref()
+			.map(|p| select_resource(p, substitution))
+			.transpose(),
+		None => Ok(current_graph.cloned()),
+	}
 }
-- 
2.43.0


From af4c3b8526356834078857cf2a5eaa235137b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 04/68] fix: do not loop forever when hydrating a cyclic list

---
 layouts/src/distill/hy/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 3b25dde..2e69ec6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -472,8 +472,20 @@ where
 						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// Cyclic list, the tail will never be reached.
+							return Err(Error::MissingData(Box::new(
+								DataFragment::OrderedListNode {
+									layout: layout_ref.clone().cast(),
+									head,
+									tail,
+								},
+							)));
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From 95a97049976b9d1e2a87059097333710ed64eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 05/68] fix: decimal representation of negative numbers and
 native form of zero

---
 layouts/src/value/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..63d8950 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -69,7 +69,7 @@ impl Number {
 				}
 				Sign::NoSign | Sign::Plus => {
 					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
+						NativeNumber::U64(n.iter_u64_digits().next().unwrap_or(0))
 					} else {
 						NativeNumber::F64(self.0.to_f64().unwrap())
 					}
@@ -111,7 +111,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer().abs() / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From 5a884b2df6cb9a8c1d579f8492d24841f6c22c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 06/68] fix: CBOR encoding of zero and big numbers

---
 layouts/src/value/cbor/serde_cbor.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..2b08c08 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,5 @@
-use num_traits::{Signed, ToBytes};
+use num_bigint::BigInt;
+use num_traits::Signed;
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -141,15 +142,21 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
+					let unsigned = i.iter_u64_digits().next().unwrap_or(0) as i128;
 
 					let signed = if i.is_positive() { unsigned } else { -unsigned };
 
 					serde_cbor::Value::Integer(signed)
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					// See: <https://www.rfc-editor.org/rfc/rfc8949.html#name-bignums>
+					let (tag, n) = if i.is_positive() {
+						(2, i.clone())
+					} else {
+						(3, -BigInt::from(1) - i)
+					};
+
+					let (_, bytes) = n.to_bytes_be();
+					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 38bb90cc44606077db3f7d75cbcc6e619f73f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 07/68] fix: preserve the constant of unit layouts when
 converting to CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index 2b08c08..f8493e9 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -56,7 +56,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -120,7 +120,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From 58a28b2041479cbd5c873e6c22f7cc76a13e207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:04 +0000
Subject: [PATCH 08/68] fix: exact parsing and printing of decimal numbers

---
 layouts/src/distill/de/data.rs |  4 +--
 layouts/src/distill/hy/data.rs |  5 +---
 layouts/src/value/mod.rs       | 50 +++++++++++++++++++++-------------
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..5e1a57e 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 87aebfb..a102002 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -229,10 +229,7 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
 		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
+			Ok(value) => Number::parse_decimal(value.as_str()).ok_or(Error::NoMatchingLiteral),
 			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 63d8950..8b5d4eb 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -35,6 +34,34 @@ impl Number {
 		Self(rational)
 	}
 
+	/// Parses a number from its decimal representation, with an optional
+	/// exponent.
+	///
+	/// This includes every JSON number and every XSD decimal.
+	pub fn parse_decimal(s: &str) -> Option<Self> {
+		let (mantissa, exponent) = match s.split_once(['e', 'E']) {
+			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
+			None => (s, 0),
+		};
+
+		let (negative, mantissa) = match mantissa.strip_prefix('-') {
+			Some(rest) => (true, rest),
+			None => (false, mantissa.strip_prefix('+').unwrap_or(mantissa)),
+		};
+
+		let (integer, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+		let digits = format!("{integer}{fraction}");
+		if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+			return None;
+		}
+
+		let scale = exponent.checked_sub(i32::try_from(fraction.len()).ok()?)?;
+		let value = BigRational::from_integer(BigInt::from_str(&digits).ok()?)
+			* BigRational::from_integer(TEN.clone()).pow(scale);
+
+		Some(Self(if negative { -value } else { value }))
+	}
+
 	pub fn is_integer(&self) -> bool {
 		self.0.is_integer()
 	}
@@ -187,34 +214,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From c5406a06652b13cd49d14bd032937edc4b73f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 09/68] fix: deserialize arbitrary precision serde_json numbers
 as numbers

---
 layouts/src/value/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 63a1318..16c9541 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -2,6 +2,10 @@ use std::{collections::BTreeMap, fmt};
 
 use super::{Literal, Number, Value};
 
+/// Name of the only field of the map `serde_json` uses to represent numbers
+/// when its `arbitrary_precision` feature is enabled.
+const SERDE_JSON_NUMBER_TOKEN: &str = "$serde_json::private::Number";
+
 impl<'de> serde::Deserialize<'de> for Value {
 	#[inline]
 	fn deserialize<D>(deserializer: D) -> Result<Value, D::Error>
@@ -109,7 +113,13 @@ impl<'de> serde::Deserialize<'de> for Value {
 			{
 				let mut map = BTreeMap::new();
 
-				while let Some((key, value)) = visitor.next_entry()? {
+				while let Some((key, value)) = visitor.next_entry::<Value, Value>()? {
+					if key.as_str() == Some(SERDE_JSON_NUMBER_TOKEN) {
+						if let Some(number) = value.as_str().and_then(Number::parse_decimal) {
+							return Ok(Value::Literal(Literal::Number(number)));
+						}
+					}
+
 					map.insert(key, value);
 				}
 
-- 
2.43.0


From 638d9eae87c06472831d8ee0182bc0edf4ceda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 10/68] fix: report unsupported datatypes as errors when
 dehydrating

---
 layouts/src/distill/de/data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5e1a57e..5a16fb3 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
@@ -85,6 +85,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout),
 	}
 }
-- 
2.43.0


From 9e58df1762ff1cb47d8058548a95a33ef8362b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 11/68] fix: implement byte string layouts for XSD binary
 datatypes

---
 layouts/src/distill/de/data.rs | 25 +++++++++++++++++++++----
 layouts/src/distill/hy/data.rs | 14 ++++++++++++--
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5a16fb3..094b51e 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -58,16 +58,33 @@ where
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
-	_rdf: &RdfContextMut<V, I>,
-	_value: &[u8],
-	_type_: &I::Resource,
+	rdf: &RdfContextMut<V, I>,
+	value: &[u8],
+	type_: &I::Resource,
 ) -> Result<RdfLiteral<V>, Error<Q>>
 where
 	V: LiteralVocabulary,
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	for i in rdf.interpretation.iris_of(type_) {
+		let iri = rdf.vocabulary.iri(i).unwrap();
+
+		let lexical = if iri == xsd_types::XSD_HEX_BINARY {
+			xsd_types::HexBinary::new(value).to_string()
+		} else if iri == xsd_types::XSD_BASE64_BINARY {
+			xsd_types::Base64Binary::new(value).to_string()
+		} else {
+			continue;
+		};
+
+		return Ok(rdf_types::Literal::new(
+			lexical,
+			LiteralType::Any(i.clone()),
+		));
+	}
+
+	Err(Error::IncompatibleLayout)
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index a102002..b111fc4 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -236,8 +236,18 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 	}
 }
 
-fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+fn hydrate_byte_string_value<R>(value: &str, type_: &Iri) -> Result<Vec<u8>, Error<R>> {
+	if type_ == xsd_types::XSD_HEX_BINARY {
+		xsd_types::HexBinaryBuf::decode(value)
+			.map(xsd_types::HexBinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else if type_ == xsd_types::XSD_BASE64_BINARY {
+		xsd_types::Base64BinaryBuf::decode(value)
+			.map(xsd_types::Base64BinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else {
+		Err(Error::NoMatchingLiteral) // unknown byte string type.
+	}
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
-- 
2.43.0


From 7459dc916d70d59115d5be2a7a7eeff62209652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 12/68] fix: dehydrate the quads of a sub-layout into the
 selected graph

---
 layouts/src/distill/de/mod.rs | 43 +++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..bf36a77 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -952,9 +956,13 @@ impl<R: Clone> Environment<'_, R> {
 		))
 	}
 
+	/// Instantiates the `input` quads and adds them to `output`.
+	///
+	/// Quads without explicit graph are added to the `current_graph`.
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		current_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +970,8 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From c4359ed8507a96e4c7b89eb9555254149369e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 13/68] fix: serialize derived sub-layouts into the selected
 graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 44 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 14 ++++--
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..617802d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -245,7 +245,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -292,7 +292,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -338,7 +338,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -393,7 +393,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..5ae5fd3 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -81,13 +81,21 @@ where
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	/// Instantiates the `input` quads and adds them to `output`.
+	///
+	/// Quads without explicit graph are added to the `current_graph`.
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			let Quad(s, p, o, g) = self.instantiate_quad(quad.as_ref());
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 	}
 }
-- 
2.43.0


From 82d729200c08a1d447f46e1174332872aa71fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 14/68] fix: do not keep the quads of rejected sum variants
 when dehydrating

---
 layouts/src/distill/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index bf36a77..77adffa 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -684,7 +684,7 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
 				)
 				.is_ok() && selection.replace(variant_dataset).is_some()
 				{
-- 
2.43.0


From 44c1a782ba975031ec54270e9c6c53cbf9eb3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:57 +0000
Subject: [PATCH 15/68] fix: identify the head of an empty list with its tail
 when dehydrating

---
 layouts/src/distill/de/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77adffa..8e0252d 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -769,6 +769,15 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The head of an empty list is its tail.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+						let iris: Vec<_> = rdf.interpretation.iris_of(&tail).cloned().collect();
+						for iri in iris {
+							rdf.interpretation.assign_iri(&head, iri);
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From 3c09f2d51084da6a6bceb9761dc1065367ba8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 16/68] fix: identify the head of an empty derived list with
 its tail when serializing

---
 .../rust/treeldr-rs-macros/src/generate/ser.rs    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 617802d..e1dff83 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -326,6 +326,20 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				let head = generate_pattern(&layout.head);
 				let tail = generate_pattern(&layout.tail);
 
+				// The head of an empty list is its tail.
+				let empty_list = match &layout.tail {
+					Pattern::Resource(Term::Id(Id::Iri(iri))) => {
+						let iri = iri.as_str();
+						quote! {
+							if self.0.is_empty() {
+								let id = rdf.vocabulary.insert(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) });
+								rdf.interpretation.assign_iri(&head, id);
+							}
+						}
+					}
+					_ => quote!(),
+				};
+
 				let node_intro = layout.node.intro;
 				let node_dataset = dataset_to_array(&layout.node.dataset);
 
@@ -350,6 +364,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
+					#empty_list
 
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
-- 
2.43.0


From a615ec88b5433dd0157dfcfd4bce54097d031f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 17/68] fix: parse the language and default type of literal
 patterns consistently

---
 layouts/src/abs/syntax/pattern/literal.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..1807589 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -29,11 +29,12 @@ impl LiteralValue {
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
@@ -59,8 +60,9 @@ impl From<rdf_types::Literal> for LiteralValue {
 )]
 #[serde(untagged)]
 pub enum LiteralType {
-	Iri(LiteralTypeIri),
+	// The language must be tried first since the type IRI is optional.
 	Language(LiteralTypeLanguage),
+	Iri(LiteralTypeIri),
 }
 
 impl Default for LiteralType {
-- 
2.43.0


From 6cb0ebe0ffe829da4fcfaf743a72add3d8e91b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 18/68] fix: lexical representation of negative extra property
 values

---
 layouts/src/abs/syntax/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..541a557 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -75,7 +75,7 @@ impl<C: Context> Build<C> for Resource {
 				let type_ = value.decimal_type();
 
 				Ok(context.literal_resource(
-					value.lexical_representation(),
+					&n.to_string(),
 					LexicalLiteralTypeRef::Any(type_.iri()),
 				))
 			}
-- 
2.43.0


From c48c853bcfdfe702e14421826ca9de26a303e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:46 +0000
Subject: [PATCH 19/68] fix: do not serialize the absent resource of literal
 layouts

---
 layouts/src/abs/syntax/layout/literal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..c788371 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,6 +253,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -346,6 +347,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +417,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -487,6 +490,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -568,6 +572,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
-- 
2.43.0


From 811a77c882ad5eb37a8da150ca5acd218cb7167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 20/68] fix: distinguish the default graph from the absence of
 graph in value formats

---
 layouts/src/abs/syntax/layout/sum.rs |  9 ++++++---
 layouts/src/abs/syntax/mod.rs        | 18 +++++++++++++++---
 layouts/src/abs/syntax/resource.rs   |  6 ++----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..250ef2a 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -209,7 +209,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -239,8 +243,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..43a627e 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -495,6 +495,15 @@ where
 	}
 }
 
+/// Deserializes a value that is present, even if it is `null`.
+pub(crate) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	T: Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct ValueFormat {
@@ -503,7 +512,11 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -520,8 +533,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 541a557..3ab81b2 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -74,10 +74,8 @@ impl<C: Context> Build<C> for Resource {
 				let value: xsd_types::Decimal = n.into();
 				let type_ = value.decimal_type();
 
-				Ok(context.literal_resource(
-					&n.to_string(),
-					LexicalLiteralTypeRef::Any(type_.iri()),
-				))
+				Ok(context
+					.literal_resource(&n.to_string(), LexicalLiteralTypeRef::Any(type_.iri())))
 			}
 			Self::String(value) => {
 				Ok(context.literal_resource(value, LexicalLiteralTypeRef::Any(XSD_STRING)))
-- 
2.43.0


From 5dc35e8eea15d641947b188977073cb5732c5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:34 +0000
Subject: [PATCH 21/68] fix: build the automaton of regular expression
 sequences from their first item

---
 layouts/src/abs/regexp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..81c0efc 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -220,7 +220,6 @@ impl RegExp {
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
-		debug_assert!(!dt.final_states().is_empty());
 
 		let mut n = 0;
 		dt.map(
@@ -268,16 +267,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
+				let mut last = a;
 
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(last, None, ea);
+					last = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(last, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From 2c6b8751031f18a5acdd6f1e9bb69e007249f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 22/68] fix: parse and print regular expression repetitions,
 groups and wildcards

---
 layouts/src/abs/regexp.rs | 122 ++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 51 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 81c0efc..9d33a60 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -154,69 +154,88 @@ impl RegExp {
 	///
 	/// This will enclose it between parenthesis if necessary.
 	pub fn display_sub(&self) -> DisplaySub {
-		DisplaySub(self)
+		DisplaySub(self, self.is_simple())
+	}
+
+	/// Display this regular expression as the operand of a repetition.
+	fn display_item(&self) -> DisplaySub {
+		DisplaySub(self, matches!(self, Self::Any | Self::Set(_)))
 	}
 
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		// Stack of groups, each composed of a list of options, each composed of
+		// a list of consecutive items.
+		let mut stack: Vec<Vec<Vec<RegExp>>> = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
 		while let Some(c) = chars.next() {
-			match c {
+			let item = match c {
 				'(' => {
-					stack.push(vec![RegExp::empty()]);
+					stack.push(vec![Vec::new()]);
+					continue;
 				}
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
-					let options = stack
-						.last_mut()
-						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
-					options.last_mut().unwrap().push(sub_exp);
+					let group = stack.pop().unwrap();
+					if stack.is_empty() {
+						return Err(ParseError::UnmatchedClosingParenthesis);
+					}
+					Self::from_options(group)
 				}
 				'|' => {
-					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
-				}
-				'[' => {
-					let options = stack.last_mut().unwrap();
-					let charset = parse_charset(&mut chars)?;
-					options.last_mut().unwrap().push(RegExp::Set(charset))
-				}
-				'\\' => {
-					let options = stack.last_mut().unwrap();
-					let c = parse_escaped_char(&mut chars)?;
-					let mut charset = RangeSet::new();
-					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
-				}
-				'?' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
+					stack.last_mut().unwrap().push(Vec::new());
+					continue;
 				}
-				'*' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
-				}
-				'+' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
-				}
-				c => {
-					let options = stack.last_mut().unwrap();
-					let mut charset = RangeSet::new();
-					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
+				'[' => RegExp::Set(parse_charset(&mut chars)?),
+				'.' => RegExp::Any,
+				'\\' => Self::from_char(parse_escaped_char(&mut chars)?),
+				'?' | '*' | '+' => {
+					let items = stack.last_mut().unwrap().last_mut().unwrap();
+					let mut item = items.pop().unwrap_or_else(RegExp::empty);
+					match c {
+						'?' => item.repeat(0, 1),
+						'*' => item.repeat(0, u32::MAX),
+						_ => item.repeat(1, u32::MAX),
+					}
+					item
 				}
-			}
+				c => Self::from_char(c),
+			};
+
+			stack.last_mut().unwrap().last_mut().unwrap().push(item);
 		}
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(Self::from_options(stack.pop().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
 
+	fn from_char(c: char) -> Self {
+		let mut charset = RangeSet::new();
+		charset.insert(c);
+		Self::Set(charset)
+	}
+
+	fn from_options(options: Vec<Vec<Self>>) -> Self {
+		let mut options: Vec<_> = options
+			.into_iter()
+			.map(|mut items| {
+				if items.len() == 1 {
+					items.pop().unwrap()
+				} else {
+					Self::Sequence(items)
+				}
+			})
+			.collect();
+
+		if options.len() == 1 {
+			options.pop().unwrap()
+		} else {
+			Self::Union(options)
+		}
+	}
+
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
@@ -498,16 +517,16 @@ impl fmt::Display for RegExp {
 
 				Ok(())
 			}
-			Self::Repeat(e, 0, 1) => write!(f, "{}?", e.display_sub()),
-			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", e.display_sub()),
-			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", e.display_sub()),
-			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", e.display_sub(), min),
-			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", e.display_sub(), max),
+			Self::Repeat(e, 0, 1) => write!(f, "{}?", e.display_item()),
+			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", e.display_item()),
+			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", e.display_item()),
+			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", e.display_item(), min),
+			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", e.display_item(), max),
 			Self::Repeat(e, min, max) => {
 				if min == max {
-					write!(f, "{}{{{}}}", e.display_sub(), min)
+					write!(f, "{}{{{}}}", e.display_item(), min)
 				} else {
-					write!(f, "{}{{{},{}}}", e.display_sub(), min, max)
+					write!(f, "{}{{{},{}}}", e.display_item(), min, max)
 				}
 			}
 			Self::Union(items) => {
@@ -528,11 +547,11 @@ impl fmt::Display for RegExp {
 /// Display the inner regular expression as a sub expression.
 ///
 /// This will enclose it between parenthesis if necessary.
-pub struct DisplaySub<'a>(&'a RegExp);
+pub struct DisplaySub<'a>(&'a RegExp, bool);
 
 impl fmt::Display for DisplaySub<'_> {
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-		if self.0.is_simple() {
+		if self.1 {
 			self.0.fmt(f)
 		} else {
 			write!(f, "({})", self.0)
@@ -569,6 +588,7 @@ fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 		'-' => write!(f, "\\-"),
 		'^' => write!(f, "\\^"),
 		'|' => write!(f, "\\|"),
+		'.' => write!(f, "\\."),
 		'\\' => write!(f, "\\\\"),
 		'\0' => write!(f, "\\0"),
 		'\x07' => write!(f, "\\a"),
-- 
2.43.0


From 0c765b583cc8ad5805e453b0b67af8df7b911494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 23/68] fix: repeat the value of singleton regular expressions

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 9d33a60..2683113 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -135,7 +135,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, n, _) => {
+				for _ in 0..*n {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
-- 
2.43.0


From 432583fdd6c0a99adb387f79445a4126e6944bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 24/68] fix: preserve final states when minimizing or mapping
 automata

---
 layouts/src/utils/automaton.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..58bdffa 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -505,6 +505,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			if let Some(member) = map.get(q) {
+				result.add_final_state(member.clone());
+			}
+		}
+
 		result
 	}
 
@@ -582,6 +588,15 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
-- 
2.43.0


From bd77a26fe93207210b0e63eb1bca711a09025654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:15 +0000
Subject: [PATCH 25/68] fix: compress every reachable state of an automaton

---
 layouts/src/utils/automaton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 58bdffa..0e25bb6 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -674,7 +674,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					let mut compact_label = M::default();
 					append(&mut compact_label, label);
 
+					let mut chain = BTreeSet::new();
 					while let Some((label, s)) = self.single_transition_of(r) {
+						if !chain.insert(r) {
+							break; // cycle.
+						}
+
 						if self.is_final_state(r) {
 							q_transitions.insert(compact_label.clone(), r.clone());
 						}
@@ -684,6 +689,7 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					}
 
 					q_transitions.insert(compact_label, r.clone());
+					stack.push(r);
 				}
 
 				transitions.insert(q.clone(), q_transitions);
-- 
2.43.0


From 1538005e75198c32c6e056fa61b1270a48fc0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 26/68] fix: do not give terms to resources in rejected sum
 variants when dehydrating

---
 layouts/src/distill/de/mod.rs | 77 ++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 8e0252d..ee97def 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut assignments = Vec::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -535,9 +537,37 @@ where
 		layout_ref,
 		inputs,
 		output,
-	)
+		&mut assignments,
+	)?;
+
+	for (resource, assignment) in assignments {
+		match assignment {
+			Assignment::Iri(iri) => {
+				rdf.interpretation.assign_iri(&resource, iri);
+			}
+			Assignment::Literal(literal) => {
+				let literal = rdf.vocabulary.insert_owned_literal(literal);
+				rdf.interpretation.assign_literal(&resource, literal);
+			}
+		}
+	}
+
+	Ok(())
 }
 
+/// Term given to a resource by the dehydrated value.
+///
+/// Assignments are collected along with the dehydrated quads, and only applied
+/// to the interpretation at the end, so that the rejected variants of a sum
+/// layout don't give any term to the resources.
+enum Assignment<V: IriVocabulary> {
+	Iri(V::Iri),
+	Literal(RdfLiteral<V>),
+}
+
+type Assignments<R, V> = Vec<(R, Assignment<V>)>;
+
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -546,6 +576,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
 	output: &mut D,
+	assignments: &mut Assignments<I::Resource, V>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -589,10 +620,7 @@ where
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						assignments.push((resource, Assignment::Literal(literal)));
 
 						Ok(())
 					}
@@ -603,10 +631,7 @@ where
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						assignments.push((resource, Assignment::Literal(literal)));
 
 						Ok(())
 					}
@@ -620,10 +645,7 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						assignments.push((resource, Assignment::Literal(literal)));
 
 						Ok(())
 					}
@@ -637,10 +659,7 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						assignments.push((resource, Assignment::Literal(literal)));
 
 						Ok(())
 					}
@@ -655,7 +674,7 @@ where
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								assignments.push((resource, Assignment::Iri(i)));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -673,6 +692,7 @@ where
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
+				let mut variant_assignments = Vec::new();
 
 				let env = env.intro(rdf, variant.intro);
 				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
@@ -685,19 +705,24 @@ where
 					&variant.value,
 					&env,
 					&mut variant_dataset,
+					&mut variant_assignments,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection
+					.replace((variant_dataset, variant_assignments))
+					.is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
+				Some((variant_dataset, variant_assignments)) => {
 					for quad in variant_dataset {
 						output.insert(quad);
 					}
 
+					assignments.extend(variant_assignments);
+
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -721,6 +746,7 @@ where
 								&field.value,
 								&env,
 								output,
+								assignments,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -758,6 +784,7 @@ where
 							&layout.item.value,
 							&env,
 							output,
+							assignments,
 						)?;
 					}
 
@@ -772,9 +799,8 @@ where
 					if value.is_empty() {
 						// The head of an empty list is its tail.
 						let tail = env.instantiate_pattern(&layout.tail)?;
-						let iris: Vec<_> = rdf.interpretation.iris_of(&tail).cloned().collect();
-						for iri in iris {
-							rdf.interpretation.assign_iri(&head, iri);
+						for iri in rdf.interpretation.iris_of(&tail) {
+							assignments.push((head.clone(), Assignment::Iri(iri.clone())));
 						}
 					}
 
@@ -798,6 +824,7 @@ where
 							&layout.node.value,
 							&env,
 							output,
+							assignments,
 						)?;
 
 						head = rest;
@@ -829,6 +856,7 @@ where
 									&item_layout.value,
 									&env,
 									output,
+									assignments,
 								)?;
 							}
 							(None, None) => break,
@@ -845,6 +873,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -853,6 +882,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
 	output: &mut D,
+	assignments: &mut Assignments<I::Resource, V>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -879,6 +909,7 @@ where
 		&format.layout,
 		&inputs,
 		output,
+		assignments,
 	)
 }
 
-- 
2.43.0


From 86db392af82f70204f7268966eefead993f7a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:43 +0000
Subject: [PATCH 27/68] fix: report cyclic data instead of overflowing the
 stack when hydrating

---
 layouts/src/distill/hy/mod.rs | 49 +++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 2e69ec6..76610e0 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -153,9 +153,40 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 	)
 }
 
+/// Chain of the layouts being hydrated, with their inputs and graph.
+struct Frame<'a, R> {
+	layout_ref: &'a Ref<LayoutType, R>,
+	inputs: &'a [R],
+	graph: Option<&'a R>,
+	parent: Option<&'a Frame<'a, R>>,
+}
+
+impl<R: PartialEq> Frame<'_, R> {
+	/// Checks if this frame is part of its own parents, in which case the
+	/// hydration would never end.
+	fn is_cyclic(&self) -> bool {
+		let mut parent = self.parent;
+
+		while let Some(p) = parent {
+			if p.layout_ref.id() == self.layout_ref.id()
+				&& p.inputs == self.inputs
+				&& p.graph == self.graph
+			{
+				return true;
+			}
+
+			parent = p.parent;
+		}
+
+		false
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
@@ -164,6 +195,7 @@ fn hydrate_with_ref<V, I, D>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
+	parent: Option<&Frame<I::Resource>>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -185,6 +217,18 @@ where
 		});
 	}
 
+	let frame = Frame {
+		layout_ref,
+		inputs,
+		graph: current_graph,
+		parent,
+	};
+
+	if frame.is_cyclic() {
+		// The data is cyclic, it has no (finite) tree representation.
+		return Err(Error::IncompatibleLayout);
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -299,6 +343,7 @@ where
 							variant_graph.as_ref(),
 							&variant.value.layout,
 							&variant_inputs,
+							Some(&frame),
 						);
 
 						match value {
@@ -381,6 +426,7 @@ where
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
+							Some(&frame),
 						)?;
 
 						record.insert(key.clone(), value);
@@ -445,6 +491,7 @@ where
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -533,6 +580,7 @@ where
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -596,6 +644,7 @@ where
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item)
-- 
2.43.0


From 92cfe2140bf1b6a8ed08c3657431dc9d9c23acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:34 +0000
Subject: [PATCH 28/68] fix: accept boolean layouts wherever a layout is
 expected

---
 layouts/src/abs/syntax/layout/list.rs | 5 ++++-
 layouts/src/abs/syntax/layout/mod.rs  | 3 ++-
 layouts/src/abs/syntax/layout/sum.rs  | 5 ++++-
 layouts/src/abs/syntax/mod.rs         | 5 ++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..eed1d2e 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -161,6 +161,9 @@ impl TryFromJson for ListNodeOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -175,7 +178,7 @@ impl TryFromJson for ListNodeOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..c040e60 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -305,13 +305,14 @@ impl TryFromJson for LayoutRef {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(b) => Ok(Self::Layout(Box::new(Layout::Boolean(*b)))),
 			json_syntax::Value::String(value) => Self::try_from_json_string_at(value, offset),
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 250ef2a..11a1124 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -164,6 +164,9 @@ impl TryFromJson for VariantFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -176,7 +179,7 @@ impl TryFromJson for VariantFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 43a627e..7d994c8 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -458,6 +458,9 @@ impl TryFromJson for ValueFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -470,7 +473,7 @@ impl TryFromJson for ValueFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From 71d2884d70b7c3fe677b466fdcab2d7e92676b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 29/68] fix: count the inputs of literal layouts

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..b6113f6 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(i) => i.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From fb3ef1a51d5f52da7995c1f51f30dbef28d1cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 30/68] fix: do not match a graph variable with the default
 graph

---
 layouts/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..4fd0b8b 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// The default graph has no name.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 789398058443f09177014bf796c4bdbe676b0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 31/68] fix: deserialize 128 bits integers

---
 layouts/src/value/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 16c9541..35658d7 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -1,5 +1,7 @@
 use std::{collections::BTreeMap, fmt};
 
+use num_rational::BigRational;
+
 use super::{Literal, Number, Value};
 
 /// Name of the only field of the map `serde_json` uses to represent numbers
@@ -36,6 +38,20 @@ impl<'de> serde::Deserialize<'de> for Value {
 				Ok(Value::Literal(Literal::Number(value.into())))
 			}
 
+			#[inline]
+			fn visit_i128<E>(self, value: i128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(Number::new(
+					BigRational::from_integer(value.into()),
+				))))
+			}
+
+			#[inline]
+			fn visit_u128<E>(self, value: u128) -> Result<Value, E> {
+				Ok(Value::Literal(Literal::Number(Number::new(
+					BigRational::from_integer(value.into()),
+				))))
+			}
+
 			#[inline]
 			fn visit_f64<E>(self, value: f64) -> Result<Value, E>
 			where
-- 
2.43.0


From 5431bf8f5857ef3bd89da830446718a4456e76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:44 +0000
Subject: [PATCH 32/68] fix: read tagged CBOR values

---
 layouts/src/value/de.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/layouts/src/value/de.rs b/layouts/src/value/de.rs
index 35658d7..b6a064e 100644
--- a/layouts/src/value/de.rs
+++ b/layouts/src/value/de.rs
@@ -1,5 +1,7 @@
 use std::{collections::BTreeMap, fmt};
 
+#[cfg(feature = "serde_cbor")]
+use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 
 use super::{Literal, Number, Value};
@@ -108,6 +110,31 @@ impl<'de> serde::Deserialize<'de> for Value {
 				Ok(Value::Literal(Literal::Unit))
 			}
 
+			/// CBOR tags are given as newtype structs by `serde_cbor`.
+			fn visit_newtype_struct<D>(self, deserializer: D) -> Result<Value, D::Error>
+			where
+				D: serde::Deserializer<'de>,
+			{
+				#[cfg(feature = "serde_cbor")]
+				let tag = serde_cbor::tags::current_cbor_tag();
+				let value = serde::Deserialize::deserialize(deserializer)?;
+
+				#[cfg(feature = "serde_cbor")]
+				if let Value::Literal(Literal::ByteString(bytes)) = &value {
+					// See: <https://www.rfc-editor.org/rfc/rfc8949.html#name-bignums>
+					let n = BigInt::from_bytes_be(Sign::Plus, bytes);
+					let n = match tag {
+						Some(2) => n,
+						Some(3) => -BigInt::from(1) - n,
+						_ => return Ok(value),
+					};
+
+					return Ok(Value::Literal(Literal::Number(Number::new(n.into()))));
+				}
+
+				Ok(value)
+			}
+
 			#[inline]
 			fn visit_seq<V>(self, mut visitor: V) -> Result<Value, V::Error>
 			where
-- 
2.43.0


From eddb6e220bce4cd19ae3e3157ee5ae10a566812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:15 +0000
Subject: [PATCH 33/68] fix: convert big integers to CBOR without loss

---
 src/format/tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/format/tree.rs b/src/format/tree.rs
index 67fae78..1199898 100644
--- a/src/format/tree.rs
+++ b/src/format/tree.rs
@@ -117,7 +117,11 @@ impl TreeFormat {
 					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)
 				}
 			}
-			Self::Cbor => serde_cbor::to_writer(output, &value).map_err(WriteError::Cbor),
+			Self::Cbor => {
+				// Unlike `Value`, `serde_cbor::Value` supports big integers.
+				let cbor: serde_cbor::Value = value.into();
+				serde_cbor::to_writer(output, &cbor).map_err(WriteError::Cbor)
+			}
 		}
 	}
 }
-- 
2.43.0


From 2a60cff30077cc13a0c481822dc257d2390c0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:29 +0000
Subject: [PATCH 34/68] fix: report union and intersection layouts as
 unsupported instead of panicking

---
 layouts/src/abs/syntax/build.rs               | 3 +++
 layouts/src/abs/syntax/layout/intersection.rs | 2 +-
 layouts/src/abs/syntax/layout/union.rs        | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..eca0695 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -36,6 +36,9 @@ pub enum BuildError {
 
 	#[error("no property object")]
 	NoPropertyObject,
+
+	#[error("unsupported layout type `{0}`")]
+	UnsupportedLayout(&'static str),
 }
 
 pub trait Context {
diff --git a/layouts/src/abs/syntax/layout/intersection.rs b/layouts/src/abs/syntax/layout/intersection.rs
index 3e26017..36019cf 100644
--- a/layouts/src/abs/syntax/layout/intersection.rs
+++ b/layouts/src/abs/syntax/layout/intersection.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for IntersectionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayout(IntersectionLayoutType::NAME))
 	}
 }
diff --git a/layouts/src/abs/syntax/layout/union.rs b/layouts/src/abs/syntax/layout/union.rs
index a1a5a2c..5c28bb5 100644
--- a/layouts/src/abs/syntax/layout/union.rs
+++ b/layouts/src/abs/syntax/layout/union.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for UnionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayout(UnionLayoutType::NAME))
 	}
 }
-- 
2.43.0


From b280203e642d2923f399b331ca07729b3b29f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:35 +0000
Subject: [PATCH 35/68] fix: reject unexpected entries of literal values when
 deserializing layouts

---
 layouts/src/abs/syntax/pattern/literal.rs | 31 +++++++++++++++++++++++
 layouts/src/abs/syntax/resource.rs        |  1 +
 2 files changed, 32 insertions(+)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 1807589..ed8ae82 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -9,6 +9,7 @@ use super::CompactIri;
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(try_from = "UncheckedLiteralValue")]
 pub struct LiteralValue {
 	pub value: String,
 
@@ -46,6 +47,36 @@ impl LiteralValue {
 	}
 }
 
+/// Literal value that may have both a type and a language.
+#[derive(serde::Deserialize)]
+#[serde(deny_unknown_fields)]
+struct UncheckedLiteralValue {
+	value: String,
+
+	#[serde(rename = "type")]
+	type_: Option<CompactIri>,
+
+	language: Option<LangTagBuf>,
+}
+
+impl TryFrom<UncheckedLiteralValue> for LiteralValue {
+	type Error = &'static str;
+
+	fn try_from(value: UncheckedLiteralValue) -> Result<Self, Self::Error> {
+		let type_ = match (value.type_, value.language) {
+			(Some(_), Some(_)) => return Err("literal value with both a type and a language"),
+			(Some(type_), None) => LiteralType::Iri(LiteralTypeIri { type_ }),
+			(None, Some(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+			(None, None) => LiteralType::default(),
+		};
+
+		Ok(Self {
+			value: value.value,
+			type_,
+		})
+	}
+}
+
 impl From<rdf_types::Literal> for LiteralValue {
 	fn from(value: rdf_types::Literal) -> Self {
 		Self {
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 3ab81b2..a72a4d6 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -87,6 +87,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
-- 
2.43.0


From 07d0cbd4d57a8dad95ab62c4274e0846b0efe923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:54 +0000
Subject: [PATCH 36/68] fix: preserve the default graph when serializing
 compiled value formats

---
 layouts/src/format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layouts/src/format.rs b/layouts/src/format.rs
index c1b4be2..7010b06 100644
--- a/layouts/src/format.rs
+++ b/layouts/src/format.rs
@@ -1,8 +1,9 @@
-use crate::{layout::LayoutType, Pattern, Ref};
+use crate::{abs::syntax::deserialize_some, layout::LayoutType, Pattern, Ref};
 
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(bound(deserialize = "R: serde::Deserialize<'de>"))]
 pub struct ValueFormat<R> {
 	/// Layout.
 	pub layout: Ref<LayoutType, R>,
@@ -11,6 +12,11 @@ pub struct ValueFormat<R> {
 	pub input: Vec<Pattern<R>>,
 
 	/// Graph in which the layout is evaluated.
+	#[serde(
+		default,
+		deserialize_with = "deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern<R>>>,
 }
 
-- 
2.43.0


From e63768caee91062f8c67aa7a3c0900d84cbcc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 37/68] fix: keep the language of regular expressions when
 simplifying them

---
 layouts/src/abs/regexp.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 2683113..22803b2 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -80,13 +80,8 @@ impl RegExp {
 			Self::Sequence(seq) => {
 				let new_seq = seq
 					.into_iter()
-					.filter_map(|e| {
-						if e.is_empty() {
-							None
-						} else {
-							Some(e.simplified())
-						}
-					})
+					.map(Self::simplified)
+					.filter(|e| !matches!(e, Self::Sequence(seq) if seq.is_empty()))
 					.collect();
 				Self::Sequence(new_seq)
 			}
-- 
2.43.0


From 1edb0daa1a92fc8c4259005099680ae742caa7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 38/68] fix: negated empty character sets of regular
 expressions match any character

---
 layouts/src/abs/regexp.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 22803b2..39aa519 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -275,12 +275,9 @@ impl RegExp {
 	) -> (usize, usize) {
 		match self {
 			Self::Any => {
-				let mut charset = RangeSet::new();
-				charset.insert('\u{0}'..='\u{d7ff}');
-				charset.insert('\u{e000}'..='\u{10ffff}');
 				let a = new_state();
 				let b = new_state();
-				automaton.add(a, Some(charset), b);
+				automaton.add(a, Some(any_char()), b);
 				(a, b)
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
@@ -371,6 +368,14 @@ pub enum ParseError {
 	IncompleteCharacterSet,
 }
 
+/// Returns the set of all characters.
+fn any_char() -> RangeSet<char> {
+	let mut charset = RangeSet::new();
+	charset.insert('\u{0}'..='\u{d7ff}');
+	charset.insert('\u{e000}'..='\u{10ffff}');
+	charset
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
@@ -401,7 +406,11 @@ fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char
 						}
 
 						if negate {
-							set = set.complement();
+							set = if set.is_empty() {
+								any_char()
+							} else {
+								set.complement()
+							};
 						}
 
 						break Ok(set);
-- 
2.43.0


From 0f1226f7662b419cc9a1b6013207063fb508f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 39/68] fix: write unions nested in sequences of one item
 between parentheses

---
 layouts/src/abs/regexp.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 39aa519..e8e35b0 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -516,11 +516,7 @@ impl fmt::Display for RegExp {
 			}
 			Self::Sequence(seq) => {
 				for item in seq {
-					if seq.len() > 1 {
-						item.display_sub().fmt(f)?
-					} else {
-						item.fmt(f)?
-					}
+					item.display_sub().fmt(f)?
 				}
 
 				Ok(())
-- 
2.43.0


From 2eeae08fdccf7cd97228ced82c04d8b19030f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 40/68] fix: loops nested in loops of regular expressions
 leaked

---
 layouts/src/abs/regexp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index e8e35b0..b4c8566 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -345,9 +345,15 @@ impl RegExp {
 			automaton.add(b, None, c);
 			(a, d)
 		} else {
-			let (a, b) = self.build_into(new_state, automaton);
+			// The states of the loop must not be those of the inner expression,
+			// which may have loops on its own.
+			let a = new_state();
+			let b = new_state();
+			let (ea, eb) = self.build_into(new_state, automaton);
+			automaton.add(a, None, ea);
+			automaton.add(eb, None, ea);
+			automaton.add(eb, None, b);
 			automaton.add(a, None, b);
-			automaton.add(b, None, a);
 			(a, b)
 		}
 	}
-- 
2.43.0


From 7d9eabd33b55ad2173eb6f755f30b67d98569103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 41/68] fix: overlapping labels were not split when making
 automata deterministic

---
 layouts/src/utils/automaton.rs | 75 +++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 0e25bb6..de050c8 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -1,4 +1,4 @@
-use btree_range_map::{AnyRange, RangeMap, RangeSet};
+use btree_range_map::{AnyRange, RangeSet};
 use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
@@ -105,50 +105,67 @@ impl<Q: Ord> Automaton<Q> {
 		&self,
 		states: &BTreeSet<&Q>,
 	) -> BTreeMap<AnyRange<char>, BTreeSet<&Q>> {
-		let mut map = RangeMap::new();
-
+		// Collect the ranges of characters leading to each set of states.
+		let mut ranges = Vec::new();
 		for q in states {
 			if let Some(transitions) = self.transitions.get(q) {
 				for (label, targets) in transitions {
 					if let Some(label) = label {
+						let targets = self.modulo_epsilon_state(targets);
 						for range in label.iter() {
-							debug_assert!(!range.is_empty());
-
-							map.update(
-								*range,
-								|current_target_states_opt: Option<&BTreeSet<&Q>>| {
-									let mut current_target_states = match current_target_states_opt
-									{
-										Some(current_target_states) => {
-											current_target_states.clone()
-										}
-										None => BTreeSet::new(),
-									};
+							if let (Some(first), Some(last)) = (range.first(), range.last()) {
+								ranges.push((first, last, targets.clone()));
+							}
+						}
+					}
+				}
+			}
+		}
 
-									for q in targets {
-										current_target_states
-											.extend(self.modulo_epsilon_state(Some(q)));
-									}
+		// Split the ranges where one of them starts or ends.
+		let mut starts = BTreeSet::new();
+		for (first, last, _) in &ranges {
+			starts.insert(*first);
+			starts.extend((*last..=char::MAX).nth(1));
+		}
+
+		let mut map = BTreeMap::new();
+		let mut starts = starts.into_iter().peekable();
+		let mut pending: Option<(char, char, BTreeSet<&Q>)> = None;
+		while let Some(first) = starts.next() {
+			let last = match starts.peek() {
+				Some(next) => (first..*next).next_back().unwrap(),
+				None => char::MAX,
+			};
 
-									Some(current_target_states)
-								},
-							);
+			let mut targets = BTreeSet::new();
+			for (a, b, range_targets) in &ranges {
+				if *a <= first && first <= *b {
+					targets.extend(range_targets.iter().copied());
+				}
+			}
 
-							assert!(map.get(range.first().unwrap()).is_some());
+			match &mut pending {
+				Some((_, pending_last, pending_targets)) if *pending_targets == targets => {
+					*pending_last = last
+				}
+				_ => {
+					if let Some((a, b, targets)) = pending.replace((first, last, targets)) {
+						if !targets.is_empty() {
+							map.insert(AnyRange::from(a..=b), targets);
 						}
 					}
 				}
 			}
 		}
 
-		let mut simplified_map = BTreeMap::new();
-
-		for (range, set) in map {
-			debug_assert!(!range.is_empty());
-			simplified_map.insert(range, set);
+		if let Some((a, b, targets)) = pending {
+			if !targets.is_empty() {
+				map.insert(AnyRange::from(a..=b), targets);
+			}
 		}
 
-		simplified_map
+		map
 	}
 
 	pub fn determinize(&self) -> DetAutomaton<BTreeSet<&Q>>
-- 
2.43.0


From 64403859a679c8fff277b42b2997595a4ae8bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 42/68] fix: follow the empty transitions of each operand in
 automaton products

---
 layouts/src/utils/automaton.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index de050c8..ee3afe5 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -254,22 +254,26 @@ impl<Q: Ord> Automaton<Q> {
 							}
 						}
 						None => {
-							if let Some(b_successors) =
-								other.transitions.get(b).and_then(|s| s.get(&None))
-							{
-								let successors = transitions.entry(None).or_default();
-
-								for sa in a_successors {
-									for sb in b_successors {
-										let s = f(sa, sb);
-										stack.push((s.clone(), sa, sb));
-										successors.insert(s);
-									}
-								}
+							let successors = transitions.entry(None).or_default();
+
+							for sa in a_successors {
+								let s = f(sa, b);
+								stack.push((s.clone(), sa, b));
+								successors.insert(s);
 							}
 						}
 					}
 				}
+
+				if let Some(b_successors) = other.transitions.get(b).and_then(|s| s.get(&None)) {
+					let successors = transitions.entry(None).or_default();
+
+					for sb in b_successors {
+						let s = f(a, sb);
+						stack.push((s.clone(), a, sb));
+						successors.insert(s);
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From abdb57d73d9c843e25c93888677721c5b6cccc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 43/68] fix: minimizing an automaton with unreachable states
 panicked

---
 layouts/src/utils/automaton.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index ee3afe5..3298595 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -521,8 +521,11 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 
 		let mut result = DetAutomaton::new(map[&self.initial_state].clone());
 		for (source, transitions) in &self.transitions.0 {
-			for (range, target) in transitions {
-				result.add(map[source].clone(), range, map[target].clone());
+			// Unreachable states are not part of the partition.
+			if let Some(source) = map.get(source) {
+				for (range, target) in transitions {
+					result.add(source.clone(), range, map[target].clone());
+				}
 			}
 		}
 
-- 
2.43.0


From 12cb1351fcdf47b0b76352ec847d677092179288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:02 +0000
Subject: [PATCH 44/68] fix: check the resources of quad patterns matched
 against a quad

---
 layouts/src/pattern.rs | 52 ++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 4fd0b8b..c6b2c19 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -149,38 +149,26 @@ impl<R> Substitution<R> {
 	{
 		let mut result = self.clone();
 
-		if let Pattern::Var(x) = pattern.0 {
-			if let Some(old_value) = result.set(x, Some(value.0.clone())) {
-				if old_value != *value.0 {
-					return None;
-				}
-			}
-		}
-
-		if let Pattern::Var(x) = pattern.1 {
-			if let Some(old_value) = result.set(x, Some(value.1.clone())) {
-				if old_value != *value.1 {
-					return None;
-				}
-			}
-		}
-
-		if let Pattern::Var(x) = pattern.2 {
-			if let Some(old_value) = result.set(x, Some(value.2.clone())) {
-				if old_value != *value.2 {
-					return None;
-				}
-			}
-		}
-
-		if let Some(Pattern::Var(x)) = pattern.3 {
-			// The default graph has no name.
-			let g = value.3?;
-			if let Some(old_value) = result.set(x, Some(g.clone())) {
-				if old_value != *g {
-					return None;
-				}
-			}
+		let mut bind = |pattern: Pattern<&R>, value: &R| match pattern {
+			Pattern::Var(x) => match result.set(x, Some(value.clone())) {
+				Some(old_value) => old_value == *value,
+				None => true,
+			},
+			Pattern::Resource(r) => r == value,
+		};
+
+		let graph_matches = match (pattern.3, value.3) {
+			(Some(pattern), Some(value)) => bind(pattern, value),
+			(None, None) => true,
+			_ => false,
+		};
+
+		if !graph_matches
+			|| !bind(pattern.0, value.0)
+			|| !bind(pattern.1, value.1)
+			|| !bind(pattern.2, value.2)
+		{
+			return None;
 		}
 
 		Some(result)
-- 
2.43.0


From 53a04d941e9112a72831a701d46e927c32634933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 45/68] fix: give ownership of the string serialized by a
 derived text layout

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index e1dff83..5d1661d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -150,7 +150,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						rdf.interpretation.assign_literal(#target, literal);
-- 
2.43.0


From 0dcc80ac8ad14b773f8aa2bd8ea392329c1fe566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:42 +0000
Subject: [PATCH 46/68] fix: derived literals are assigned to the resource of
 their layout

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 5d1661d..9c8bba1 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
 
+					let target = env.instantiate_pattern(&#target);
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,17 +91,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,17 +110,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,17 +129,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,17 +148,18 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
+						let target = env.instantiate_pattern(&#target);
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -468,46 +474,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From faf9edcf2d2b9754120c9b91e45271ec2eb5ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 47/68] fix: optional parts of derived types using unknown
 terms are absent when deserializing

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 109 ++++++++++--------
 1 file changed, 58 insertions(+), 51 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..9e76ee0 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// No match if some constant has no interpretation.
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
@@ -287,18 +290,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// No match if some constant has no interpretation.
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
@@ -380,37 +386,38 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						)
-					);
+					// No item if some constant has no interpretation.
+					if let Some(matching_dataset) = #node_dataset {
+						let matching = ::treeldr::de::Matching::new(
+							dataset,
+							substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
+						);
 
-					for item_substitution in matching {
-						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+						for item_substitution in matching {
+							let item_inputs =
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
 
-						let item_graph = ::treeldr::de::select_graph(
-							current_graph,
-							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
-							&item_substitution,
-						);
+							let item_graph = ::treeldr::de::select_graph(
+								current_graph,
+								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
+								&item_substitution,
+							);
 
-						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
-							dataset,
-							item_graph.as_ref(),
-							&item_inputs
-						)?;
+							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								item_graph.as_ref(),
+								&item_inputs
+							)?;
 
-						items.push(item);
+							items.push(item);
+						}
 					}
 
 					Ok(Self(items))
-- 
2.43.0


From 3a354497f2c6b1d4c55c382cf4100392dd63e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 48/68] fix: try every variant of a derived sum type when
 deserializing

---
 .../rust/treeldr-rs-macros/src/generate/de.rs  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 9e76ee0..10e619f 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -306,21 +306,23 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						None => None
 					};
 
-					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+					if let (Some(variant_substitution), Some(variant_inputs), Some(variant_graph)) = (variant_substitution, #variant_inputs, #variant_graph) {
+						let variant_inputs = ::treeldr::de::select_inputs(&variant_inputs, &variant_substitution);
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &variant_graph, &variant_substitution);
 
-						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+						// If the value does not match this variant, it may still match
+						// another one.
+						if let Ok(value) = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
-
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						) {
+							if let Some(other) = result.replace(Self::#variant_ident(value)) {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 63cb08b0b7a341feb05b208877cbee1e4cb706e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 49/68] fix: variables left unbound are ambiguous when
 deserializing derived types

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 30 +++++++-------
 generators/rust/treeldr-rs/src/de/mod.rs      | 40 +++++++++++++------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 10e619f..05876ae 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -76,7 +76,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let resource = ::treeldr::de::select_resource(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 					let mut selected = None;
 
@@ -213,10 +213,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let Some(field_substitution) = field_substitution {
-						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let item_graph =
-							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let value = <#field_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -307,10 +307,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let (Some(variant_substitution), Some(variant_inputs), Some(variant_graph)) = (variant_substitution, #variant_inputs, #variant_graph) {
-						let variant_inputs = ::treeldr::de::select_inputs(&variant_inputs, &variant_substitution);
+						let variant_inputs = ::treeldr::de::select_inputs(&variant_inputs, &variant_substitution)?;
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &variant_graph, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &variant_graph, &variant_substitution)?;
 
 						// If the value does not match this variant, it may still match
 						// another one.
@@ -403,13 +403,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						for item_substitution in matching {
 							let item_inputs =
-								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 							let item_graph = ::treeldr::de::select_graph(
 								current_graph,
 								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 								&item_substitution,
-							);
+							)?;
 
 							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 								rdf,
@@ -461,8 +461,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
-					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let mut head = ::treeldr::de::select_resource(&#head.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
+					let tail = ::treeldr::de::select_resource(&#tail.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 					let mut items = Vec::new();
 
 					while head != tail {
@@ -484,13 +484,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -501,7 +501,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = ::treeldr::de::select_resource(&::treeldr::Pattern::Var(rest), &item_substitution)?;
 					}
 
 					Ok(Self(items))
@@ -541,13 +541,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						).into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -732,7 +732,7 @@ fn generate_data(
 		)
 		.into_required_unique()?;
 
-		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+		let resource = ::treeldr::de::select_resource(&#resource.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 
 		let mut result = None;
 
diff --git a/generators/rust/treeldr-rs/src/de/mod.rs b/generators/rust/treeldr-rs/src/de/mod.rs
index b0d9951..f9b21fd 100644
--- a/generators/rust/treeldr-rs/src/de/mod.rs
+++ b/generators/rust/treeldr-rs/src/de/mod.rs
@@ -9,31 +9,45 @@ use rdf_types::{
 
 use crate::{pattern::Substitution, Pattern, RdfContext};
 
+/// Returns the resource designated by the given pattern.
+///
+/// A variable left unbound by the pattern matching may designate any resource,
+/// which is reported as an ambiguity.
+pub fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(Error::DataAmbiguity)
+}
+
 pub fn select_inputs<R: Clone, const N: usize>(
 	inputs: &[Pattern<R>; N],
 	substitution: &Substitution<R>,
-) -> [R; N] {
-	inputs
+) -> Result<[R; N], Error> {
+	Ok(inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect::<Vec<_>>()
+		.map(|p| select_resource(p, substitution))
+		.collect::<Result<Vec<_>, _>>()?
 		.try_into()
 		.ok()
-		.unwrap()
+		.unwrap())
 }
 
 pub fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error> {
+	match graph_pattern {
+		Some(g) => g
+			.as_ref()
+			.map(|p| select_resource(p, substitution))
+			.transpose(),
+		None => Ok(current_graph.cloned()),
+	}
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From 118508008b72c39a010f10c4784a6ef4fd469de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 50/68] fix: refuse cyclic lists when deserializing derived
 types

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 05876ae..1265c8b 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -464,8 +464,14 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut head = ::treeldr::de::select_resource(&#head.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 					let tail = ::treeldr::de::select_resource(&#tail.ok_or(::treeldr::DeserializeError::MissingData)?, &substitution)?;
 					let mut items = Vec::new();
+					let mut visited = ::std::collections::BTreeSet::new();
 
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// Cyclic list, the tail will never be reached.
+							return Err(::treeldr::DeserializeError::MissingData)
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0


From 506d248545bf8813f621a2b6879e8aeae1a947fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 51/68] fix: do not match a graph variable of a derived type
 with the default graph

---
 generators/rust/treeldr-rs/src/pattern.rs | 51 +++++++++--------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..c155a9c 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -108,37 +108,26 @@ impl<R> Substitution<R> {
 	{
 		let mut result = self.clone();
 
-		if let Pattern::Var(x) = pattern.0 {
-			if let Some(old_value) = result.set(x, Some(value.0.clone())) {
-				if old_value != *value.0 {
-					return None;
-				}
-			}
-		}
-
-		if let Pattern::Var(x) = pattern.1 {
-			if let Some(old_value) = result.set(x, Some(value.1.clone())) {
-				if old_value != *value.1 {
-					return None;
-				}
-			}
-		}
-
-		if let Pattern::Var(x) = pattern.2 {
-			if let Some(old_value) = result.set(x, Some(value.2.clone())) {
-				if old_value != *value.2 {
-					return None;
-				}
-			}
-		}
-
-		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
-			if let Some(old_value) = result.set(x, Some(g.clone())) {
-				if old_value != *g {
-					return None;
-				}
-			}
+		let mut bind = |pattern: Pattern<&R>, value: &R| match pattern {
+			Pattern::Var(x) => match result.set(x, Some(value.clone())) {
+				Some(old_value) => old_value == *value,
+				None => true,
+			},
+			Pattern::Resource(r) => r == value,
+		};
+
+		let graph_matches = match (pattern.3, value.3) {
+			(Some(pattern), Some(value)) => bind(pattern, value),
+			(None, None) => true,
+			_ => false,
+		};
+
+		if !graph_matches
+			|| !bind(pattern.0, value.0)
+			|| !bind(pattern.1, value.1)
+			|| !bind(pattern.2, value.2)
+		{
+			return None;
 		}
 
 		Some(result)
-- 
2.43.0


From aa77f63a0206ff8cde1ada7b66a3d2d5239b4402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 52/68] fix: derived values with constant inputs or a constant
 graph can be serialized

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9c8bba1..f8f004c 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -200,11 +200,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -214,11 +216,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -262,11 +266,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let value_inputs = env.instantiate_patterns(&#variant_inputs);
+						let value_graph = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)
 					}
@@ -313,11 +319,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+						let value_graph = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 					}
@@ -383,11 +391,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#node_value_inputs);
+						let value_graph = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 
@@ -427,11 +437,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+							let value_graph = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&value_inputs,
+								value_graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From b83862393f7034c619bda6995fcf69e5cbb44051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:01 +0000
Subject: [PATCH 53/68] fix: implement the RDF (de)serialization of booleans
 and units

---
 generators/rust/treeldr-rs/src/datatypes.rs | 44 ++++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..e734b67 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -133,6 +133,45 @@ where
 	}
 }
 
+impl<V, I> SerializeLd<1, V, I> for ()
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[<I as rdf_types::Interpretation>::Resource; 1],
+		_current_graph: Option<&<I as rdf_types::Interpretation>::Resource>,
+		_output: &mut BTreeDataset<<I as rdf_types::Interpretation>::Resource>,
+	) -> Result<(), SerializeError> {
+		Ok(())
+	}
+}
+
+impl<V, I> DeserializeLd<1, V, I> for ()
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; 1],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Ok(())
+	}
+}
+
 macro_rules! xsd_datatypes {
 	($($ty:ident : $xsd_iri:ident),*) => {
 		$(
@@ -173,7 +212,7 @@ macro_rules! xsd_datatypes {
 				where
 					D: PatternMatchingDataset<Resource = I::Resource>,
 				{
-					use xsd_types::ParseXsd;
+					use crate::de::FromRdfLiteral;
 					let mut result = None;
 					let mut has_literal = false;
 					for l in rdf.interpretation.literals_of(&inputs[0]) {
@@ -182,7 +221,7 @@ macro_rules! xsd_datatypes {
 						if let LiteralTypeRef::Any(i) = literal.type_ {
 							let iri = rdf.vocabulary.iri(i).unwrap();
 							if iri == xsd_types::$xsd_iri {
-								match Self::parse_xsd(&literal.value) {
+								match Self::from_rdf_literal(literal.value) {
 									Ok(value) => {
 										if result.replace(value).is_some() {
 											return Err(DeserializeError::AmbiguousLiteralValue)
@@ -211,6 +250,7 @@ macro_rules! xsd_datatypes {
 }
 
 xsd_datatypes! {
+	bool: XSD_BOOLEAN,
 	u8: XSD_UNSIGNED_BYTE,
 	u16: XSD_UNSIGNED_SHORT,
 	u32: XSD_UNSIGNED_INT,
-- 
2.43.0


From a87add4148ca137a44ed46b75a6064b85440c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:10 +0000
Subject: [PATCH 54/68] fix: deserialize derived tuples of one item

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 1265c8b..932bea7 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -588,7 +588,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From 2c0a5fa3c2ff3ab0b4347f6d19dc9c0addf2053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 55/68] fix: generate literal layouts with their kind, datatype
 and resource

---
 generators/rust/generator/src/lib.rs | 106 ++++++++++++++++++++++++---
 1 file changed, 96 insertions(+), 10 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..dc2b755 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -34,6 +34,9 @@ pub enum Error<R = Term> {
 
 	#[error("no IRI representation")]
 	NoIriRepresentation,
+
+	#[error("unsupported number datatype {0}")]
+	UnsupportedNumberDatatype(R),
 }
 
 #[derive(Debug, thiserror::Error)]
@@ -269,6 +272,64 @@ where
 	Ok(quote!(graph(#expr)))
 }
 
+pub fn generate_resource_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &Pattern<I::Resource>,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let resource = pattern_to_id(rdf, resource)?.to_string();
+	Ok(quote!(resource(#resource)))
+}
+
+pub fn generate_datatype_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let i = rdf
+		.interpretation
+		.iris_of(datatype)
+		.next()
+		.ok_or(Error::NoIriRepresentation)?;
+	let iri = rdf.vocabulary.iri(i).unwrap().as_str();
+	Ok(quote!(datatype(#iri)))
+}
+
+/// Returns the Rust type of the numbers of the given datatype.
+fn number_type<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+	I::Resource: Clone,
+{
+	for i in rdf.interpretation.iris_of(datatype) {
+		let ty = match rdf.vocabulary.iri(i).unwrap().as_str() {
+			"http://www.w3.org/2001/XMLSchema#unsignedByte" => quote!(u8),
+			"http://www.w3.org/2001/XMLSchema#unsignedShort" => quote!(u16),
+			"http://www.w3.org/2001/XMLSchema#unsignedInt" => quote!(u32),
+			"http://www.w3.org/2001/XMLSchema#unsignedLong" => quote!(u64),
+			"http://www.w3.org/2001/XMLSchema#byte" => quote!(i8),
+			"http://www.w3.org/2001/XMLSchema#short" => quote!(i16),
+			"http://www.w3.org/2001/XMLSchema#int" => quote!(i32),
+			"http://www.w3.org/2001/XMLSchema#long" => quote!(i64),
+			_ => continue,
+		};
+
+		return Ok(ty);
+	}
+
+	Err(Error::UnsupportedNumberDatatype(datatype.clone()))
+}
+
 pub fn generate<V, I>(
 	rdf: RdfContext<V, I>,
 	layouts: &Layouts<I::Resource>,
@@ -304,44 +365,53 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(bool);
+						#[tldr(boolean, #input, #intro, #dataset, #resource, #datatype)]
+						pub struct #ident(pub bool);
 					})
 				}
 				DataLayout::Number(layout) => {
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
+					let ty = number_type(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(Number);
+						#[tldr(number, #input, #intro, #dataset, #resource, #datatype)]
+						pub struct #ident(pub #ty);
 					})
 				}
 				DataLayout::TextString(layout) => {
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(String);
+						#[tldr(string, #input, #intro, #dataset, #resource, #datatype)]
+						pub struct #ident(pub String);
 					})
 				}
 				DataLayout::ByteString(layout) => {
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(Vec<u8>);
+						#[tldr(bytes, #input, #intro, #dataset, #resource, #datatype)]
+						pub struct #ident(pub Vec<u8>);
 					})
 				}
 			},
@@ -350,10 +420,26 @@ where
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
 
+				let resource = generate_resource_attribute(rdf, &layout.resource)?;
+
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
-					pub struct #ident(Id);
+					#[tldr(id, #input, #intro, #dataset, #resource)]
+					pub struct #ident(pub ::treeldr::rdf_types::Id);
+
+					impl ::treeldr::AsId for #ident {
+						fn as_id(
+							&self
+						) -> ::treeldr::rdf_types::Id<&::treeldr::iref::Iri, &::treeldr::rdf_types::BlankId> {
+							::treeldr::AsId::as_id(&self.0)
+						}
+					}
+
+					impl ::core::convert::From<::treeldr::rdf_types::Id> for #ident {
+						fn from(value: ::treeldr::rdf_types::Id) -> Self {
+							Self(value)
+						}
+					}
 				})
 			}
 		},
-- 
2.43.0


From 837569b2389e7845ef26ccd548272d12bae7e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 56/68] fix: generate an optional Rust field for each optional
 field

---
 generators/rust/generator/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index dc2b755..d971b0a 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -460,10 +460,15 @@ where
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
-- 
2.43.0


From e890805f8ac8b93f8935bfd69375f85d5f0102f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 57/68] fix: generate unordered lists as vectors, as the derive
 macros expect

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index d971b0a..f5a5668 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -533,7 +533,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From fa9a3845eee5fa055439117a8ad68f8eaead1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 58/68] fix: make the fields of generated types public

---
 generators/rust/generator/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index f5a5668..d8a4038 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -468,7 +468,7 @@ where
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #ty
+							pub #f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
@@ -533,7 +533,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						Vec<#item_layout>
+						pub Vec<#item_layout>
 					);
 				})
 			}
@@ -558,7 +558,7 @@ where
 					#[tldr(list, #intro, head(#head), tail(#tail), #dataset, #input)]
 					pub struct #ident(
 						#[tldr(head(#node_head), rest(#node_rest), #node_intro, #node_dataset, #node_input, #node_graph)]
-						Vec<#node_layout>
+						pub Vec<#node_layout>
 					);
 				})
 			}
@@ -580,7 +580,7 @@ where
 
 						Ok(quote! {
 							#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-							#item_layout
+							pub #item_layout
 						})
 					})
 					.collect::<Result<Vec<_>, _>>()?;
-- 
2.43.0


From c1a8e7f90c3d957145afd4be1472961c2e51b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 59/68] fix: build several documents with anonymous layouts in
 the same builder

---
 layouts/src/abs/syntax/layout/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index c040e60..20f0343 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -113,7 +113,9 @@ impl Layout {
 	}
 
 	pub fn build(&self, builder: &mut Builder) -> Result<Ref<LayoutType>, BuildError> {
-		let mut context = builder.with_generator_mut(generator::Blank::new());
+		// Do not reuse the identifiers given to the previous anonymous layouts.
+		let generator = generator::Blank::new_with_offset(builder.layouts.len());
+		let mut context = builder.with_generator_mut(generator);
 		self.build_with_context(&mut context)
 	}
 
-- 
2.43.0


From fe0eca1f51d7b07270cd33d4d6fe4efc6bc783c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 60/68] fix: fail when a layout file given to tldr-rs cannot be
 parsed

---
 generators/rust/generator/src/bin/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/bin/main.rs b/generators/rust/generator/src/bin/main.rs
index ab4ef87..fd3d9ee 100644
--- a/generators/rust/generator/src/bin/main.rs
+++ b/generators/rust/generator/src/bin/main.rs
@@ -61,7 +61,8 @@ fn main() -> ExitCode {
 				}
 			},
 			Err(e) => {
-				log::error!("parse error: {e}")
+				log::error!("parse error: {e}");
+				return ExitCode::FAILURE;
 			}
 		}
 	}
-- 
2.43.0


From dab3b5970fe30472171daf7eeb17d479ede4a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 61/68] fix: refuse resources with an invalid literal of the
 datatype of a derived type

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 932bea7..8fe7074 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -757,9 +757,14 @@ fn generate_data(
 			};
 
 			if ty_iri == expected_ty_iri {
-				if let Ok(value) = ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
-					if result.replace(value).is_some() {
-						return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+				match ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
+					Ok(value) => {
+						if result.replace(value).is_some() {
+							return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+						}
+					}
+					Err(_) => {
+						return Err(::treeldr::DeserializeError::InvalidLiteralValue)
 					}
 				}
 			}
-- 
2.43.0


From a246a996e4cfc8202a3b034c143bcc95592837c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 62/68] fix: a derived string with several string literals is
 ambiguous

---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index e734b67..4a0a8b0 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From 5cd8c6256584e39074d4eff3fe83a60059148d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 63/68] fix: unknown attributes of derived types were ignored

---
 .../rust/treeldr-rs-macros/src/parse.rs       | 60 ++++++-------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index b225e2e..a936ccc 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -463,73 +463,57 @@ impl TypeAttributes {
 												ident.span(),
 											)?;
 											replace(&mut result.base, value, span)?;
-										}
-
-										if ident == "prefix" {
+										} else if ident == "prefix" {
 											let values = expect_binding_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?
 											.0;
 											result.prefixes.extend(values)
-										}
-
-										if ident == "id" {
+										} else if ident == "id" {
 											let (value, span) = expect_compact_iri_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.id, value, span)?;
-										}
-
-										if ident == "head" {
+										} else if ident == "head" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.head, value, span)?;
-										}
-
-										if ident == "tail" {
+										} else if ident == "tail" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.tail, value, span)?;
-										}
-
-										if ident == "resource" {
+										} else if ident == "resource" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.resource, value, span)?;
-										}
-
-										if ident == "datatype" {
+										} else if ident == "datatype" {
 											let (value, span) = expect_compact_iri_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.datatype, value, span)?;
-										}
-
-										if ident == "input" {
+										} else if ident == "input" {
 											let (value, span) = expect_string_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.input, value, span)?;
-										}
-
-										if ident == "intro" {
+										} else if ident == "intro" {
 											let (value, span) = expect_string_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.intro, value, span)?;
-										}
-
-										if ident == "dataset" {
+										} else if ident == "dataset" {
 											let (value, span) = expect_quad_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.dataset, value, span)?;
+										} else {
+											return Err(Error::UnexpectedToken(TokenTree::Ident(ident)));
 										}
 									}
 								},
@@ -587,41 +571,33 @@ impl ComponentAttributes {
 										let (value, span) =
 											expect_string_argument(&mut tokens, ident.span())?;
 										replace(&mut result.head, value, span)?;
-									}
-
-									if ident == "rest" {
+									} else if ident == "rest" {
 										let (value, span) =
 											expect_string_argument(&mut tokens, ident.span())?;
 										replace(&mut result.rest, value, span)?;
-									}
-
-									if ident == "intro" {
+									} else if ident == "intro" {
 										let (value, span) =
 											expect_string_list_argument(&mut tokens, ident.span())?;
 										replace(&mut result.intro, value, span)?;
-									}
-
-									if ident == "dataset" {
+									} else if ident == "dataset" {
 										let (value, span) =
 											expect_quad_list_argument(&mut tokens, ident.span())?;
 										replace(&mut result.dataset, value, span)?;
-									}
-
-									if ident == "input" {
+									} else if ident == "input" {
 										let (value, span) = expect_pattern_list_argument(
 											&mut tokens,
 											ident.span(),
 										)?;
 										replace(&mut result.input, value, span)?;
-									}
-
-									if ident == "graph" {
+									} else if ident == "graph" {
 										let (value, span) = expect_argument(
 											&mut tokens,
 											ident.span(),
 											parse_graph_value,
 										)?;
 										replace(&mut result.graph, value, span)?;
+									} else {
+										return Err(Error::UnexpectedToken(TokenTree::Ident(ident)));
 									}
 								}
 								other => return Err(Error::UnexpectedToken(other)),
-- 
2.43.0


From 782c680177643ab06e31e7589820993a040e75a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 64/68] fix: variables whose name is not alphanumeric panicked
 in derived types

---
 generators/rust/treeldr-rs-macros/src/parse.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index a936ccc..f0be1dd 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -2,7 +2,7 @@ use std::collections::{BTreeMap, HashMap};
 
 use iref::{Iri, IriBuf, IriRefBuf};
 use proc_macro2::{Span, TokenStream, TokenTree};
-use rdf_types::BlankIdBuf;
+use rdf_types::{BlankIdBuf, Term};
 use syn::spanned::Spanned;
 use treeldr_layouts::{
 	abs::syntax::{
@@ -10,7 +10,7 @@ use treeldr_layouts::{
 		IdLayout, Layout, LayoutHeader, ListItem, ListLayout, ListNode, ListNodeOrLayout,
 		LiteralLayout, NumberLayout, OrderedListLayout, Pattern, ProductLayout, Quad,
 		SizedListLayout, SumLayout, TextStringLayout, UnitLayout, UnorderedListLayout, ValueFormat,
-		ValueFormatOrLayout, VariableNameBuf, Variant, VariantFormat, VariantFormatOrLayout,
+		ValueFormatOrLayout, Variant, VariantFormat, VariantFormatOrLayout,
 	},
 	Value,
 };
@@ -918,9 +918,7 @@ fn expect_quad_list_argument(
 
 fn parse_pattern(value: String, span: Span) -> Result<Pattern, Error> {
 	match BlankIdBuf::new(value) {
-		Ok(blank_id) => Ok(Pattern::Var(
-			VariableNameBuf::new(blank_id.suffix().to_owned()).unwrap(),
-		)),
+		Ok(blank_id) => Ok(Pattern::from_term(Term::blank(blank_id))),
 		Err(e) => match IriRefBuf::new(e.0) {
 			Ok(iri_ref) => Ok(Pattern::Iri(CompactIri(iri_ref))),
 			Err(e) => Err(Error::InvalidPattern(e.0, span)),
-- 
2.43.0


From 5893a7f0f3508408a026238cc77800937a4becde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 65/68] fix: tokens after the graph of a quad or component were
 ignored in derived types

---
 .../rust/treeldr-rs-macros/src/parse.rs       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index f0be1dd..eefe5c7 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -802,6 +802,8 @@ fn quad_token(token: TokenTree) -> Result<(Quad, Span), Error> {
 										match tokens.next() {
 											Some(t) => {
 												let g = pattern_token(t)?.0;
+												parse_opt_comma(&mut tokens)?;
+												expect_end(&mut tokens)?;
 												Some(g)
 											}
 											None => None,
@@ -837,6 +839,13 @@ fn parse_opt_comma(tokens: &mut impl Iterator<Item = TokenTree>) -> Result<bool,
 	}
 }
 
+fn expect_end(tokens: &mut impl Iterator<Item = TokenTree>) -> Result<(), Error> {
+	match tokens.next() {
+		Some(t) => Err(Error::UnexpectedToken(t)),
+		None => Ok(()),
+	}
+}
+
 fn parse_comma(tokens: &mut impl Iterator<Item = TokenTree>, span: Span) -> Result<(), Error> {
 	if parse_opt_comma(tokens)? {
 		Ok(())
@@ -949,14 +958,14 @@ fn parse_graph_value(tokens: TokenStream, span: Span) -> Result<(GraphValue, Spa
 				match tokens.next() {
 					Some(TokenTree::Group(g)) => {
 						let span = g.span();
-						let mut tokens = g.stream().into_iter();
-						match tokens.next() {
-							Some(t) => {
-								let (pattern, span) = pattern_token(t)?;
-								Ok((GraphValue::Some(pattern), span))
-							}
-							None => Err(Error::MissingToken(span)),
-						}
+						let mut inner_tokens = g.stream().into_iter();
+						let (pattern, span) = match inner_tokens.next() {
+							Some(t) => pattern_token(t)?,
+							None => return Err(Error::MissingToken(span)),
+						};
+						expect_end(&mut inner_tokens)?;
+						expect_end(&mut tokens)?;
+						Ok((GraphValue::Some(pattern), span))
 					}
 					Some(other) => Err(Error::UnexpectedToken(other)),
 					None => Err(Error::MissingToken(id.span())),
-- 
2.43.0


From 7f1c62dd949fc5533e13edaf52d6bf50e84ecd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 66/68] fix: `tldr` panicked on unreadable layout files

---
 generators/rust/treeldr-rs-macros/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/lib.rs b/generators/rust/treeldr-rs-macros/src/lib.rs
index cc1ec15..4e8f3ca 100644
--- a/generators/rust/treeldr-rs-macros/src/lib.rs
+++ b/generators/rust/treeldr-rs-macros/src/lib.rs
@@ -24,6 +24,9 @@ mod parse;
 
 #[derive(Debug, thiserror::Error)]
 enum Error {
+	#[error("unable to read `{0}`: {1}")]
+	Io(String, std::io::Error),
+
 	#[error("parse error: {0}")]
 	Json(serde_json::Error),
 
@@ -39,7 +42,7 @@ impl Attribute {
 
 		for lit in self.0.into_iter() {
 			let filename = lit.value();
-			let content = fs::read_to_string(filename).unwrap();
+			let content = fs::read_to_string(&filename).map_err(|e| Error::Io(filename, e))?;
 
 			match serde_json::from_str::<abs::syntax::Layout>(&content) {
 				Ok(abstract_layout) => {
-- 
2.43.0


From 690ca45698b577c3d99aeb9dbdc63b797c0b1bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 67/68] fix: derived types with a `rust` prefix panicked

---
 .../rust/treeldr-rs-macros/src/parse.rs       | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index eefe5c7..6b56031 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -15,18 +15,33 @@ use treeldr_layouts::{
 	Value,
 };
 
-#[derive(Default)]
-pub struct TypeMap(HashMap<IriBuf, syn::Type>);
+pub struct TypeMap {
+	scheme: String,
+	types: HashMap<IriBuf, syn::Type>,
+}
 
 impl TypeMap {
+	/// Creates a map naming types with IRIs that don't use the given prefixes.
+	fn new(prefixes: &BTreeMap<String, CompactIri>) -> Self {
+		let mut scheme = "rust".to_owned();
+		while prefixes.contains_key(&scheme) {
+			scheme.push('-')
+		}
+
+		Self {
+			scheme,
+			types: HashMap::new(),
+		}
+	}
+
 	pub fn get(&self, iri: &Iri) -> Option<&syn::Type> {
-		self.0.get(iri)
+		self.types.get(iri)
 	}
 
 	pub fn insert(&mut self, ty: syn::Type) -> IriBuf {
-		let i = self.0.len();
-		let iri = IriBuf::new(format!("rust:/#Type{i}")).unwrap();
-		self.0.insert(iri.clone(), ty);
+		let i = self.types.len();
+		let iri = IriBuf::new(format!("{}:/#Type{i}", self.scheme)).unwrap();
+		self.types.insert(iri.clone(), ty);
 		iri
 	}
 }
@@ -109,7 +124,7 @@ pub fn parse(input: syn::DeriveInput) -> Result<ParsedInput, Error> {
 		.kind
 		.map(Ok)
 		.unwrap_or_else(|| Kind::from_data(&input.data, input.ident.span()))?;
-	let mut type_map = TypeMap::default();
+	let mut type_map = TypeMap::new(&type_attrs.prefixes);
 	let layout = match kind {
 		Kind::Id => {
 			Layout::Literal(LiteralLayout::Id(IdLayout {
-- 
2.43.0


From f9d734783958a4923745bb7901b3787137d70619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 68/68] fix: derived types with raw identifiers panicked

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs  | 10 +++++-----
 generators/rust/treeldr-rs-macros/src/generate/ser.rs |  6 +++---
 generators/rust/treeldr-rs-macros/src/parse.rs        |  8 ++++++++
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 8fe7074..8cb0603 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -7,7 +7,7 @@ use treeldr_layouts::{
 	Dataset, Layout, Literal, Pattern, Value,
 };
 
-use crate::parse::parse;
+use crate::parse::{ident_from_name, parse};
 
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
@@ -171,7 +171,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				.collect::<Result<_, _>>()?;
 
 			let opt_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = ident_from_name(name);
 				let ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -180,7 +180,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let deserialize_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let field_ident = syn::Ident::new(name, Span::call_site());
+				let field_ident = ident_from_name(name);
 				let field_ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -231,7 +231,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let unwrap_fields = layout_fields.iter().copied().map(|(name, f)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = ident_from_name(name);
 				if f.required {
 					quote!(#ident: data.#ident.ok_or_else(|| ::treeldr::DeserializeError::MissingField(#name.to_owned()))?)
 				} else {
@@ -275,7 +275,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = ident_from_name(&variant.name);
 				let variant_ty = input
 					.type_map
 					.get(variant.value.layout.id().as_iri().unwrap())
diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f8f004c..f85a93d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -7,7 +7,7 @@ use treeldr_layouts::{
 	Dataset, Layout, Pattern, Value,
 };
 
-use crate::parse::parse;
+use crate::parse::{ident_from_name, parse};
 
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
@@ -176,7 +176,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let name = key
 						.as_str()
 						.ok_or_else(|| Error::InvalidFieldIdent(key.clone()))?;
-					let field_ident = syn::Ident::new(name, Span::call_site());
+					let field_ident = ident_from_name(name);
 					let field_intro = field.intro;
 					let field_dataset = dataset_to_array(&field.dataset);
 					let field_layout = input
@@ -243,7 +243,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = ident_from_name(&variant.name);
 				let variant_intro = variant.intro;
 				let variant_dataset = dataset_to_array(&variant.dataset);
 				let variant_layout = input
diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index 6b56031..9291a9d 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -725,6 +725,14 @@ fn extract_vec_item(ty: syn::Type) -> Result<syn::Type, Error> {
 	}
 }
 
+/// Returns the (maybe raw) identifier of the given field or variant name.
+pub fn ident_from_name(name: &str) -> syn::Ident {
+	match name.strip_prefix("r#") {
+		Some(name) => syn::Ident::new_raw(name, Span::call_site()),
+		None => syn::Ident::new(name, Span::call_site()),
+	}
+}
+
 #[derive(Default, PartialEq, Eq)]
 pub enum GraphValue {
 	#[default]
-- 
2.43.0

