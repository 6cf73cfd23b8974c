From 88c3bc44f74def394cc6eab5860dda9929fc69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 01/65] fix: bind the variables introduced by a sum variant
 when hydrating

The pattern of a variant was matched with the substitution of the sum layout
itself, in which the variables introduced by the variant are not declared.
---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 4d8513af6ee266e692f2d825de16224f6ba75120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 02/65] fix: report an error when none or several of the
 variants of a sum match

Hydrating a sum layout panicked (todo!) when no variant matches the data, and
when several of them do.
---
 layouts/src/distill/hy/mod.rs | 54 ++++++++++++++---------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..14ba22c 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -254,7 +254,6 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-			let mut failures = Vec::new();
 			let mut selected = None;
 
 			for (i, variant) in layout.variants.iter().enumerate() {
@@ -272,40 +271,29 @@ where
 					variant_name: variant.name.clone(),
 				})?;
 
-				match variant_substitution {
-					Some(variant_substitution) => {
-						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
+				if let Some(variant_substitution) = variant_substitution {
+					let variant_inputs = select_inputs(&variant.value.input, &variant_substitution);
 
-						let variant_graph = select_graph(
-							current_graph,
-							&variant.value.graph,
-							&variant_substitution,
-						);
+					let variant_graph =
+						select_graph(current_graph, &variant.value.graph, &variant_substitution);
 
-						let value = hydrate_with_ref(
-							vocabulary,
-							interpretation,
-							context,
-							dataset,
-							variant_graph.as_ref(),
-							&variant.value.layout,
-							&variant_inputs,
-						);
+					let value = hydrate_with_ref(
+						vocabulary,
+						interpretation,
+						context,
+						dataset,
+						variant_graph.as_ref(),
+						&variant.value.layout,
+						&variant_inputs,
+					);
 
-						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
-									}
-									None => selected = Some((i, value)),
-								}
-							}
-							Err(e) => failures.push(Some(e)),
+					if let Ok(value) = value {
+						if selected.replace((i, value)).is_some() {
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
-					None => failures.push(None),
 				}
 			}
 
@@ -315,9 +303,9 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+					layout_ref.clone(),
+				)))),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 7c533d4c1e562166b1f12c29679cbc64b38d21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:07 +0000
Subject: [PATCH 03/65] fix: report an error when the resource of an id layout
 has no (unique) IRI

Hydrating an id layout panicked (todo!) on blank nodes and literals.
---
 layouts/src/distill/hy/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 14ba22c..73b6f5b 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::NoMatchingLiteral),
 					}
 				}
 			}
-- 
2.43.0


From e2285b077ce7dc0cc8b5a12aa6b6e192ac50554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:49 +0000
Subject: [PATCH 04/65] fix: report an error when a resource has no suitable
 literal

Hydrating a literal layout panicked (todo!) on language strings, on literals
whose lexical form is not one of their datatype, and on datatypes that are not
those of booleans. Byte strings were not supported at all.
---
 layouts/src/distill/hy/data.rs | 55 ++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..694bfa9 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -241,16 +241,25 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 				let decimal = value.value();
 				Ok(decimal.into_big_rational().into())
 			}
-			Err(_) => {
-				todo!()
-			}
+			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
 }
 
-fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+fn hydrate_byte_string_value<R>(value: &str, type_: &Iri) -> Result<Vec<u8>, Error<R>> {
+	use xsd_types::{Base64BinaryBuf, HexBinaryBuf};
+	if type_ == xsd_types::XSD_HEX_BINARY {
+		HexBinaryBuf::decode(value)
+			.map(HexBinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else if type_ == xsd_types::XSD_BASE64_BINARY {
+		Base64BinaryBuf::decode(value)
+			.map(Base64BinaryBuf::into_bytes)
+			.map_err(|_| Error::NoMatchingLiteral)
+	} else {
+		Err(Error::NoMatchingLiteral) // unknown byte string type.
+	}
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
-- 
2.43.0


From a985710b71fea58cc7c84d9c769ace78ef0a87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:06 +0000
Subject: [PATCH 05/65] fix: report an error for values that their datatype
 cannot represent

Dehydrating a literal panicked (todo!) when the datatype of the layout is
unknown, and when a number has no decimal representation. Byte strings were not
supported at all.
---
 layouts/src/distill/de/data.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..8852205 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown boolean type.
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,20 +54,36 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // unknown number type, or not in its value space.
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
-	_rdf: &RdfContextMut<V, I>,
-	_value: &[u8],
-	_type_: &I::Resource,
+	rdf: &RdfContextMut<V, I>,
+	value: &[u8],
+	type_: &I::Resource,
 ) -> Result<RdfLiteral<V>, Error<Q>>
 where
 	V: LiteralVocabulary,
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	for i in rdf.interpretation.iris_of(type_) {
+		let iri = rdf.vocabulary.iri(i).unwrap();
+		let lexical_value = if iri == xsd_types::XSD_HEX_BINARY {
+			xsd_types::HexBinary::new(value).to_string()
+		} else if iri == xsd_types::XSD_BASE64_BINARY {
+			xsd_types::Base64Binary::new(value).to_string()
+		} else {
+			continue;
+		};
+
+		return Ok(rdf_types::Literal::new(
+			lexical_value,
+			LiteralType::Any(i.clone()),
+		));
+	}
+
+	Err(Error::IncompatibleLayout) // unknown byte string type.
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
@@ -85,6 +101,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout), // unknown text string type.
 	}
 }
-- 
2.43.0


From ff12c1a44211aad3cc6fd9a2a0dbaebfba523445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 06/65] fix: dehydrate in the current graph

The quads described by a layout without naming a graph belong to the current
graph, as they do when hydrating. Dehydrating put them in the default graph, so
that no value dehydrated in a named graph could be hydrated back.
---
 layouts/src/distill/de/mod.rs | 48 ++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..f9e9f85 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -937,9 +941,13 @@ impl<R: Clone> Environment<'_, R> {
 		Ok(result)
 	}
 
+	/// Instantiates the given `quad` pattern.
+	///
+	/// A pattern without graph is instantiated in the `default_graph`.
 	pub fn instantiate_quad<Q>(
 		&self,
 		quad: Quad<&Pattern<Q>, &Pattern<Q>, &Pattern<Q>, &Pattern<Q>>,
+		default_graph: Option<&R>,
 	) -> Result<Quad<R, R, R, R>, Error<Q>>
 	where
 		Q: Clone + Into<R>,
@@ -948,13 +956,17 @@ impl<R: Clone> Environment<'_, R> {
 			self.instantiate_pattern(quad.0)?,
 			self.instantiate_pattern(quad.1)?,
 			self.instantiate_pattern(quad.2)?,
-			quad.3.map(|g| self.instantiate_pattern(g)).transpose()?,
+			match quad.3 {
+				Some(g) => Some(self.instantiate_pattern(g)?),
+				None => default_graph.cloned(),
+			},
 		))
 	}
 
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		default_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +974,7 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			output.insert(self.instantiate_quad(quad, default_graph)?);
 		}
 
 		Ok(())
-- 
2.43.0


From bea009417854ccc6a91cd192bd305ec6ae32fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:44 +0000
Subject: [PATCH 07/65] fix: discard what the variants of a sum that do not
 match the value produced

When dehydrating a sum layout, the quads and terms produced by a variant before
it turns out not to match the value were kept in the output.
---
 layouts/src/distill/de/mod.rs | 82 +++++++++++++++++++++++++++--------
 1 file changed, 65 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index f9e9f85..0f62370 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut assignments = Vec::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -535,9 +537,42 @@ where
 		layout_ref,
 		inputs,
 		output,
-	)
+		&mut assignments,
+	)?;
+
+	for assignment in assignments {
+		match assignment {
+			Assignment::Iri(resource, iri) => {
+				rdf.interpretation.assign_iri(&resource, iri);
+			}
+			Assignment::Literal(resource, literal) => {
+				rdf.interpretation.assign_literal(&resource, literal);
+			}
+		}
+	}
+
+	Ok(())
+}
+
+/// Term to assign to a resource.
+///
+/// Assignments are delayed until the end of the deserialization so that the
+/// variants of a sum layout that turn out not to match the value have no
+/// effect.
+enum Assignment<R, I, L> {
+	Iri(R, I),
+	Literal(R, L),
 }
 
+type Assignments<I> = Vec<
+	Assignment<
+		<I as Interpretation>::Resource,
+		<I as ReverseIriInterpretation>::Iri,
+		<I as ReverseLiteralInterpretation>::Literal,
+	>,
+>;
+
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -546,6 +581,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
 	output: &mut D,
+	assignments: &mut Assignments<I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -589,10 +625,10 @@ where
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -603,10 +639,10 @@ where
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -620,10 +656,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -637,10 +673,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
+						assignments.push(Assignment::Literal(
+							resource,
 							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						));
 
 						Ok(())
 					}
@@ -655,7 +691,7 @@ where
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								assignments.push(Assignment::Iri(resource, i));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -673,6 +709,7 @@ where
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
+				let mut variant_assignments = Vec::new();
 
 				let env = env.intro(rdf, variant.intro);
 				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
@@ -684,16 +721,20 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
+					&mut variant_assignments,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection
+					.replace((variant_dataset, variant_assignments))
+					.is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
+				Some((variant_dataset, variant_assignments)) => {
+					assignments.extend(variant_assignments);
 					for quad in variant_dataset {
 						output.insert(quad);
 					}
@@ -721,6 +762,7 @@ where
 								&field.value,
 								&env,
 								output,
+								assignments,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -758,6 +800,7 @@ where
 							&layout.item.value,
 							&env,
 							output,
+							assignments,
 						)?;
 					}
 
@@ -789,6 +832,7 @@ where
 							&layout.node.value,
 							&env,
 							output,
+							assignments,
 						)?;
 
 						head = rest;
@@ -820,6 +864,7 @@ where
 									&item_layout.value,
 									&env,
 									output,
+									assignments,
 								)?;
 							}
 							(None, None) => break,
@@ -836,6 +881,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -844,6 +890,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
 	output: &mut D,
+	assignments: &mut Assignments<I>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -870,6 +917,7 @@ where
 		&format.layout,
 		&inputs,
 		output,
+		assignments,
 	)
 }
 
-- 
2.43.0


From db8f9a3e0130b43082e1cc862043574e9866d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:58 +0000
Subject: [PATCH 08/65] fix: identify the head of an empty list with its tail

Dehydrating an empty list left the head of the list without description, so
that it could not be hydrated back.
---
 layouts/src/distill/de/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 0f62370..52b2b7d 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -812,6 +812,17 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The head of an empty list is its tail.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+
+						if head != tail {
+							for i in rdf.interpretation.iris_of(&tail) {
+								assignments.push(Assignment::Iri(head.clone(), i.clone()));
+							}
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From 8eb33648cf88cbad0c3bf668b4d4b01c4f7eb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 09/65] fix: report an error when the data leaves a variable of
 the layout unbound

Hydrating panicked when the resource, the inputs, the graph, the head or the
tail of a layout is a variable that no quad of the layout binds.
---
 layouts/src/distill/hy/data.rs |  30 +++-------
 layouts/src/distill/hy/mod.rs  | 104 ++++++++++++++++++++++-----------
 2 files changed, 80 insertions(+), 54 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 694bfa9..08bcb7a 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::{lexical::Lexical, ParseXsd};
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{select_resource, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(layout_ref.as_casted(), &layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -103,11 +100,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(layout_ref.as_casted(), &layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -146,11 +140,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(layout_ref.as_casted(), &layout.resource, &substitution)?;
 
 			let mut value = None;
 
@@ -189,11 +180,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource =
+				select_resource(layout_ref.as_casted(), &layout.resource, &substitution)?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 73b6f5b..5581c60 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -213,11 +213,7 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = select_resource(layout_ref, &layout.resource, &substitution)?;
 
 					let mut selected = None;
 
@@ -272,10 +268,15 @@ where
 				})?;
 
 				if let Some(variant_substitution) = variant_substitution {
-					let variant_inputs = select_inputs(&variant.value.input, &variant_substitution);
+					let variant_inputs =
+						select_inputs(layout_ref, &variant.value.input, &variant_substitution)?;
 
-					let variant_graph =
-						select_graph(current_graph, &variant.value.graph, &variant_substitution);
+					let variant_graph = select_graph(
+						layout_ref,
+						current_graph,
+						&variant.value.graph,
+						&variant_substitution,
+					)?;
 
 					let value = hydrate_with_ref(
 						vocabulary,
@@ -339,10 +340,15 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let field_inputs =
+							select_inputs(layout_ref, &field.value.input, &field_substitution)?;
 
-						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+						let item_graph = select_graph(
+							layout_ref,
+							current_graph,
+							&field.value.graph,
+							&field_substitution,
+						)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -397,14 +403,18 @@ where
 					let mut items = Vec::new();
 
 					for item_substitution in matching {
-						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+						let item_inputs = select_inputs(
+							layout_ref,
+							&layout.item.value.input,
+							&item_substitution,
+						)?;
 
 						let item_graph = select_graph(
+							layout_ref,
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -435,8 +445,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = select_resource(layout_ref, &layout.head, &substitution)?;
+					let tail = select_resource(layout_ref, &layout.tail, &substitution)?;
 
 					let mut items = Vec::new();
 
@@ -461,14 +471,18 @@ where
 							tail: tail.clone(),
 						})?;
 
-						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+						let item_inputs = select_inputs(
+							layout_ref,
+							&layout.node.value.input,
+							&item_substitution,
+						)?;
 
 						let item_graph = select_graph(
+							layout_ref,
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -482,7 +496,8 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head =
+							select_resource(layout_ref, &Pattern::Var(rest), &item_substitution)?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -516,9 +531,14 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
-						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+						let item_inputs =
+							select_inputs(layout_ref, &item.value.input, &item_substitution)?;
+						let item_graph = select_graph(
+							layout_ref,
+							current_graph,
+							&item.value.graph,
+							&item_substitution,
+						)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -541,23 +561,41 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+fn select_inputs<R: Clone>(
+	layout_ref: &Ref<LayoutType, R>,
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+) -> Result<Vec<R>, Error<R>> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| select_resource(layout_ref, p, substitution))
 		.collect()
 }
 
 fn select_graph<R: Clone>(
+	layout_ref: &Ref<LayoutType, R>,
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error<R>> {
+	match graph_pattern {
+		Some(Some(p)) => select_resource(layout_ref, p, substitution).map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
+}
+
+/// Finds the resource denoted by the given pattern.
+///
+/// Returns an error if the pattern is a variable left unbound by the dataset
+/// of the layout.
+fn select_resource<R: Clone>(
+	layout_ref: &Ref<LayoutType, R>,
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, Error<R>> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or_else(|| Error::MissingData(Box::new(DataFragment::Discriminant(layout_ref.clone()))))
 }
-- 
2.43.0


From 895b17d13d4c1b7c0baf38c202d5cba273299aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 10/65] fix: a graph variable does not match the default graph

Matching a quad pattern whose graph is a variable panicked on the quads of the
default graph.
---
 layouts/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..c940cc7 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// The default graph is not a resource.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From bf2e5e62aa66475290ce86e095aa4d7b3d7d50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 11/65] fix: report an error when an ordered list is cyclic

Hydrating a cyclic list never terminated.
---
 layouts/src/distill/hy/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 5581c60..a7a04cd 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -450,7 +450,20 @@ where
 
 					let mut items = Vec::new();
 
+					let mut visited = BTreeSet::new();
+
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// The list is cyclic, its tail is never reached.
+							return Err(Error::MissingData(Box::new(
+								DataFragment::OrderedListNode {
+									layout: layout_ref.clone().cast(),
+									head,
+									tail,
+								},
+							)));
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From 6142f9ef6001b9eccc06917d7fbb83842cba15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 12/65] fix: report an error when hydrating cyclic data with a
 recursive layout

Hydrating overflowed the stack.
---
 layouts/src/distill/hy/mod.rs | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index a7a04cd..da9a406 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -153,9 +153,31 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 	)
 }
 
+/// Call to [`hydrate_with_ref`] in progress.
+struct Frame<'a, R> {
+	parent: Option<&'a Frame<'a, R>>,
+	current_graph: Option<&'a R>,
+	layout_ref: &'a Ref<LayoutType, R>,
+	inputs: &'a [R],
+}
+
+impl<R: PartialEq> Frame<'_, R> {
+	/// Checks if this very call is already in progress, in which case the data
+	/// is cyclic and no (finite) tree represents it.
+	fn is_cyclic(&self) -> bool {
+		std::iter::successors(self.parent, |frame| frame.parent).any(|frame| {
+			frame.layout_ref.id() == self.layout_ref.id()
+				&& frame.current_graph == self.current_graph
+				&& frame.inputs == self.inputs
+		})
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
@@ -164,6 +186,7 @@ fn hydrate_with_ref<V, I, D>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
+	parent: Option<&Frame<I::Resource>>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -185,6 +208,17 @@ where
 		});
 	}
 
+	let frame = Frame {
+		parent,
+		current_graph,
+		layout_ref,
+		inputs,
+	};
+
+	if frame.is_cyclic() {
+		return Err(Error::IncompatibleLayout);
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -286,6 +320,7 @@ where
 						variant_graph.as_ref(),
 						&variant.value.layout,
 						&variant_inputs,
+						Some(&frame),
 					);
 
 					if let Ok(value) = value {
@@ -358,6 +393,7 @@ where
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
+							Some(&frame),
 						)?;
 
 						record.insert(key.clone(), value);
@@ -424,6 +460,7 @@ where
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -505,6 +542,7 @@ where
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item);
@@ -561,6 +599,7 @@ where
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
+							Some(&frame),
 						)?;
 
 						items.push(item)
-- 
2.43.0


From 4ece7b79fd4d3547d1b0f4507f2bad239d855220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 13/65] fix: a graph variable does not match the default graph
 (derived types)

Matching a quad pattern whose graph is a variable panicked on the quads of the
default graph.
---
 generators/rust/treeldr-rs/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..72b4569 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// The default graph is not a resource.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 93566042322ddad10b7d9c26df546b56dbebec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 14/65] fix: read the language of literal patterns

With serde, the literal {"value": .., "language": ..} was read as an
xsd:string since the type has a default value, and is tried first.
---
 layouts/src/abs/syntax/pattern/literal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..9386ab8 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -59,8 +59,10 @@ impl From<rdf_types::Literal> for LiteralValue {
 )]
 #[serde(untagged)]
 pub enum LiteralType {
-	Iri(LiteralTypeIri),
+	// The language must come first: without `language` (and `type`) entry a
+	// literal is an `xsd:string`.
 	Language(LiteralTypeLanguage),
+	Iri(LiteralTypeIri),
 }
 
 impl Default for LiteralType {
-- 
2.43.0


From 74e5364c3db77ba50fa1c058802d8959032e99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 15/65] fix: the type of a literal pattern is optional

The JSON front end with source locations refused {"value": ..} (an
xsd:string), which is what literal patterns are serialized to.
---
 layouts/src/abs/syntax/pattern/literal.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 9386ab8..32122aa 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -29,11 +29,12 @@ impl LiteralValue {
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
-- 
2.43.0


From 25be3e92759c768540d1c5aa878c680c8a7d1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 16/65] fix: accept the layouts true and false wherever a
 layout is expected

The JSON front end with source locations only accepted them at the top level.
---
 layouts/src/abs/syntax/layout/mod.rs | 5 ++++-
 layouts/src/abs/syntax/layout/sum.rs | 5 ++++-
 layouts/src/abs/syntax/mod.rs        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..c2f2efb 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -309,9 +309,12 @@ impl TryFromJson for LayoutRef {
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
+			json_syntax::Value::Boolean(value) => {
+				Ok(Self::Layout(Box::new(Layout::Boolean(*value))))
+			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::String | Kind::Object | Kind::Boolean,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..f185699 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -174,9 +174,12 @@ impl TryFromJson for VariantFormatOrLayout {
 					VariantFormat::try_from_json_at(json, code_map, offset).map(Self::Format)
 				}
 			}
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::String | Kind::Object | Kind::Boolean,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..d5c9252 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -468,9 +468,12 @@ impl TryFromJson for ValueFormatOrLayout {
 					ValueFormat::try_from_json_object_at(value, code_map, offset).map(Self::Format)
 				}
 			}
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::String | Kind::Object | Kind::Boolean,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From 0a486a11baa7ac2c3efc5a9cfb9e8d2f5a14114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:52 +0000
Subject: [PATCH 17/65] fix: a null graph is the default graph

The graph of a value (or variant) format is either absent (the current graph),
null (the default graph) or a pattern, but null was read as if it was absent, so
that a format in the default graph did not survive serialization.
---
 layouts/src/abs/syntax/layout/sum.rs |  9 ++++++---
 layouts/src/abs/syntax/mod.rs        | 20 +++++++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index f185699..f4a8b83 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -212,7 +212,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_graph",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -242,8 +246,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index d5c9252..410f52a 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -506,10 +506,25 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "deserialize_graph",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
+/// Deserializes the graph of a value (or variant) format, where `null` stands
+/// for the default graph.
+pub(crate) fn deserialize_graph<'de, D>(
+	deserializer: D,
+) -> Result<Option<Option<Pattern>>, D::Error>
+where
+	D: serde::Deserializer<'de>,
+{
+	Option::deserialize(deserializer).map(Some)
+}
+
 impl TryFromJsonObject for ValueFormat {
 	type Error = Error;
 
@@ -523,8 +538,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
-- 
2.43.0


From ac9f3e5ee44fb937e545aad2068d54a949fc3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:10 +0000
Subject: [PATCH 18/65] fix: give anonymous layouts distinct names across
 builds

Layout::build uses a new generator each time, so that the second anonymous
layout added to a builder was refused as a redefinition of the first.
---
 layouts/src/abs/syntax/build.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..04fc9b3 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,13 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		// The builder may already contain layouts named by another generator.
+		loop {
+			let id = Term::Id(self.generator.next(&mut ()));
+			if !self.builder.layouts.contains_key(&id) {
+				break id;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From dae5747edb203f3ac7b33d43bad56fa4a1ddfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:12 +0000
Subject: [PATCH 19/65] fix: keep the definition of a layout when its
 redefinition is refused

---
 layouts/src/abs/syntax/layout/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index c2f2efb..5260060 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -255,10 +255,13 @@ where
 
 		let (layout_ref, old_layout) = context.insert_layout(id, layout);
 
-		if old_layout.is_some() {
-			Err(BuildError::LayoutRedefinition)
-		} else {
-			Ok(layout_ref)
+		match old_layout {
+			Some(old_layout) => {
+				// Keep the first definition.
+				context.insert_layout(layout_ref.into_id(), old_layout);
+				Err(BuildError::LayoutRedefinition)
+			}
+			None => Ok(layout_ref),
 		}
 	}
 }
-- 
2.43.0


From 9402ea4b341eb7ac44a7ab60883a96b0031bde7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:32 +0000
Subject: [PATCH 20/65] fix: read negative decimals and numbers with an
 exponent

-1.5 was read as -0.5 (the fraction was added to the integer part), and JSON
numbers with an exponent panicked.
---
 layouts/src/distill/hy/data.rs |  5 +---
 layouts/src/value/mod.rs       | 54 ++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 08bcb7a..97c3072 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -225,10 +225,7 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
 		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
+			Ok(value) => Number::from_decimal_str(value.as_str()).ok_or(Error::NoMatchingLiteral),
 			Err(_) => Err(Error::NoMatchingLiteral),
 		},
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..2ff6706 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::{BigInt, Sign};
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -84,6 +83,38 @@ impl Number {
 		self.0.to_f64().unwrap()
 	}
 
+	/// Parses a number from its decimal representation, with an optional sign,
+	/// fractional part and exponent.
+	pub fn from_decimal_str(s: &str) -> Option<Self> {
+		let (mantissa, exponent) = match s.split_once(['e', 'E']) {
+			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
+			None => (s, 0),
+		};
+
+		let (negative, unsigned) = match mantissa.strip_prefix('-') {
+			Some(unsigned) => (true, unsigned),
+			None => (false, mantissa.strip_prefix('+').unwrap_or(mantissa)),
+		};
+
+		let (integer, fraction) = unsigned.split_once('.').unwrap_or((unsigned, ""));
+		let digits = format!("{integer}{fraction}");
+		if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+			return None;
+		}
+
+		let numer: BigInt = digits.parse().ok()?;
+		let scale = exponent as i64 - fraction.len() as i64;
+		let ten_pow = TEN.pow(scale.unsigned_abs().try_into().ok()?);
+
+		let value = if scale < 0 {
+			BigRational::new(numer, ten_pow)
+		} else {
+			BigRational::from_integer(numer * ten_pow)
+		};
+
+		Some(Self(if negative { -value } else { value }))
+	}
+
 	/// Returns the decimal representation of this number, if there is one.
 	pub fn decimal_representation(&self) -> Option<String> {
 		use std::fmt::Write;
@@ -187,34 +218,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::from_decimal_str(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From 572e6e3a4c14d37e04ca5927ada69bccf7c43807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:33 +0000
Subject: [PATCH 21/65] fix: write negative numbers with a single sign

-1 was written --1, which is no valid literal (nor JSON number).
---
 layouts/src/abs/syntax/resource.rs | 6 ++----
 layouts/src/distill/de/data.rs     | 4 ++--
 layouts/src/value/mod.rs           | 2 +-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..3ab81b2 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -74,10 +74,8 @@ impl<C: Context> Build<C> for Resource {
 				let value: xsd_types::Decimal = n.into();
 				let type_ = value.decimal_type();
 
-				Ok(context.literal_resource(
-					value.lexical_representation(),
-					LexicalLiteralTypeRef::Any(type_.iri()),
-				))
+				Ok(context
+					.literal_resource(&n.to_string(), LexicalLiteralTypeRef::Any(type_.iri())))
 			}
 			Self::String(value) => {
 				Ok(context.literal_resource(value, LexicalLiteralTypeRef::Any(XSD_STRING)))
diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 8852205..61aaace 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 2ff6706..d57f5e9 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -142,7 +142,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(self.0.numer() / self.0.denom()).abs().to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From 61c36a55f1ab4695e5327735d61cae436a2dc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:34 +0000
Subject: [PATCH 22/65] fix: serialize the number zero

The big integer zero has no digits, so that serializing it panicked.
---
 layouts/src/value/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index d57f5e9..08ae90e 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -68,7 +68,7 @@ impl Number {
 				}
 				Sign::NoSign | Sign::Plus => {
 					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
+						NativeNumber::U64(n.iter_u64_digits().next().unwrap_or_default())
 					} else {
 						NativeNumber::F64(self.0.to_f64().unwrap())
 					}
-- 
2.43.0


From b2fd852d5df78f81351030f5f26431ee1c32e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 23/65] fix: convert zero and big integers to CBOR

Zero panicked, and big integers were not encoded as specified by RFC 8949.
---
 layouts/src/value/cbor/serde_cbor.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..bf5f580 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::Signed;
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -141,15 +141,20 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
+					let unsigned = i.iter_u64_digits().next().unwrap_or_default() as i128;
 
 					let signed = if i.is_positive() { unsigned } else { -unsigned };
 
 					serde_cbor::Value::Integer(signed)
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					// A negative bignum `i` is encoded as the unsigned `-1 - i`.
+					let (tag, (_, bytes)) = if i.is_positive() {
+						(2, i.to_bytes_be())
+					} else {
+						(3, (-1i32 - i).to_bytes_be())
+					};
+
+					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(bytes)))
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 5a48c8b385b5fbf44f3241d26fd9461cb80b8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:23 +0000
Subject: [PATCH 24/65] fix: convert unit layouts with a constant to CBOR

The constant was replaced by null.
---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index bf5f580..d18f555 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From 48a140eadbfe70a399761eb01a53b358aefaf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 25/65] fix: literal layouts require the inputs they declare

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..63da1aa 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(d) => d.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From 721c0b917a595ed36765e9b07746327d166580cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:26 +0000
Subject: [PATCH 26/65] fix: leave the absent resource of a literal layout out
 of its JSON form

---
 layouts/src/abs/syntax/layout/literal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..c788371 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -253,6 +253,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -346,6 +347,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -415,6 +417,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -487,6 +490,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -568,6 +572,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
-- 
2.43.0


From cc8a4a9b3f81a6ca22a0c4cffeb25f9f7217b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:26 +0000
Subject: [PATCH 27/65] fix: reject unknown entries of literal patterns

---
 layouts/src/abs/syntax/pattern/literal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 32122aa..60165f2 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -97,6 +97,7 @@ impl From<rdf_types::LiteralType> for LiteralType {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeIri {
 	#[serde(
 		rename = "type",
@@ -115,6 +116,7 @@ impl LiteralTypeIri {
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(deny_unknown_fields)]
 pub struct LiteralTypeLanguage {
 	pub language: LangTagBuf,
 }
-- 
2.43.0


From 317a24ae7a0d95c79258419558a3434c050d3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:10 +0000
Subject: [PATCH 28/65] fix: report union and intersection layouts as
 unsupported instead of panicking

---
 layouts/src/abs/syntax/build.rs               | 3 +++
 layouts/src/abs/syntax/layout/intersection.rs | 2 +-
 layouts/src/abs/syntax/layout/union.rs        | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 04fc9b3..0047dfe 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -36,6 +36,9 @@ pub enum BuildError {
 
 	#[error("no property object")]
 	NoPropertyObject,
+
+	#[error("`{0}` layouts are not supported")]
+	Unsupported(&'static str),
 }
 
 pub trait Context {
diff --git a/layouts/src/abs/syntax/layout/intersection.rs b/layouts/src/abs/syntax/layout/intersection.rs
index 3e26017..870be0c 100644
--- a/layouts/src/abs/syntax/layout/intersection.rs
+++ b/layouts/src/abs/syntax/layout/intersection.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for IntersectionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::Unsupported(IntersectionLayoutType::NAME))
 	}
 }
diff --git a/layouts/src/abs/syntax/layout/union.rs b/layouts/src/abs/syntax/layout/union.rs
index a1a5a2c..399c929 100644
--- a/layouts/src/abs/syntax/layout/union.rs
+++ b/layouts/src/abs/syntax/layout/union.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for UnionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::Unsupported(UnionLayoutType::NAME))
 	}
 }
-- 
2.43.0


From 3c79307656cbfdba7ba2e755043b32520a22af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:35 +0000
Subject: [PATCH 29/65] fix: keep the final states of minimized and mapped
 automata

---
 layouts/src/utils/automaton.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..176936e 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -505,6 +505,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			if let Some(member) = map.get(q) {
+				result.add_final_state(member.clone());
+			}
+		}
+
 		result
 	}
 
@@ -582,6 +588,14 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
-- 
2.43.0


From 9b8d6f7acdb25918771293e63ec18b5b50d77bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:35 +0000
Subject: [PATCH 30/65] fix: start the automaton of a sequence at its first
 item

---
 layouts/src/abs/regexp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..aa32233 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -268,16 +268,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
+				let mut end = a;
 
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(end, None, ea);
+					end = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(end, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From 93e86da1d99d0af5461ae68b38127aa6efaf539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 31/65] fix: bind postfix operators of regular expressions to
 the last item

---
 layouts/src/abs/regexp.rs | 65 +++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index aa32233..550ba98 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -158,16 +158,18 @@ impl RegExp {
 	}
 
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		// For each open group, its options. For each option, its items.
+		let mut stack = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
 		while let Some(c) = chars.next() {
+			let items = stack.last_mut().unwrap().last_mut().unwrap();
 			match c {
 				'(' => {
-					stack.push(vec![RegExp::empty()]);
+					stack.push(vec![Vec::new()]);
 				}
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
+					let sub_exp = Self::from_options(stack.pop().unwrap());
 					let options = stack
 						.last_mut()
 						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
@@ -175,48 +177,53 @@ impl RegExp {
 				}
 				'|' => {
 					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
+					options.push(Vec::new());
 				}
 				'[' => {
-					let options = stack.last_mut().unwrap();
 					let charset = parse_charset(&mut chars)?;
-					options.last_mut().unwrap().push(RegExp::Set(charset))
+					items.push(RegExp::Set(charset))
 				}
 				'\\' => {
-					let options = stack.last_mut().unwrap();
 					let c = parse_escaped_char(&mut chars)?;
 					let mut charset = RangeSet::new();
 					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
-				}
-				'?' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
-				}
-				'*' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
-				}
-				'+' => {
-					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
+					items.push(RegExp::Set(charset))
 				}
+				'?' => repeat_last(items, 0, 1),
+				'*' => repeat_last(items, 0, u32::MAX),
+				'+' => repeat_last(items, 1, u32::MAX),
 				c => {
-					let options = stack.last_mut().unwrap();
 					let mut charset = RangeSet::new();
 					charset.insert(c);
-					options.last_mut().unwrap().push(RegExp::Set(charset))
+					items.push(RegExp::Set(charset))
 				}
 			}
 		}
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(Self::from_options(stack.pop().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
 
+	/// Builds the union of the given options, each being a sequence of items.
+	fn from_options(options: Vec<Vec<Self>>) -> Self {
+		Self::Union(
+			options
+				.into_iter()
+				.map(|items| {
+					let mut e = Self::empty();
+					for item in items {
+						e.push(item)
+					}
+					e
+				})
+				.collect(),
+		)
+		.simplified()
+	}
+
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
@@ -354,6 +361,18 @@ pub enum ParseError {
 	IncompleteCharacterSet,
 }
 
+/// Repeats the last item of a sequence.
+fn repeat_last(items: &mut Vec<RegExp>, min: u32, max: u32) {
+	match items.last_mut() {
+		Some(item) => item.repeat(min, max),
+		None => {
+			let mut item = RegExp::empty();
+			item.repeat(min, max);
+			items.push(item)
+		}
+	}
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
-- 
2.43.0


From 50f4cc409c9577ed5b54fefe4f787324533e0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 32/65] fix: parse the dot of regular expressions as any
 character

---
 layouts/src/abs/regexp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 550ba98..a84495f 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -189,6 +189,7 @@ impl RegExp {
 					charset.insert(c);
 					items.push(RegExp::Set(charset))
 				}
+				'.' => items.push(RegExp::Any),
 				'?' => repeat_last(items, 0, 1),
 				'*' => repeat_last(items, 0, u32::MAX),
 				'+' => repeat_last(items, 1, u32::MAX),
@@ -583,6 +584,7 @@ fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 		']' => write!(f, "\\]"),
 		'{' => write!(f, "\\{{"),
 		'}' => write!(f, "\\}}"),
+		'.' => write!(f, "\\."),
 		'?' => write!(f, "\\?"),
 		'*' => write!(f, "\\*"),
 		'+' => write!(f, "\\+"),
-- 
2.43.0


From feb71f629402d6934877e1255bd2a1eb1285fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 33/65] fix: parenthesize repeated expressions when displaying
 regular expressions

---
 layouts/src/abs/regexp.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index a84495f..c5a8207 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -112,7 +112,11 @@ impl RegExp {
 	}
 
 	pub fn is_simple(&self) -> bool {
-		matches!(self, Self::Any | Self::Set(_) | Self::Sequence(_))
+		match self {
+			Self::Any | Self::Set(_) => true,
+			Self::Sequence(seq) => seq.len() != 1 || seq[0].is_simple(),
+			_ => false,
+		}
 	}
 
 	/// Checks if this regular expression matches only one value.
@@ -519,16 +523,16 @@ impl fmt::Display for RegExp {
 
 				Ok(())
 			}
-			Self::Repeat(e, 0, 1) => write!(f, "{}?", e.display_sub()),
-			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", e.display_sub()),
-			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", e.display_sub()),
-			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", e.display_sub(), min),
-			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", e.display_sub(), max),
+			Self::Repeat(e, 0, 1) => write!(f, "{}?", DisplayRepeated(e)),
+			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", DisplayRepeated(e)),
+			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", DisplayRepeated(e)),
+			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", DisplayRepeated(e), min),
+			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", DisplayRepeated(e), max),
 			Self::Repeat(e, min, max) => {
 				if min == max {
-					write!(f, "{}{{{}}}", e.display_sub(), min)
+					write!(f, "{}{{{}}}", DisplayRepeated(e), min)
 				} else {
-					write!(f, "{}{{{},{}}}", e.display_sub(), min, max)
+					write!(f, "{}{{{},{}}}", DisplayRepeated(e), min, max)
 				}
 			}
 			Self::Union(items) => {
@@ -561,6 +565,20 @@ impl fmt::Display for DisplaySub<'_> {
 	}
 }
 
+/// Display the inner regular expression as a repeated expression.
+///
+/// This will enclose it between parenthesis unless it is a single item.
+struct DisplayRepeated<'a>(&'a RegExp);
+
+impl fmt::Display for DisplayRepeated<'_> {
+	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		match self.0 {
+			RegExp::Any | RegExp::Set(_) => self.0.fmt(f),
+			e => write!(f, "({e})"),
+		}
+	}
+}
+
 fn fmt_range(range: btree_range_map::AnyRange<char>, f: &mut fmt::Formatter) -> fmt::Result {
 	if range.len() == 1 {
 		fmt_char(range.first().unwrap(), f)
-- 
2.43.0


From 24789ca5a6eb0c37319c2ea60f7dc3e513db916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 34/65] fix: repeat the items of repeated singleton regular
 expressions

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index c5a8207..ecb3608 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -139,7 +139,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, n, _) => {
+				for _ in 0..*n {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
-- 
2.43.0


From 66b0fd03876503e8b8ba866edc7aea350396e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 35/65] fix: build disjoint transitions when determinizing
 automata

---
 layouts/src/utils/automaton.rs | 75 ++++++++++++++++++++--------------
 layouts/src/utils/mod.rs       | 17 ++++++--
 2 files changed, 59 insertions(+), 33 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 176936e..6bc1305 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -1,4 +1,4 @@
-use btree_range_map::{AnyRange, RangeMap, RangeSet};
+use btree_range_map::{AnyRange, RangeSet};
 use std::{
 	collections::{hash_map::Entry, BTreeMap, BTreeSet, HashMap, HashSet},
 	hash::Hash,
@@ -105,50 +105,49 @@ impl<Q: Ord> Automaton<Q> {
 		&self,
 		states: &BTreeSet<&Q>,
 	) -> BTreeMap<AnyRange<char>, BTreeSet<&Q>> {
-		let mut map = RangeMap::new();
+		// All the transitions, with the bounds of their labels.
+		let mut ranges = Vec::new();
+		let mut starts = BTreeSet::new();
+		let mut ends = BTreeSet::new();
 
 		for q in states {
 			if let Some(transitions) = self.transitions.get(q) {
 				for (label, targets) in transitions {
 					if let Some(label) = label {
-						for range in label.iter() {
-							debug_assert!(!range.is_empty());
-
-							map.update(
-								*range,
-								|current_target_states_opt: Option<&BTreeSet<&Q>>| {
-									let mut current_target_states = match current_target_states_opt
-									{
-										Some(current_target_states) => {
-											current_target_states.clone()
-										}
-										None => BTreeSet::new(),
-									};
-
-									for q in targets {
-										current_target_states
-											.extend(self.modulo_epsilon_state(Some(q)));
-									}
+						let targets = self.modulo_epsilon_state(targets);
 
-									Some(current_target_states)
-								},
-							);
-
-							assert!(map.get(range.first().unwrap()).is_some());
+						for range in label.iter() {
+							if let (Some(first), Some(last)) = (range.first(), range.last()) {
+								starts.insert(first);
+								starts.extend(next_char(last));
+								ends.insert(last);
+								ends.extend(previous_char(first));
+								ranges.push((first, last, targets.clone()));
+							}
 						}
 					}
 				}
 			}
 		}
 
-		let mut simplified_map = BTreeMap::new();
+		// Split the labels so that they do not overlap.
+		let mut map: BTreeMap<AnyRange<char>, BTreeSet<&Q>> = BTreeMap::new();
+
+		for first in starts {
+			let targets: BTreeSet<&Q> = ranges
+				.iter()
+				.filter(|(a, b, _)| *a <= first && first <= *b)
+				.flat_map(|(_, _, targets)| targets.iter().copied())
+				.collect();
 
-		for (range, set) in map {
-			debug_assert!(!range.is_empty());
-			simplified_map.insert(range, set);
+			if !targets.is_empty() {
+				if let Some(last) = ends.range(first..).next() {
+					map.insert((first..=*last).into(), targets);
+				}
+			}
 		}
 
-		simplified_map
+		map
 	}
 
 	pub fn determinize(&self) -> DetAutomaton<BTreeSet<&Q>>
@@ -853,3 +852,19 @@ where
 		}
 	}
 }
+
+/// Returns the character following `c`.
+fn next_char(c: char) -> Option<char> {
+	match c {
+		'\u{d7ff}' => Some('\u{e000}'),
+		_ => char::from_u32(c as u32 + 1),
+	}
+}
+
+/// Returns the character preceding `c`.
+fn previous_char(c: char) -> Option<char> {
+	match c {
+		'\u{e000}' => Some('\u{d7ff}'),
+		_ => (c as u32).checked_sub(1).and_then(char::from_u32),
+	}
+}
diff --git a/layouts/src/utils/mod.rs b/layouts/src/utils/mod.rs
index 5c735ad..d3e1e76 100644
--- a/layouts/src/utils/mod.rs
+++ b/layouts/src/utils/mod.rs
@@ -12,10 +12,21 @@ use crate::Pattern;
 
 /// Computes the intersection of two character sets.
 pub fn charset_intersection(a: &RangeSet<char>, b: &RangeSet<char>) -> RangeSet<char> {
-	let mut result = a.clone();
+	let mut result = RangeSet::new();
 
-	for r in b.gaps() {
-		result.remove(r.cloned());
+	for r in a {
+		for s in b {
+			if let (Some(r_first), Some(r_last), Some(s_first), Some(s_last)) =
+				(r.first(), r.last(), s.first(), s.last())
+			{
+				let first = r_first.max(s_first);
+				let last = r_last.min(s_last);
+
+				if first <= last {
+					result.insert(first..=last);
+				}
+			}
+		}
 	}
 
 	result
-- 
2.43.0


From 1848f9e5e6098a626adf7deab6ed10d1872c169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 36/65] fix: serialize the quads of derived types into the
 current graph

A quad pattern without graph stands for the graph the value is described in.
---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 15 +++++---
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..9afaa9d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..32f676e 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -69,6 +69,7 @@ where
 	pub fn instantiate_quad(
 		&self,
 		quad: Quad<&Pattern<R>, &Pattern<R>, &Pattern<R>, &Pattern<R>>,
+		current_graph: Option<&R>,
 	) -> Quad<R, R, R, R>
 where
 		// Q: Clone + Into<R>,
@@ -77,17 +78,23 @@ where
 			self.instantiate_pattern(quad.0),
 			self.instantiate_pattern(quad.1),
 			self.instantiate_pattern(quad.2),
-			quad.3.map(|g| self.instantiate_pattern(g)),
+			quad.3
+				.map(|g| self.instantiate_pattern(g))
+				.or_else(|| current_graph.cloned()),
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			output.insert(self.instantiate_quad(quad.as_ref(), current_graph));
 		}
 	}
 }
-- 
2.43.0


From 6c767f18438f336c6046aae371144bf239aec7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:33 +0000
Subject: [PATCH 37/65] fix: compile derived serializers with constant inputs
 and graphs

Patterns were passed by value, and `env` was borrowed while `rdf` was.
---
 .../treeldr-rs-macros/src/generate/ser.rs     | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9afaa9d..2726779 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -182,7 +182,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -194,11 +194,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -208,11 +210,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -245,7 +249,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -256,11 +260,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let value_inputs = env.instantiate_patterns(&#variant_inputs);
+						let value_graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)
 					}
@@ -292,7 +298,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -307,11 +313,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+						let value_graph: Option<I::Resource> = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 					}
@@ -338,7 +346,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Some(None) => quote!(None),
 					Some(Some(g)) => {
 						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
+						quote!(Some(env.instantiate_pattern(&#g)))
 					}
 					None => quote!(current_graph.cloned()),
 				};
@@ -362,11 +370,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#node_value_inputs);
+						let value_graph: Option<I::Resource> = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 
@@ -393,7 +403,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Some(None) => quote!(None),
 						Some(Some(g)) => {
 							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
+							quote!(Some(env.instantiate_pattern(&#g)))
 						}
 						None => quote!(current_graph.cloned()),
 					};
@@ -406,11 +416,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+							let value_graph: Option<I::Resource> = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&value_inputs,
+								value_graph.as_ref(),
 								output
 							)?;
 						}
-- 
2.43.0


From 837e0bfe602cf3c216c4aeef357e9df364816e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:35 +0000
Subject: [PATCH 38/65] fix: serialize literals and ids of derived types on the
 layout's resource

The pattern of the literal resource was looked up in the inputs, even when
it is an introduced variable, and ignored by id layouts.
---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 2726779..132ccac 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
+					let target = env.instantiate_pattern(&#target);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,7 +110,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +120,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +139,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,7 +148,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +158,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -465,46 +471,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From bd6c0e4dc96316c753d88ce85a32b10d6072482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:36 +0000
Subject: [PATCH 39/65] fix: compile derived string serializers

`AsRef::<str>` gives a borrowed string where a literal needs an owned one.
---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 132ccac..87acd50 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -155,7 +155,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::borrow::ToOwned::to_owned(::std::convert::AsRef::<str>::as_ref(&self.0)),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						let target = env.instantiate_pattern(&#target);
-- 
2.43.0


From 1110d3e4fe8ba49489ff8cf0a1c66a43d03599c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:37 +0000
Subject: [PATCH 40/65] fix: identify the head of derived empty lists with
 their tail

The serialization of an empty list left its head undescribed.
---
 .../rust/treeldr-rs-macros/src/generate/ser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 87acd50..d9db67f 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -365,6 +365,24 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					let mut head = env.instantiate_pattern(&#head);
 
+					if self.0.is_empty() {
+						// The head of an empty list is its tail.
+						let tail = env.instantiate_pattern(&#tail);
+
+						if head != tail {
+							let iris: Vec<_> = rdf
+								.interpretation
+								.iris_of(&tail)
+								.map(|i| rdf.vocabulary.iri(i).unwrap().to_owned())
+								.collect();
+
+							for iri in iris {
+								let id = rdf.vocabulary.insert_owned(iri);
+								rdf.interpretation.assign_iri(&head, id);
+							}
+						}
+					}
+
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
 							env.instantiate_pattern(&#tail)
-- 
2.43.0


From 544746ab3305de513bab1601ff9542d9c42a1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:38 +0000
Subject: [PATCH 41/65] fix: ignore derived components whose pattern uses
 unknown resources

A pattern using a resource that does not occur in the dataset has no match.
It made optional fields, variants and items fail with `MissingData`.
---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 78 ++++++++++---------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..a787d78 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// No match if the pattern uses unknown resources.
+					let field_substitution = match #field_dataset {
+						Some(field_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								field_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
@@ -287,18 +290,21 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					// No match if the pattern uses unknown resources.
+					let variant_substitution = match #variant_dataset {
+						Some(variant_dataset) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								variant_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
@@ -380,18 +386,20 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
+					let matching_dataset = #node_dataset;
+					// No match if the pattern uses unknown resources.
+					let matching = matching_dataset.iter().flat_map(|matching_dataset| {
+						::treeldr::de::Matching::new(
+							dataset,
+							substitution.clone(),
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
 						)
-					);
+					});
 
 					for item_substitution in matching {
 						let item_inputs =
-- 
2.43.0


From d040d22bac2d767891c48277812d92bdfb8e7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:40 +0000
Subject: [PATCH 42/65] fix: skip the derived variants that fail to deserialize

The other variants were never tried.
---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index a787d78..0b1dbc7 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -317,10 +317,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							dataset,
 							variant_graph.as_ref(),
 							&variant_inputs
-						)?;
+						);
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From 19f8d13f29c022d0f4c9df18123db754523a9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:41 +0000
Subject: [PATCH 43/65] fix: compile derived sized lists of one item

`(item)` is not a tuple.
---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 0b1dbc7..1457651 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -583,7 +583,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From 2c8f9649050adbc691b91354a4488267e6c665df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 44/65] fix: reject cyclic lists when deserializing derived
 lists

They were read forever.
---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 1457651..df53681 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -466,7 +466,14 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
 					let mut items = Vec::new();
 
+					let mut visited = ::std::collections::BTreeSet::new();
+
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							// Cyclic list.
+							return Err(::treeldr::DeserializeError::MissingData)
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0


From d21128c2a9cd2767d162a5775d69a0432c4e89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:44 +0000
Subject: [PATCH 45/65] fix: reject unbound variables when deserializing
 derived types

They caused a panic.
---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 30 ++++++++--------
 generators/rust/treeldr-rs/src/de/mod.rs      | 35 +++++++++++--------
 2 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index df53681..7bf1c33 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -76,7 +76,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 
 					let mut selected = None;
 
@@ -213,10 +213,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let Some(field_substitution) = field_substitution {
-						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let item_graph =
-							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let value = <#field_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -307,10 +307,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					};
 
 					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -405,13 +405,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					for item_substitution in matching {
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -462,8 +462,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
-					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
+					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 					let mut items = Vec::new();
 
 					let mut visited = ::std::collections::BTreeSet::new();
@@ -492,13 +492,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -509,7 +509,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = item_substitution.get(rest).ok_or(::treeldr::DeserializeError::MissingData)?.clone();
 					}
 
 					Ok(Self(items))
@@ -549,13 +549,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						).into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -740,7 +740,7 @@ fn generate_data(
 		)
 		.into_required_unique()?;
 
-		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 
 		let mut result = None;
 
diff --git a/generators/rust/treeldr-rs/src/de/mod.rs b/generators/rust/treeldr-rs/src/de/mod.rs
index b0d9951..0ddbe8e 100644
--- a/generators/rust/treeldr-rs/src/de/mod.rs
+++ b/generators/rust/treeldr-rs/src/de/mod.rs
@@ -12,28 +12,33 @@ use crate::{pattern::Substitution, Pattern, RdfContext};
 pub fn select_inputs<R: Clone, const N: usize>(
 	inputs: &[Pattern<R>; N],
 	substitution: &Substitution<R>,
-) -> [R; N] {
-	inputs
+) -> Result<[R; N], Error> {
+	let inputs = inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect::<Vec<_>>()
-		.try_into()
-		.ok()
-		.unwrap()
+		.map(|p| {
+			p.apply(substitution)
+				.into_resource()
+				.ok_or(Error::MissingData)
+		})
+		.collect::<Result<Vec<_>, _>>()?;
+
+	Ok(inputs.try_into().ok().unwrap())
 }
 
 pub fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error> {
+	match graph_pattern {
+		Some(Some(p)) => p
+			.apply(substitution)
+			.into_resource()
+			.ok_or(Error::MissingData)
+			.map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From d11f17fb0755fbb89569dc81ca322fdfcfd95d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 46/65] fix: reject invalid literals when deserializing derived
 literals

They were silently ignored when another literal was valid.
---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 7bf1c33..3d2203d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -759,9 +759,14 @@ fn generate_data(
 			};
 
 			if ty_iri == expected_ty_iri {
-				if let Ok(value) = ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
-					if result.replace(value).is_some() {
-						return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+				match ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
+					Ok(value) => {
+						if result.replace(value).is_some() {
+							return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+						}
+					}
+					Err(_) => {
+						return Err(::treeldr::DeserializeError::InvalidLiteralValue)
 					}
 				}
 			}
-- 
2.43.0


From e32ccc98dcb4c9314df6345691e75be1a3917db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:47 +0000
Subject: [PATCH 47/65] fix: reject ambiguous strings when deserializing
 strings

The first one was taken, where every other datatype reports the ambiguity.
---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8e9543e 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From 405b6f0136cc49c193f4267f14d4780156c25052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 48/65] fix: generate the Rust types of literal layouts

---
 generators/rust/generator/src/lib.rs | 76 +++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 7 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..f4968ad 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -34,6 +34,9 @@ pub enum Error<R = Term> {
 
 	#[error("no IRI representation")]
 	NoIriRepresentation,
+
+	#[error("unsupported number datatype `{0}`")]
+	UnsupportedNumberDatatype(String),
 }
 
 #[derive(Debug, thiserror::Error)]
@@ -229,6 +232,48 @@ where
 	Ok(quote!(dataset(#(#quads),*)))
 }
 
+pub fn generate_resource_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &Pattern<I::Resource>,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let resource = pattern_to_id(rdf, resource)?.to_string();
+	Ok(quote!(resource(#resource)))
+}
+
+fn datatype_iri<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<String, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	rdf.interpretation
+		.iris_of(datatype)
+		.next()
+		.map(|i| rdf.vocabulary.iri(i).unwrap().to_string())
+		.ok_or(Error::NoIriRepresentation)
+}
+
+/// Rust type of the numbers of the given datatype.
+fn number_type<R>(datatype: &str) -> Result<TokenStream, Error<R>> {
+	match datatype.strip_prefix("http://www.w3.org/2001/XMLSchema#") {
+		Some("unsignedByte") => Ok(quote!(u8)),
+		Some("unsignedShort") => Ok(quote!(u16)),
+		Some("unsignedInt") => Ok(quote!(u32)),
+		Some("unsignedLong") => Ok(quote!(u64)),
+		Some("byte") => Ok(quote!(i8)),
+		Some("short") => Ok(quote!(i16)),
+		Some("int") => Ok(quote!(i32)),
+		Some("long") => Ok(quote!(i64)),
+		_ => Err(Error::UnsupportedNumberDatatype(datatype.to_owned())),
+	}
+}
+
 pub fn generate_value_input_attribute<V, I>(
 	rdf: RdfContext<V, I>,
 	input: &[Pattern<I::Resource>],
@@ -304,10 +349,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = datatype_iri(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, datatype(#datatype), #input, #intro, #dataset, #resource)]
 						pub struct #ident(bool);
 					})
 				}
@@ -315,21 +362,26 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = datatype_iri(rdf, &layout.datatype)?;
+					let ty = number_type(&datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(Number);
+						#[tldr(number, datatype(#datatype), #input, #intro, #dataset, #resource)]
+						pub struct #ident(#ty);
 					})
 				}
 				DataLayout::TextString(layout) => {
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = datatype_iri(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, datatype(#datatype), #input, #intro, #dataset, #resource)]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +389,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = datatype_iri(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, datatype(#datatype), #input, #intro, #dataset, #resource)]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -350,10 +404,18 @@ where
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
 
+				let resource = generate_resource_attribute(rdf, &layout.resource)?;
+
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
-					pub struct #ident(Id);
+					#[tldr(id, #input, #intro, #dataset, #resource)]
+					pub struct #ident(::treeldr::rdf_types::Id);
+
+					impl ::treeldr::AsId for #ident {
+						fn as_id(&self) -> ::treeldr::rdf_types::Id<&::treeldr::iref::Iri, &::treeldr::rdf_types::BlankId> {
+							self.0.as_lexical_id_ref()
+						}
+					}
 				})
 			}
 		},
-- 
2.43.0


From 1a4bfc09d8b81c68d466381d7a7705d34c0fe509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 49/65] fix: generate the Rust types of sets

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index f4968ad..7031fc0 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -504,7 +504,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From d6ebbd09a8e53e4c36b072b2aaec2f2eb7a67501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 50/65] fix: generate optional fields

---
 generators/rust/generator/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 7031fc0..04a8d02 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -436,10 +436,15 @@ where
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
-- 
2.43.0


From 6bc1a1254483eb67ded980269907f0187c230350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 51/65] fix: read and write booleans and units as Rust types

---
 generators/rust/treeldr-rs/src/datatypes.rs | 44 ++++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 8e9543e..0088794 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -82,6 +82,45 @@ where
 	}
 }
 
+impl<V, I> SerializeLd<1, V, I> for ()
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[I::Resource; 1],
+		_current_graph: Option<&I::Resource>,
+		_output: &mut BTreeDataset<I::Resource>,
+	) -> Result<(), SerializeError> {
+		Ok(())
+	}
+}
+
+impl<V, I> DeserializeLd<1, V, I> for ()
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; 1],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Ok(())
+	}
+}
+
 impl<V, I> SerializeLd<1, V, I> for String
 where
 	V: VocabularyMut,
@@ -175,7 +214,7 @@ macro_rules! xsd_datatypes {
 				where
 					D: PatternMatchingDataset<Resource = I::Resource>,
 				{
-					use xsd_types::ParseXsd;
+					use crate::de::FromRdfLiteral;
 					let mut result = None;
 					let mut has_literal = false;
 					for l in rdf.interpretation.literals_of(&inputs[0]) {
@@ -184,7 +223,7 @@ macro_rules! xsd_datatypes {
 						if let LiteralTypeRef::Any(i) = literal.type_ {
 							let iri = rdf.vocabulary.iri(i).unwrap();
 							if iri == xsd_types::$xsd_iri {
-								match Self::parse_xsd(&literal.value) {
+								match Self::from_rdf_literal(&literal.value) {
 									Ok(value) => {
 										if result.replace(value).is_some() {
 											return Err(DeserializeError::AmbiguousLiteralValue)
@@ -213,6 +252,7 @@ macro_rules! xsd_datatypes {
 }
 
 xsd_datatypes! {
+	bool: XSD_BOOLEAN,
 	u8: XSD_UNSIGNED_BYTE,
 	u16: XSD_UNSIGNED_SHORT,
 	u32: XSD_UNSIGNED_INT,
-- 
2.43.0


From aa36165cc260f1f2b2647234de6647c2754cdc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 52/65] fix: make the fields of generated types public

---
 generators/rust/generator/src/lib.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 04a8d02..2a4279b 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -355,7 +355,7 @@ where
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 						#[tldr(boolean, datatype(#datatype), #input, #intro, #dataset, #resource)]
-						pub struct #ident(bool);
+						pub struct #ident(pub bool);
 					})
 				}
 				DataLayout::Number(layout) => {
@@ -369,7 +369,7 @@ where
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 						#[tldr(number, datatype(#datatype), #input, #intro, #dataset, #resource)]
-						pub struct #ident(#ty);
+						pub struct #ident(pub #ty);
 					})
 				}
 				DataLayout::TextString(layout) => {
@@ -382,7 +382,7 @@ where
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 						#[tldr(string, datatype(#datatype), #input, #intro, #dataset, #resource)]
-						pub struct #ident(String);
+						pub struct #ident(pub String);
 					})
 				}
 				DataLayout::ByteString(layout) => {
@@ -395,7 +395,7 @@ where
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 						#[tldr(bytes, datatype(#datatype), #input, #intro, #dataset, #resource)]
-						pub struct #ident(Vec<u8>);
+						pub struct #ident(pub Vec<u8>);
 					})
 				}
 			},
@@ -409,7 +409,7 @@ where
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 					#[tldr(id, #input, #intro, #dataset, #resource)]
-					pub struct #ident(::treeldr::rdf_types::Id);
+					pub struct #ident(pub ::treeldr::rdf_types::Id);
 
 					impl ::treeldr::AsId for #ident {
 						fn as_id(&self) -> ::treeldr::rdf_types::Id<&::treeldr::iref::Iri, &::treeldr::rdf_types::BlankId> {
@@ -444,7 +444,7 @@ where
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #ty
+							pub #f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
@@ -509,7 +509,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						Vec<#item_layout>
+						pub Vec<#item_layout>
 					);
 				})
 			}
@@ -534,7 +534,7 @@ where
 					#[tldr(list, #intro, head(#head), tail(#tail), #dataset, #input)]
 					pub struct #ident(
 						#[tldr(head(#node_head), rest(#node_rest), #node_intro, #node_dataset, #node_input, #node_graph)]
-						Vec<#node_layout>
+						pub Vec<#node_layout>
 					);
 				})
 			}
@@ -556,7 +556,7 @@ where
 
 						Ok(quote! {
 							#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-							#item_layout
+							pub #item_layout
 						})
 					})
 					.collect::<Result<Vec<_>, _>>()?;
-- 
2.43.0


From ea2464da8af27cd3935a49251301fbd38e869b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 53/65] fix: fail when a layout file cannot be parsed

---
 generators/rust/generator/src/bin/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/bin/main.rs b/generators/rust/generator/src/bin/main.rs
index ab4ef87..fd3d9ee 100644
--- a/generators/rust/generator/src/bin/main.rs
+++ b/generators/rust/generator/src/bin/main.rs
@@ -61,7 +61,8 @@ fn main() -> ExitCode {
 				}
 			},
 			Err(e) => {
-				log::error!("parse error: {e}")
+				log::error!("parse error: {e}");
+				return ExitCode::FAILURE;
 			}
 		}
 	}
-- 
2.43.0


From 09d1f45faad474b05533f54857cbb9664da52439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:35 +0000
Subject: [PATCH 54/65] fix: keep the default graph of value formats in
 serialized layouts

---
 layouts/src/format.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/layouts/src/format.rs b/layouts/src/format.rs
index c1b4be2..221f7a6 100644
--- a/layouts/src/format.rs
+++ b/layouts/src/format.rs
@@ -3,6 +3,7 @@ use crate::{layout::LayoutType, Pattern, Ref};
 #[derive(
 	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
 )]
+#[serde(bound(deserialize = "R: serde::Deserialize<'de>"))]
 pub struct ValueFormat<R> {
 	/// Layout.
 	pub layout: Ref<LayoutType, R>,
@@ -11,6 +12,11 @@ pub struct ValueFormat<R> {
 	pub input: Vec<Pattern<R>>,
 
 	/// Graph in which the layout is evaluated.
+	#[serde(
+		default,
+		deserialize_with = "deserialize_graph",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern<R>>>,
 }
 
@@ -19,3 +25,13 @@ impl<R> ValueFormat<R> {
 		(f)(&self.layout)
 	}
 }
+
+/// Deserializes the graph of a value format, where a missing graph (the current
+/// graph) and an empty graph (the default graph) are not the same.
+fn deserialize_graph<'de, R, D>(deserializer: D) -> Result<Option<Option<Pattern<R>>>, D::Error>
+where
+	R: serde::Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	serde::Deserialize::deserialize(deserializer).map(Some)
+}
-- 
2.43.0


From 02d2c3b1829709558cb2f29b20da24cc8dccf9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 55/65] fix: keep every transition, and stop on cycles, when
 compressing an automaton

---
 layouts/src/utils/automaton.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 6bc1305..b6c0305 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -672,9 +672,12 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					let mut compact_label = M::default();
 					append(&mut compact_label, label);
 
+					// Follow the chain up to a final state, a state with multiple
+					// (or no) transitions, or a state already on the chain.
+					let mut chain = BTreeSet::new();
 					while let Some((label, s)) = self.single_transition_of(r) {
-						if self.is_final_state(r) {
-							q_transitions.insert(compact_label.clone(), r.clone());
+						if self.is_final_state(r) || !chain.insert(r) {
+							break;
 						}
 
 						append(&mut compact_label, label);
@@ -682,6 +685,7 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					}
 
 					q_transitions.insert(compact_label, r.clone());
+					stack.push(r);
 				}
 
 				transitions.insert(q.clone(), q_transitions);
-- 
2.43.0


From a2b1ce1d46bbf91e4bee39013f453a126b25cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 56/65] fix: an empty character set does not match the empty
 string

---
 layouts/src/abs/regexp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ecb3608..84a8aca 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -101,11 +101,13 @@ impl RegExp {
 		}
 	}
 
+	/// Checks if this regular expression matches only the empty string.
 	pub fn is_empty(&self) -> bool {
 		match self {
-			Self::Set(set) => set.is_empty(),
+			// The empty set matches nothing, not even the empty string.
+			Self::Set(_) => false,
 			Self::Sequence(seq) => seq.iter().all(Self::is_empty),
-			Self::Union(items) => items.iter().all(Self::is_empty),
+			Self::Union(items) => !items.is_empty() && items.iter().all(Self::is_empty),
 			Self::Repeat(r, min, max) => r.is_empty() || (*min == 0 && *max == 0),
 			_ => false,
 		}
-- 
2.43.0


From 00142fb2569739100889aeca43991a098aeb4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 57/65] fix: build regular expressions that match nothing

---
 layouts/src/abs/regexp.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 84a8aca..5c1e2e6 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -238,7 +238,6 @@ impl RegExp {
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
-		debug_assert!(!dt.final_states().is_empty());
 
 		let mut n = 0;
 		dt.map(
-- 
2.43.0


From df629a9b0d0bfb23ae46f2e06726849abb0fc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 58/65] fix: display the set of all characters as such

---
 layouts/src/abs/regexp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 5c1e2e6..d1b6a55 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -413,7 +413,13 @@ fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char
 						}
 
 						if negate {
-							set = set.complement();
+							if set.is_empty() {
+								// `complement` gives an unbounded range, whose own gaps
+								// are not computed correctly.
+								set.insert('\0'..=char::MAX);
+							} else {
+								set = set.complement();
+							}
 						}
 
 						break Ok(set);
-- 
2.43.0


From 0d4473878e6fe37695bfffe7c75cffdbea412e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 59/65] fix: dehydrating with a sum layout that is a variant of
 itself overflowed the stack

---
 layouts/src/distill/de/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 52b2b7d..c05ac8b 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -538,6 +538,7 @@ where
 		inputs,
 		output,
 		&mut assignments,
+		&[],
 	)?;
 
 	for assignment in assignments {
@@ -582,6 +583,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	inputs: &[I::Resource],
 	output: &mut D,
 	assignments: &mut Assignments<I>,
+	sums: &[&Ref<LayoutType, Q>],
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -703,6 +705,13 @@ where
 			_ => Err(Error::IncompatibleLayout),
 		},
 		Layout::Sum(layout) => {
+			if sums.contains(&layout_ref) {
+				// The layout is a variant of itself, for the same value.
+				return Err(Error::IncompatibleLayout);
+			}
+
+			let sums = [sums, &[layout_ref]].concat();
+
 			let env = env.intro(rdf, layout.intro);
 			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
@@ -723,6 +732,7 @@ where
 					&env,
 					&mut variant_dataset,
 					&mut variant_assignments,
+					&sums,
 				)
 				.is_ok() && selection
 					.replace((variant_dataset, variant_assignments))
@@ -763,6 +773,7 @@ where
 								&env,
 								output,
 								assignments,
+								&[],
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -801,6 +812,7 @@ where
 							&env,
 							output,
 							assignments,
+							&[],
 						)?;
 					}
 
@@ -844,6 +856,7 @@ where
 							&env,
 							output,
 							assignments,
+							&[],
 						)?;
 
 						head = rest;
@@ -876,6 +889,7 @@ where
 									&env,
 									output,
 									assignments,
+									&[],
 								)?;
 							}
 							(None, None) => break,
@@ -902,6 +916,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	env: &Environment<I::Resource>,
 	output: &mut D,
 	assignments: &mut Assignments<I>,
+	sums: &[&Ref<LayoutType, Q>],
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -929,6 +944,7 @@ where
 		&inputs,
 		output,
 		assignments,
+		sums,
 	)
 }
 
-- 
2.43.0


From b76191094db80ffe5b67c8c9b8f9578076a4ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 60/65] fix: zero with a large exponent is zero

---
 layouts/src/value/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 08ae90e..2b856a6 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -86,10 +86,7 @@ impl Number {
 	/// Parses a number from its decimal representation, with an optional sign,
 	/// fractional part and exponent.
 	pub fn from_decimal_str(s: &str) -> Option<Self> {
-		let (mantissa, exponent) = match s.split_once(['e', 'E']) {
-			Some((mantissa, exponent)) => (mantissa, exponent.parse::<i32>().ok()?),
-			None => (s, 0),
-		};
+		let (mantissa, exponent) = s.split_once(['e', 'E']).unwrap_or((s, "0"));
 
 		let (negative, unsigned) = match mantissa.strip_prefix('-') {
 			Some(unsigned) => (true, unsigned),
@@ -103,6 +100,12 @@ impl Number {
 		}
 
 		let numer: BigInt = digits.parse().ok()?;
+		if numer.is_zero() && is_integer(exponent) {
+			// Whatever the exponent.
+			return Some(Self(BigRational::zero()));
+		}
+
+		let exponent: i32 = exponent.parse().ok()?;
 		let scale = exponent as i64 - fraction.len() as i64;
 		let ten_pow = TEN.pow(scale.unsigned_abs().try_into().ok()?);
 
@@ -156,6 +159,12 @@ impl Number {
 	}
 }
 
+/// Checks if `s` is a sequence of digits with an optional sign.
+fn is_integer(s: &str) -> bool {
+	let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
+	!digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit())
+}
+
 pub enum NativeNumber {
 	U64(u64),
 	I64(i64),
-- 
2.43.0


From dce4d821a15a357fe0e40955a77132c2af234680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 61/65] fix: syntax errors displayed the offset instead of the
 faulty text

---
 layouts/src/abs/syntax/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 410f52a..a6add0a 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -49,16 +49,16 @@ pub enum Error {
 		found: String,
 	},
 
-	#[error("invalid regular expression: {0}")]
+	#[error("invalid regular expression: {1}")]
 	InvalidRegex(usize, regexp::ParseError),
 
-	#[error("invalid IRI or blank node identifier `{0}`")]
+	#[error("invalid IRI or blank node identifier `{1}`")]
 	InvalidPattern(usize, String),
 
-	#[error("invalid language tag `{0}`")]
+	#[error("invalid language tag `{1}`")]
 	InvalidLangTag(usize, String),
 
-	#[error("invalid compact IRI `{0}`")]
+	#[error("invalid compact IRI `{1}`")]
 	InvalidCompactIri(usize, String),
 
 	#[error("quad must have at least 3 patterns (subject, predicate, object)")]
@@ -67,10 +67,10 @@ pub enum Error {
 	#[error("quad must have at most 4 patterns (subject, predicate, object, graph)")]
 	TooManyQuadPatterns(usize),
 
-	#[error("expected integer number, found {0}")]
+	#[error("expected integer number, found {1}")]
 	ExpectedInteger(usize, json_syntax::NumberBuf),
 
-	#[error("integer number is too large: {0}")]
+	#[error("integer number is too large: {1}")]
 	IntegerOverflow(usize, json_syntax::NumberBuf),
 }
 
-- 
2.43.0


From 98d58ca14e57c43fe122b7cd4101242be2efed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 62/65] fix: a boolean layout as list node was refused by the
 tracked parser

---
 layouts/src/abs/syntax/layout/list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..07c639e 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -173,9 +173,12 @@ impl TryFromJson for ListNodeOrLayout {
 					ListNode::try_from_json_object_at(value, code_map, offset).map(Self::ListNode)
 				}
 			}
+			json_syntax::Value::Boolean(_) => {
+				LayoutRef::try_from_json_at(json, code_map, offset).map(Self::Layout)
+			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::String | Kind::Object | Kind::Boolean,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From a989174a438fda3ff236c08c035231e407408e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:25 +0000
Subject: [PATCH 63/65] fix: unknown entries of typed strings were ignored by
 serde

---
 layouts/src/abs/syntax/resource.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 3ab81b2..a72a4d6 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -87,6 +87,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
-- 
2.43.0


From bcf1f2abfebc40d197c9a731f62f57d3e7f14ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:38 +0000
Subject: [PATCH 64/65] fix: the tracked parser refused null for an optional
 entry, unlike serde

---
 layouts/src/abs/syntax/dataset.rs        |  5 +++--
 layouts/src/abs/syntax/layout/list.rs    |  5 +++--
 layouts/src/abs/syntax/layout/literal.rs | 27 ++++++++++++++++--------
 layouts/src/abs/syntax/layout/mod.rs     |  4 ++--
 layouts/src/abs/syntax/layout/product.rs |  3 ++-
 5 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 8a2fdb6..2fc519d 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -82,8 +82,9 @@ impl TryFromJson for Quad {
 		component_offset += code_map.get(component_offset).unwrap().volume;
 		let g = array
 			.get(3)
-			.map(|g| Pattern::try_from_json_at(g, code_map, component_offset))
-			.transpose()?;
+			.map(|g| Option::try_from_json_at(g, code_map, component_offset))
+			.transpose()?
+			.flatten();
 
 		Ok(Self(s, p, o, g))
 	}
diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index 07c639e..6f4d41b 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -297,7 +297,7 @@ impl TryFromJsonObject for ListNode {
 			intro: get_entry(object, "intro", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
-			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?,
+			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?.flatten(),
 		};
 		unused_entries.check()?;
 		Ok(result)
@@ -448,7 +448,8 @@ impl TryFromJsonObject for ListItem {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?
+				.flatten(),
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index c788371..8ea412d 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -326,8 +326,10 @@ impl TryFromJsonObject for BooleanLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_entry(object, "resource", &mut unused_entries, code_map, offset)?.flatten();
+		let datatype =
+			get_entry(object, "datatype", &mut unused_entries, code_map, offset)?.flatten();
 		unused_entries.check()?;
 		Ok(Self {
 			type_: BooleanLayoutType,
@@ -396,7 +398,8 @@ impl TryFromJsonObject for NumberLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_entry(object, "resource", &mut unused_entries, code_map, offset)?.flatten();
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -466,7 +469,8 @@ impl TryFromJsonObject for ByteStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_entry(object, "resource", &mut unused_entries, code_map, offset)?.flatten();
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -515,9 +519,12 @@ impl TryFromJsonObject for TextStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let pattern =
+			get_entry(object, "pattern", &mut unused_entries, code_map, offset)?.flatten();
+		let resource =
+			get_entry(object, "resource", &mut unused_entries, code_map, offset)?.flatten();
+		let datatype =
+			get_entry(object, "datatype", &mut unused_entries, code_map, offset)?.flatten();
 		unused_entries.check()?;
 		Ok(Self {
 			type_: TextStringLayoutType,
@@ -594,8 +601,10 @@ impl TryFromJsonObject for IdLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let pattern =
+			get_entry(object, "pattern", &mut unused_entries, code_map, offset)?.flatten();
+		let resource =
+			get_entry(object, "resource", &mut unused_entries, code_map, offset)?.flatten();
 		unused_entries.check()?;
 		Ok(Self {
 			type_: IdLayoutType,
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 5260060..2418774 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -425,10 +425,10 @@ impl LayoutHeader {
 		offset: usize,
 	) -> Result<Self, Error> {
 		Ok(Self {
-			base: get_entry(object, "base", unused_entries, code_map, offset)?,
+			base: get_entry(object, "base", unused_entries, code_map, offset)?.flatten(),
 			prefixes: get_entry(object, "prefixes", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			id: get_entry(object, "id", unused_entries, code_map, offset)?,
+			id: get_entry(object, "id", unused_entries, code_map, offset)?.flatten(),
 			input: get_entry(object, "input", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			intro: get_entry(object, "intro", unused_entries, code_map, offset)?
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index bcba6c2..aa0d673 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -178,7 +178,8 @@ impl TryFromJsonObject for Field {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?
+				.flatten(),
 			required: get_entry(object, "required", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 		};
-- 
2.43.0


From e2ff36256aef39687a76c58817c92824f040fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 65/65] fix: an invalid language tag was reported at the
 position of its literal

---
 layouts/src/abs/syntax/pattern/literal.rs | 35 ++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 60165f2..19675ea 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -1,8 +1,11 @@
 use iref::IriBuf;
+use json_syntax::TryFromJson;
 use langtag::LangTagBuf;
 use rdf_types::XSD_STRING;
 
-use crate::abs::syntax::{get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope};
+use crate::abs::syntax::{
+	expect_string, get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope,
+};
 
 use super::CompactIri;
 
@@ -28,15 +31,10 @@ impl LiteralValue {
 				// TODO check if language is present.
 				LiteralType::Iri(LiteralTypeIri { type_: ty })
 			}
-			None => {
-				let language: Option<String> =
-					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match language.map(LangTagBuf::new) {
-					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
-					None => LiteralType::default(),
-				}
-			}
+			None => match get_entry(object, "language", &mut unused_entries, code_map, offset)? {
+				Some(Language(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+				None => LiteralType::default(),
+			},
 		};
 
 		let value = require_entry(object, "value", &mut unused_entries, code_map, offset)?;
@@ -46,6 +44,23 @@ impl LiteralValue {
 	}
 }
 
+/// Value of a `language` entry.
+struct Language(LangTagBuf);
+
+impl TryFromJson for Language {
+	type Error = Error;
+
+	fn try_from_json_at(
+		json: &json_syntax::Value,
+		_code_map: &json_syntax::CodeMap,
+		offset: usize,
+	) -> Result<Self, Self::Error> {
+		LangTagBuf::new(expect_string(json, offset)?.to_owned())
+			.map(Self)
+			.map_err(|e| Error::InvalidLangTag(offset, e.0))
+	}
+}
+
 impl From<rdf_types::Literal> for LiteralValue {
 	fn from(value: rdf_types::Literal) -> Self {
 		Self {
-- 
2.43.0

