//! A dataset that is just its quads, in a given order. (The indexed dataset of
//! `rdf-types` loses quads that repeat a resource it has not seen before; it is
//! a dependency, not what is checked here.)
use rdf_types::{
	dataset::{Dataset, PatternMatchingDataset},
	pattern::{
		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
		CanonicalQuadPattern,
	},
	Quad, Term,
};

#[derive(Default)]
pub struct Scan<R = Term>(pub Vec<Quad<R, R, R, R>>);

impl<R: PartialEq> FromIterator<Quad<R, R, R, R>> for Scan<R> {
	fn from_iter<T: IntoIterator<Item = Quad<R, R, R, R>>>(iter: T) -> Self {
		let mut out: Vec<Quad<R, R, R, R>> = Vec::new();
		for q in iter {
			if !out.contains(&q) {
				out.push(q);
			}
		}
		Self(out)
	}
}

impl<R> Dataset for Scan<R> {
	type Resource = R;
}

fn matches<R: PartialEq>(p: &CanonicalQuadPattern<&R>, q: &Quad<R, R, R, R>) -> bool {
	(match p.subject() {
		PatternSubject::Any => true,
		PatternSubject::Given(t) => **t == q.0,
	}) && (match p.predicate() {
		PatternPredicate::Any => true,
		PatternPredicate::SameAsSubject => q.1 == q.0,
		PatternPredicate::Given(t) => **t == q.1,
	}) && (match p.object() {
		PatternObject::Any => true,
		PatternObject::SameAsSubject => q.2 == q.0,
		PatternObject::SameAsPredicate => q.2 == q.1,
		PatternObject::Given(t) => **t == q.2,
	}) && (match p.graph() {
		PatternGraph::Any => true,
		PatternGraph::SameAsSubject => q.3.as_ref() == Some(&q.0),
		PatternGraph::SameAsPredicate => q.3.as_ref() == Some(&q.1),
		PatternGraph::SameAsObject => q.3.as_ref() == Some(&q.2),
		PatternGraph::Given(g) => g.copied() == q.3.as_ref(),
	})
}

impl<R: PartialEq> PatternMatchingDataset for Scan<R> {
	type QuadPatternMatching<'a, 'p> = Box<dyn Iterator<Item = Quad<&'a R, &'a R, &'a R, &'a R>> + 'a> where Self: 'a, R: 'p;

	fn quad_pattern_matching<'p>(
		&self,
		pattern: CanonicalQuadPattern<&'p R>,
	) -> Self::QuadPatternMatching<'_, 'p> {
		let hits: Vec<&Quad<R, R, R, R>> = self.0.iter().filter(|q| matches(&pattern, q)).collect();
		Box::new(hits.into_iter().map(|q| Quad(&q.0, &q.1, &q.2, q.3.as_ref())))
	}
}
