//! C10: the interactive protocols reduce true claims to true ones and false claims to rejection or
//! false ones.
use std::sync::{Arc, Mutex};

use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayer,
	alloc::ComputeAllocator,
	cpu::layer::CpuLayerHolder,
	memory::ComputeMemory,
	ops::eq_ind_partial_eval,
};
use binius_core::{
	composition::{BivariateProduct, IndexComposition},
	fiat_shamir::CanSample,
	oracle::{ConstraintPredicate, MultilinearOracleSet, MultilinearPolyVariant, OracleId, SizedConstraintSet},
	protocols::{
		evalcheck::{
			EvalcheckHint, EvalcheckMultilinearClaim, EvalcheckProver, EvalcheckVerifier, serialize_evalcheck_proof,
		},
		gkr_exp::{self, BaseExpWitness, ExpClaim},
		gkr_gpa::{self, GrandProductClaim, GrandProductWitness},
		sumcheck::{
			self, BatchSumcheckOutput, CompositeSumClaim, EqIndSumcheckClaim, SumcheckClaim, ZerocheckClaim,
			eq_ind::{ClaimsSortingOrder, reduce_to_regular_sumchecks, verify_sumcheck_outputs},
			front_loaded::BatchVerifier,
			zerocheck::{univariatizing_reduction_claim, verify_reduction_sumcheck_output},
			prove::{
				RegularSumcheckProver, ZerocheckProverImpl, eq_ind::EqIndSumcheckProverBuilder,
				front_loaded::BatchProver,
			},
			v3::{bivariate_mlecheck::BivariateMLEcheckProver, bivariate_product::BivariateSumcheckProver},
		},
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::{arith_circuit::ArithCircuitPoly, layer::FastCpuLayerHolder};
use binius_field::{
	BinaryField1b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b as B128, Field,
	PackedBinaryField2x128b, PackedField,
	arch::{OptimalUnderlier128b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::pack_slice,
	tower::CanonicalTowerFamily,
};
use binius_math::{
	ArithCircuit, ArithExpr, DefaultEvaluationDomainFactory, EvaluationOrder, IsomorphicEvaluationDomainFactory,
	MultilinearExtension, MultilinearPoly,
};
use vsim::{
	tap::{self, Ev, TapChallenger},
	sys::{Data, Expr, Shape, Sys, elem, eval_expr, expr_level, nonzero_elem},
	*,
};

type B8 = BinaryField8b;
type Ch = TapChallenger;
type PT = ProverTranscript<Ch>;
type VT = VerifierTranscript<Ch>;
type Poly<P> = Arc<dyn MultilinearPoly<P> + Send + Sync>;

/// Value of the multilinear extension at a point, by folding the last variable first.
fn eval_at(v: &[B128], point: &[B128]) -> B128 {
	assert_eq!(v.len(), 1 << point.len());
	let mut v = v.to_vec();
	for c in point.iter().rev() {
		let h = v.len() / 2;
		for i in 0..h {
			let (a, b) = (v[i], v[i + h]);
			v[i] = a + *c * (b - a);
		}
		v.truncate(h);
	}
	v[0]
}

fn eq_expand(point: &[B128]) -> Vec<B128> {
	let mut v = vec![B128::ONE];
	for c in point {
		let hi: Vec<_> = v.iter().map(|x| *x * *c).collect();
		for (x, h) in v.iter_mut().zip(&hi) {
			*x -= *h;
		}
		v.extend(hi);
	}
	v
}

fn point_elem(r: &mut Rng) -> B128 {
	match r.below(12) {
		0 => B128::ZERO,
		1 => B128::ONE,
		_ => B128::new(r.u128()),
	}
}

fn draw_expr(r: &mut Rng, n: usize, depth: usize, max_level: usize) -> Expr {
	if depth == 0 || r.chance(1, 5) {
		return if r.chance(4, 5) {
			Expr::Var(r.usize(n))
		} else {
			let l = *r.pick(&[0, 3, 4, 5, 6, 7]);
			Expr::Const(elem(r, l.min(max_level)))
		};
	}
	let a = draw_expr(r, n, depth - 1, max_level);
	match r.below(7) {
		0..=2 => a + draw_expr(r, n, depth - 1, max_level),
		3..=5 => a * draw_expr(r, n, depth - 1, max_level),
		_ => a.pow(r.range(1, 3)),
	}
}

/// An expression of degree 1 to `max`, after simplification.
fn expr(r: &mut Rng, n: usize, max: usize, max_level: usize) -> Expr {
	loop {
		let d = r.range(0, 3) as usize;
		let e = draw_expr(r, n, d, max_level);
		if (1..=max).contains(&vsim::sys::circuit_degree(&e)) {
			return e;
		}
	}
}

fn convert(e: &Expr) -> ArithExpr<B8> {
	match e {
		ArithExpr::Const(c) => ArithExpr::Const(B8::try_from(*c).ok().unwrap()),
		ArithExpr::Var(i) => ArithExpr::Var(*i),
		ArithExpr::Add(a, b) => convert(a) + convert(b),
		ArithExpr::Mul(a, b) => convert(a) * convert(b),
		ArithExpr::Pow(a, n) => convert(a).pow(*n),
	}
}

fn circuit(n: usize, e: &Expr) -> ArithCircuitPoly<B128> {
	ArithCircuitPoly::with_n_vars(n, ArithCircuit::from(e)).unwrap()
}

/// One claim: multilinears of a level, and expressions over them.
#[derive(Clone)]
struct Claim {
	n_vars: usize,
	level: Vec<usize>,
	data: Vec<Vec<B128>>,
	exprs: Vec<Expr>,
	sums: Vec<B128>,
	switchover: usize,
}

impl Claim {
	fn draw(r: &mut Rng, n_vars: usize, levels: &[usize]) -> Claim {
		let n = r.range(1, 4) as usize;
		let level: Vec<usize> = (0..n).map(|_| *r.pick(levels)).collect();
		let data = level
			.iter()
			.map(|l| {
				let sparse = r.below(4);
				(0..1 << n_vars)
					.map(|_| if sparse == 0 && r.chance(3, 4) { B128::ZERO } else { elem(r, *l) })
					.collect()
			})
			.collect();
		Claim { n_vars, level, data, exprs: vec![], sums: vec![], switchover: r.usize(n_vars + 2) }
	}
	fn row(&self, e: &Expr, i: usize) -> B128 {
		eval_expr(e, &|v| self.data[v][i])
	}
	fn sum(&self, e: &Expr, weights: Option<&[B128]>) -> B128 {
		(0..1 << self.n_vars)
			.map(|i| self.row(e, i) * weights.map_or(B128::ONE, |w| w[i]))
			.sum()
	}
	fn true_evals(&self, point: &[B128], evals: &[B128]) -> bool {
		evals.len() == self.data.len() && self.data.iter().zip(evals).all(|(d, e)| eval_at(d, point) == *e)
	}
	fn polys<W: Wide>(&self) -> Vec<Poly<W::P>> {
		self.data
			.iter()
			.zip(&self.level)
			.map(|(d, l)| W::poly(*l, self.n_vars, d))
			.collect()
	}
	fn describe(&self) -> String {
		format!("2^{} levels {:?} {:?}", self.n_vars, self.level, self.exprs)
	}
}

fn mle<P: PackedField>(n_vars: usize, v: &[B128]) -> MultilinearExtension<P>
where
	P::Scalar: TryFrom<B128>,
{
	let s: Vec<P::Scalar> = v.iter().map(|x| P::Scalar::try_from(*x).ok().unwrap()).collect();
	MultilinearExtension::new(n_vars, pack_slice::<P>(&s)).unwrap()
}

/// What the simulated code did: the prover's and the verifier's answer.
type Answer<T> = (Result<(), String>, Option<Result<T, String>>);

/// Reduced claims: point and values per claim, as told by the verifier, and whether the prover agrees.
type Reduced = Vec<(Vec<B128>, Vec<B128>)>;

trait Wide {
	type P: PackedField<Scalar = B128>;
	fn poly(level: usize, n_vars: usize, v: &[B128]) -> Poly<Self::P>;
	fn sumcheck(mode: Mode, claims: &[Claim], said: &[Claim]) -> Answer<Reduced>;
	fn eq_ind(mode: Mode, claims: &[Claim], said: &[Claim], opt: &EqOpts) -> Answer<Reduced>;
	fn zerocheck(claims: &[Claim], said: &[Claim], skip: usize) -> Answer<Reduced>;
	fn gpa(order: EvaluationOrder, w: &[(usize, Vec<B128>)], prods: &[(usize, B128)]) -> Answer<Reduced>;
	fn exp(order: EvaluationOrder, w: &[ExpCase], said: &[ExpClaim<B128>]) -> Answer<Vec<Reduced>>;
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Mode {
	order: EvaluationOrder,
	front: bool,
}

#[derive(Clone)]
struct EqOpts {
	challenges: Vec<B128>,
	/// Per claim, whether to pass eval-1 advice, partial evaluations, and constant suffixes.
	advice: Vec<bool>,
	partial: Vec<bool>,
	suffix: Vec<Option<Vec<(B128, usize)>>>,
	folded: Vec<bool>,
	/// A claim the prover proves at a point of its own.
	other: Option<(usize, Vec<B128>)>,
}

#[derive(Clone)]
struct ExpCase {
	n_vars: usize,
	/// Exponents, one per row.
	exps: Vec<u64>,
	bits: usize,
	base: Result<B128, Vec<B128>>,
}

impl ExpCase {
	fn results(&self) -> Vec<B128> {
		(0..1 << self.n_vars)
			.map(|i| {
				let b = match &self.base {
					Ok(b) => *b,
					Err(v) => v[i],
				};
				let mut x = B128::ONE;
				for k in (0..self.bits).rev() {
					x = x.square();
					if self.exps[i] >> k & 1 == 1 {
						x *= b;
					}
				}
				x
			})
			.collect()
	}
	fn bit(&self, k: usize) -> Vec<B128> {
		self.exps.iter().map(|e| B128::new((e >> k & 1) as u128)).collect()
	}
}

fn s(e: impl ToString) -> String {
	e.to_string()
}

/// Changes some of the field elements of a message so that a product or a sum of them stays the same.
/// Returns the difference.
fn fitted(r: &mut Rng, bytes: &[u8]) -> Vec<u8> {
	let mut x: Vec<B128> = bytes.chunks(16).map(|c| B128::new(u128::from_le_bytes(c.try_into().unwrap()))).collect();
	let n = x.len();
	let (mut i, mut j) = (r.usize(n), r.usize(n));
	if r.chance(1, 2) {
		(i, j) = (0, n - 1);
	}
	if i > j {
		(i, j) = (j, i);
	}
	if i == j {
		(i, j) = (n - 2, n - 1);
	}
	let c = vsim::sys::nonzero_elem(r, 7);
	let d = c.invert().unwrap();
	match r.below(6) {
		0 => {
			x[j] *= c;
			x[i..j].iter_mut().for_each(|x| *x *= d);
		}
		1 => {
			x[j] *= c;
			x[i..j].iter_mut().step_by(2).for_each(|x| *x *= d);
		}
		2 => {
			x[j] *= c * c;
			x[i..j].iter_mut().for_each(|x| *x *= d);
		}
		3 => {
			x[j] *= c;
			x[i] *= d;
		}
		4 => {
			x[j] += c;
			x[i] += c;
		}
		_ => x.swap(i, j),
	}
	let new: Vec<u8> = x.iter().flat_map(|x| x.val().to_le_bytes()).collect();
	bytes.iter().zip(new).map(|(a, b)| a ^ b).collect()
}

/// The channel between the parties: what the honest prover sent, and what of it to alter. The prover's own
/// challenges follow from the altered message, as those of a party that sent it on purpose do.
#[derive(Default)]
struct Channel {
	/// Recording or altering.
	on: bool,
	alter: Vec<(usize, u8)>,
	/// Filled in by `other_side`: the bytes sent, how many of them are messages, and the messages of
	/// several field elements (start, count).
	sent: Vec<u8>,
	common: usize,
	lists: Vec<(usize, usize)>,
	applied: usize,
}

static CHANNEL: Mutex<Option<Channel>> = Mutex::new(None);

fn channel(alter: Vec<(usize, u8)>) {
	tap::start(alter.clone());
	*CHANNEL.lock().unwrap_or_else(|e| e.into_inner()) = Some(Channel { on: true, alter, ..Default::default() });
}

fn channel_end() -> Channel {
	tap::stop();
	CHANNEL.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

/// Whether a message was altered, so that the parties need not agree.
fn altered() -> bool {
	CHANNEL.lock().unwrap_or_else(|e| e.into_inner()).as_ref().is_some_and(|c| !c.alter.is_empty())
}

/// Runs the verifier on the prover's transcript; both must be in the same state afterwards.
fn other_side<T>(mut p: PT, f: impl FnOnce(&mut VT) -> Result<T, String>) -> Result<T, String> {
	let ps: B128 = p.sample();
	let mut bytes = p.finalize();
	if let Some(c) = CHANNEL.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
		let st = tap::stop();
		c.applied = st.altered;
		let stream: Vec<u8> = st
			.events
			.iter()
			.filter_map(|e| if let Ev::Observe(v) = e { Some(v.as_slice()) } else { None })
			.flatten()
			.copied()
			.collect();
		c.common = stream.iter().zip(&bytes).take_while(|(a, b)| a == b).count();
		let mut at = 0;
		for e in &st.events {
			let Ev::Observe(v) = e else { continue };
			if at + v.len() <= c.common && v.len() % 16 == 0 && v.len() >= 32 {
				c.lists.push((at, v.len() / 16));
			}
			at += v.len();
		}
		c.sent = bytes.clone();
		for &(i, m) in &c.alter {
			bytes[i] ^= m;
		}
	}
	let mut v = VT::new(bytes);
	let r = f(&mut v)?;
	let vs: B128 = v.sample();
	if ps != vs {
		return Err("transcripts differ afterwards".into());
	}
	v.finalize().map_err(s)?;
	Ok(r)
}

/// The points at which the multilinears of claims of these sizes are evaluated.
fn points(mode: Mode, challenges: &[B128], sizes: &[usize]) -> Vec<Vec<B128>> {
	// Challenges in the order in which they were drawn.
	let mut drawn = challenges.to_vec();
	if !mode.front && mode.order == EvaluationOrder::HighToLow {
		drawn.reverse();
	}
	sizes
		.iter()
		.map(|n| {
			let mut c = if mode.front {
				drawn[..*n].to_vec()
			} else {
				drawn[drawn.len() - n..].to_vec()
			};
			if mode.order == EvaluationOrder::HighToLow {
				c.reverse();
			}
			c
		})
		.collect()
}

fn sizes(c: &[Claim]) -> Vec<usize> {
	c.iter().map(|c| c.n_vars).collect()
}

macro_rules! wide {
	($name:ident, $u:ty) => {
		struct $name;
		impl Wide for $name {
			type P = PackedType<$u, B128>;

			fn poly(level: usize, n_vars: usize, v: &[B128]) -> Poly<Self::P> {
				match level {
					0 => mle::<PackedType<$u, BinaryField1b>>(n_vars, v).specialize_arc_dyn(),
					3 => mle::<PackedType<$u, BinaryField8b>>(n_vars, v).specialize_arc_dyn(),
					4 => mle::<PackedType<$u, BinaryField16b>>(n_vars, v).specialize_arc_dyn(),
					5 => mle::<PackedType<$u, BinaryField32b>>(n_vars, v).specialize_arc_dyn(),
					6 => mle::<PackedType<$u, BinaryField64b>>(n_vars, v).specialize_arc_dyn(),
					_ => mle::<PackedType<$u, B128>>(n_vars, v).specialize_arc_dyn(),
				}
			}

			fn sumcheck(mode: Mode, claims: &[Claim], said: &[Claim]) -> Answer<Reduced> {
				let backend = binius_hal::make_portable_backend();
				let mut t = PT::new();
				let out = (|| -> Result<_, String> {
					let mut provers = vec![];
					for c in claims {
						let cl = c.exprs.iter().zip(&c.sums).map(|(e, sum)| CompositeSumClaim {
							composition: circuit(c.data.len(), e),
							sum: *sum,
						});
						let sw = c.switchover;
						provers.push(
							RegularSumcheckProver::<B8, Self::P, _, _, _>::new(
								mode.order,
								c.polys::<Self>(),
								cl.collect::<Vec<_>>(),
								IsomorphicEvaluationDomainFactory::<B8>::default(),
								move |_| sw,
								&backend,
							)
							.map_err(s)?,
						);
					}
					if mode.front {
						BatchProver::new(provers, &mut t).map_err(s)?.run(&mut t).map_err(s)
					} else {
						sumcheck::batch_prove(provers, &mut t).map_err(s)
					}
				})();
				let out = match out {
					Err(e) => return (Err(e), None),
					Ok(o) => o,
				};
				let v = other_side(t, |t| {
					let cl = said
						.iter()
						.map(|c| {
							SumcheckClaim::new(
								c.n_vars,
								c.data.len(),
								c.exprs
									.iter()
									.zip(&c.sums)
									.map(|(e, sum)| CompositeSumClaim {
										composition: circuit(c.data.len(), e),
										sum: *sum,
									})
									.collect(),
							)
							.map_err(s)
						})
						.collect::<Result<Vec<_>, _>>()?;
					let o = if mode.front {
						BatchVerifier::new(&cl, t).map_err(s)?.run(t).map_err(s)?
					} else {
						sumcheck::batch_verify(mode.order, &cl, t).map_err(s)?
					};
					agree(&out, &o, mode, &sizes(said))
				});
				(Ok(()), Some(v))
			}

			fn eq_ind(mode: Mode, claims: &[Claim], said: &[Claim], opt: &EqOpts) -> Answer<Reduced> {
				let backend = binius_hal::make_portable_backend();
				let mut t = PT::new();
				let max = opt.challenges.len();
				let out = (|| -> Result<_, String> {
					let mut provers = vec![];
					for (k, c) in claims.iter().enumerate() {
						let cl: Vec<_> = c
							.exprs
							.iter()
							.zip(&c.sums)
							.map(|(e, sum)| CompositeSumClaim {
								composition: circuit(c.data.len(), e),
								sum: *sum,
							})
							.collect();
						let point = match &opt.other {
							Some((j, p)) if *j == k => &p[..],
							_ => &opt.challenges[max - c.n_vars..],
						};
						let sw = c.switchover;
						let mut b = EqIndSumcheckProverBuilder::with_switchover(
							c.polys::<Self>(),
							move |_| sw,
							&backend,
						)
						.map_err(s)?;
						if opt.partial[k] && c.n_vars > 0 {
							let part = match mode.order {
								EvaluationOrder::LowToHigh => &point[1..],
								EvaluationOrder::HighToLow => &point[..c.n_vars - 1],
							};
							b = b.with_eq_ind_partial_evals(pack_slice(&eq_expand(part)));
						}
						if opt.advice[k] && c.n_vars > 0 {
							// The value of the prime polynomial at one.
							let (part, keep): (&[B128], Box<dyn Fn(usize) -> usize>) = match mode.order {
								EvaluationOrder::LowToHigh => (&point[1..], Box::new(|i| i << 1 | 1)),
								EvaluationOrder::HighToLow => {
									let h = 1 << (c.n_vars - 1);
									(&point[..c.n_vars - 1], Box::new(move |i| i + h))
								}
							};
							let w = eq_expand(part);
							let ones: Vec<B128> = c
								.exprs
								.iter()
								.map(|e| (0..w.len()).map(|i| w[i] * c.row(e, keep(i))).sum())
								.collect();
							b = b.with_first_round_eval_1s(&ones);
						}
						if let Some(x) = &opt.suffix[k] {
							b = b.with_const_suffixes(x).map_err(s)?;
						}
						provers.push(
							b.build::<B8, _>(
								mode.order,
								point,
								cl,
								IsomorphicEvaluationDomainFactory::<B8>::default(),
							)
							.map_err(s)?,
						);
					}
					if mode.front {
						BatchProver::new(provers, &mut t).map_err(s)?.run(&mut t).map_err(s)
					} else {
						sumcheck::batch_prove(provers, &mut t).map_err(s)
					}
				})();
				let out = match out {
					Err(e) => return (Err(e), None),
					Ok(o) => o,
				};
				let v = other_side(t, |t| {
					let cl = said
						.iter()
						.map(|c| {
							EqIndSumcheckClaim::new(
								c.n_vars,
								c.data.len(),
								c.exprs
									.iter()
									.zip(&c.sums)
									.map(|(e, sum)| CompositeSumClaim {
										composition: circuit(c.data.len(), e),
										sum: *sum,
									})
									.collect(),
							)
							.map_err(s)
						})
						.collect::<Result<Vec<_>, _>>()?;
					let reg = reduce_to_regular_sumchecks(&cl).map_err(s)?;
					let mut o = if mode.front {
						BatchVerifier::new(&reg, t).map_err(s)?.run(t).map_err(s)?
					} else {
						sumcheck::batch_verify(mode.order, &reg, t).map_err(s)?
					};
					let mut out = out;
					if mode.front {
						// Suffix order, as the protocol's users do.
						o.challenges.reverse();
						out.challenges.reverse();
					}
					let sort = if mode.front {
						ClaimsSortingOrder::AscendingVars
					} else {
						ClaimsSortingOrder::DescendingVars
					};
					let mut o = verify_sumcheck_outputs(sort, &cl, &opt.challenges, o).map_err(s)?;
					for e in &mut out.multilinear_evals {
						e.pop();
					}
					if mode.front {
						o.challenges.reverse();
						out.challenges.reverse();
					}
					agree(&out, &o, mode, &sizes(said))
				});
				(Ok(()), Some(v))
			}

			fn zerocheck(claims: &[Claim], said: &[Claim], skip: usize) -> Answer<Reduced> {
				let backend = binius_hal::make_portable_backend();
				let mut t = PT::new();
				let max = claims.last().map_or(0, |c| c.n_vars);
				let out = (|| -> Result<_, String> {
					let ch: Vec<B128> = t.sample_vec(max - skip);
					let mut provers = vec![];
					for c in claims {
						let cl: Vec<_> = c
							.exprs
							.iter()
							.map(|e| {
								let p = ArithCircuitPoly::with_n_vars(
									c.data.len(),
									ArithCircuit::from(&convert(e)),
								)
								.unwrap();
								("zero".to_string(), p.clone(), p)
							})
							.collect();
						provers.push(
							ZerocheckProverImpl::<B8, BinaryField32b, Self::P, _, _, _, _, _>::new(
								c.polys::<Self>(),
								cl,
								&ch[max - c.n_vars.max(skip)..],
								IsomorphicEvaluationDomainFactory::<B8>::default(),
								&backend,
							)
							.map_err(s)?,
						);
					}
					sumcheck::prove::batch_prove_zerocheck::<B128, B8, Self::P, _, _>(provers, skip, &mut t)
						.map_err(s)
				})();
				let out = match out {
					Err(e) => return (Err(e), None),
					Ok(o) => o,
				};
				let v = other_side(t, |t| {
					let cl = said
						.iter()
						.map(|c| {
							ZerocheckClaim::<B128, _>::new(
								c.n_vars,
								c.data.len(),
								c.exprs.iter().map(|e| circuit(c.data.len(), e)).collect(),
							)
							.map_err(s)
						})
						.collect::<Result<Vec<_>, _>>()?;
					let o = sumcheck::batch_verify_zerocheck(&cl, skip, t).map_err(s)?;
					if !altered()
						&& (o.skipped_challenges != out.skipped_challenges
							|| o.unskipped_challenges != out.unskipped_challenges
							|| o.concat_multilinear_evals != out.concat_multilinear_evals)
					{
						return Err("parties disagree on the reduced claims".into());
					}
					let mut evals = &o.concat_multilinear_evals[..];
					let mut red = vec![];
					for c in said {
						let (a, b) = evals.split_at(c.data.len());
						evals = b;
						let sk = &o.skipped_challenges;
						let un = &o.unskipped_challenges;
						let point =
							[&sk[..c.n_vars.min(sk.len())], &un[(max - c.n_vars).min(un.len())..]].concat();
						red.push((point, a.to_vec()));
					}
					if !evals.is_empty() {
						return Err("more evaluations than multilinears".into());
					}
					Ok(red)
				});
				(Ok(()), Some(v))
			}

			fn gpa(order: EvaluationOrder, w: &[(usize, Vec<B128>)], prods: &[(usize, B128)]) -> Answer<Reduced> {
				let backend = binius_hal::make_portable_backend();
				let mut t = PT::new();
				let out = (|| -> Result<_, String> {
					let mut ws = vec![];
					let mut cl = vec![];
					for (n, v) in w {
						let g = GrandProductWitness::<Self::P>::new(*n, pack_ones(v)).map_err(s)?;
						cl.push(GrandProductClaim { n_vars: *n, product: g.grand_product_evaluation() });
						if g.grand_product_evaluation() != v.iter().copied().product::<B128>() {
							return Err("wrong-product: of the witness".into());
						}
						ws.push(g);
					}
					gkr_gpa::batch_prove::<B128, Self::P, B8, _, _>(
						order,
						ws,
						&cl,
						IsomorphicEvaluationDomainFactory::<B8>::default(),
						&mut t,
						&backend,
					)
					.map_err(s)
				})();
				let out = match out {
					Err(e) => return (Err(e), None),
					Ok(o) => o.final_layer_claims,
				};
				let v = other_side(t, |t| {
					let cl: Vec<_> = prods
						.iter()
						.map(|(n, p)| GrandProductClaim { n_vars: *n, product: *p })
						.collect();
					let o = gkr_gpa::batch_verify(order, cl, t).map_err(s)?;
					if !altered()
						&& (o.len() != out.len()
							|| o.iter().zip(&out).any(|(a, b)| a.eval_point != b.eval_point || a.eval != b.eval))
					{
						return Err("parties disagree on the reduced claims".into());
					}
					Ok(o.into_iter().map(|c| (c.eval_point, vec![c.eval])).collect())
				});
				(Ok(()), Some(v))
			}

			fn exp(order: EvaluationOrder, w: &[ExpCase], said: &[ExpClaim<B128>]) -> Answer<Vec<Reduced>> {
				let backend = binius_hal::make_portable_backend();
				let mut t = PT::new();
				let out = (|| -> Result<_, String> {
					let mut ws = vec![];
					for c in w {
						let bits: Vec<_> = (0..c.bits).map(|k| Self::poly(0, c.n_vars, &c.bit(k))).collect();
						let x = match &c.base {
							Ok(b) => BaseExpWitness::<Self::P>::new_with_static_base::<PackedType<$u, B128>>(bits, *b),
							Err(v) => {
								BaseExpWitness::<Self::P>::new_with_dynamic_base::<PackedType<$u, B128>>(
									bits,
									Self::poly(7, c.n_vars, v),
								)
							}
						}
						.map_err(s)?;
						let r = x.exponentiation_result_witness();
						for (i, v) in c.results().iter().enumerate() {
							if r.evaluate_on_hypercube(i).map_err(s)? != *v {
								return Err(format!("wrong-power: row {i}"));
							}
						}
						ws.push(x);
					}
					gkr_exp::batch_prove::<B128, Self::P, B8, _, _>(
						order,
						ws,
						said,
						DefaultEvaluationDomainFactory::<B8>::default(),
						&mut t,
						&backend,
					)
					.map_err(s)
				})();
				let out = match out {
					Err(e) => return (Err(e), None),
					Ok(o) => o.layers_claims,
				};
				let v = other_side(t, |t| {
					let o = gkr_exp::batch_verify(order, said, t).map_err(s)?.layers_claims;
					let same = o.len() == out.len()
						&& o.iter().zip(&out).all(|(a, b)| {
							a.len() == b.len()
								&& a.iter().zip(b).all(|(a, b)| a.eval == b.eval && a.eval_point == b.eval_point)
						});
					if !same && !altered() {
						return Err("parties disagree on the reduced claims".into());
					}
					Ok(o.into_iter()
						.map(|l| l.into_iter().map(|c| (c.eval_point, vec![c.eval])).collect())
						.collect())
				});
				(Ok(()), Some(v))
			}
		}
	};
}

wide!(W1, OptimalUnderlier128b);
wide!(W4, OptimalUnderlier512b);

/// Packed, a partly used last element filled up with ones.
fn pack_ones<P: PackedField<Scalar = B128>>(v: &[B128]) -> Vec<P> {
	(0..v.len().div_ceil(P::WIDTH))
		.map(|i| P::from_fn(|j| v.get(i * P::WIDTH + j).copied().unwrap_or(B128::ONE)))
		.collect()
}

fn agree(
	p: &BatchSumcheckOutput<B128>,
	v: &BatchSumcheckOutput<B128>,
	mode: Mode,
	sizes: &[usize],
) -> Result<Reduced, String> {
	if !altered() && (p.challenges != v.challenges || p.multilinear_evals != v.multilinear_evals) {
		return Err("parties disagree on the reduced claims".into());
	}
	Ok(points(mode, &v.challenges, sizes)
		.into_iter()
		.zip(v.multilinear_evals.clone())
		.collect())
}

/// Judges an answer: `truth` says whether all claims hold, `fine` whether all reduced claims hold.
fn judge<T: Send>(
	plan: &Plan,
	cx: &mut Cx,
	what: &str,
	truth: bool,
	run: impl Fn() -> Answer<T> + Send + Sync,
	fine: impl Fn(&T) -> bool,
) -> Verdict {
	let faults: Vec<&Fault> = plan.faults.iter().filter(|f| f.kind.contains("message")).collect();
	if faults.is_empty() || !truth {
		return judge_one(cx, what, truth, "claim", &run, &fine);
	}
	channel(vec![]);
	let r = judge_one(cx, what, truth, "claim", &run, &fine);
	let sent = channel_end();
	r?;
	if sent.common == 0 {
		return Ok(());
	}
	for f in faults {
		let (a, b) = (f.args[0], f.args[1]);
		let k = (a % sent.common as u64) as usize;
		let mut alter: Vec<(usize, u8)> = match b % 4 {
			_ if f.kind == "fitted message" => {
				if sent.lists.is_empty() {
					continue;
				}
				let (start, n) = sent.lists[(a % sent.lists.len() as u64) as usize];
				fitted(&mut Rng::new(b), &sent.sent[start..start + 16 * n])
					.into_iter()
					.enumerate()
					.map(|(i, m)| (start + i, m))
					.collect()
			}
			0 | 1 => vec![(k, 1 << (b / 4 % 8))],
			2 => vec![(k, (b >> 8) as u8 | 1)],
			_ => {
				let mut r = Rng::new(b);
				(k / 16 * 16..(k / 16 * 16 + 16).min(sent.common)).map(|i| (i, r.next() as u8)).collect()
			}
		};
		alter.retain(|x| x.1 != 0);
		if alter.is_empty() {
			continue;
		}
		let n = alter.len();
		channel(alter);
		let r = judge_one(cx, what, false, "message", &run, &fine);
		let c = channel_end();
		if !c.sent.is_empty() && c.applied != n {
			return Err("harness: alteration not applied".into());
		}
		cx.observe(&c.sent);
		cx.fired(&f.kind);
		r?;
	}
	Ok(())
}

fn judge_one<T: Send>(
	cx: &mut Cx,
	what: &str,
	truth: bool,
	kind: &str,
	run: &(impl Fn() -> Answer<T> + Send + Sync),
	fine: &impl Fn(&T) -> bool,
) -> Verdict {
	let r = cx.sim(run);
	let (p, v) = match r {
		Err(_) => {
			let p = take_panics();
			if truth {
				return Err(format!("panic: {what}: {p:?}"));
			}
			cx.count(&format!("prover gave up on a false {kind}"));
			return Ok(());
		}
		Ok(x) => x,
	};
	match p {
		Err(e) if truth => return Err(format!("prover-error: {what}: {e}")),
		Err(_) => {
			cx.count(&format!("prover gave up on a false {kind}"));
			return Ok(());
		}
		Ok(()) => {}
	}
	cx.nontrivial = true;
	match v.unwrap() {
		Err(e) if truth => Err(format!("rejected: {what}: {e}")),
		Err(e) if e.contains("disagree") || e.contains("differ") => {
			if truth {
				Err(format!("rejected: {what}: {e}"))
			} else {
				cx.count(&format!("false {kind} rejected"));
				Ok(())
			}
		}
		Err(_) => {
			cx.count(&format!("false {kind} rejected"));
			Ok(())
		}
		Ok(t) => match (truth, fine(&t)) {
			(true, true) => Ok(()),
			(true, false) => Err(format!("false-reduction: true claims of {what} reduced to a false one")),
			(false, false) => {
				cx.count(&format!("false {kind} led to a false claim"));
				Ok(())
			}
			(false, true) => Err(format!("accepted: false {kind} of {what} led to true claims")),
		},
	}
}

fn draw_common(plan: &mut Plan, r: &mut Rng, thorough: bool) {
	plan.set("shape", r.next());
	plan.set("wide", r.below(3).min(1));
	plan.set("claims", r.range(1, 4));
	plan.set("max", r.range(0, if thorough { 9 } else { 6 }));
	plan.set("high", r.below(2));
	plan.set("front", r.below(2));
	if r.chance(1, 2) {
		let k = *r.pick(&["false claim", "false claim", "cancelling claims", "other point"]);
		plan.faults.push(Fault::new(k, &[r.next()]));
	} else if r.chance(1, 2) {
		for _ in 0..r.range(1, if thorough { 6 } else { 3 }) {
			let k = if r.chance(1, 2) { "message" } else { "fitted message" };
			plan.faults.push(Fault::new(k, &[r.next(), r.next()]));
		}
	}
}

/// The fault of the claims, if any.
fn of_claims(plan: &Plan) -> Option<&Fault> {
	plan.faults.iter().find(|f| !f.kind.contains("message"))
}

fn floor_common(p: &str) -> Option<u64> {
	match p {
		"claims" => Some(1),
		"max" | "wide" | "high" | "front" | "skip" => Some(0),
		_ => None,
	}
}

fn order(plan: &Plan) -> EvaluationOrder {
	if plan.p("high") == 1 { EvaluationOrder::HighToLow } else { EvaluationOrder::LowToHigh }
}

fn draw_claims(plan: &Plan, r: &mut Rng, ascending: bool, levels: &[usize]) -> Vec<Claim> {
	let mut n: Vec<usize> = (0..plan.p("claims")).map(|_| r.usize(plan.p("max") as usize + 1)).collect();
	n.sort();
	if !ascending {
		n.reverse();
	}
	n.into_iter().map(|n| Claim::draw(r, n, levels)).collect()
}

/// Makes one sum false.
fn falsify(plan: &Plan, cx: &mut Cx, said: &mut [Claim]) -> bool {
	let Some(f) = of_claims(plan) else { return false };
	let mut r = Rng::new(f.args[0]);
	let k = r.usize(said.len());
	let j = r.usize(said[k].sums.len());
	let d = nonzero_elem(&mut r, 7);
	said[k].sums[j] += d;
	if f.kind == "cancelling claims" {
		// A second claim is false by the same amount, in the same group or another.
		let all: Vec<(usize, usize)> = (0..said.len())
			.flat_map(|k| (0..said[k].sums.len()).map(move |j| (k, j)))
			.filter(|x| *x != (k, j))
			.collect();
		if !all.is_empty() {
			let (k, j) = *r.pick(&all);
			said[k].sums[j] += d;
		}
	}
	cx.fired(&f.kind);
	true
}

fn good(claims: &[Claim], red: &Reduced) -> bool {
	claims.len() == red.len() && claims.iter().zip(red).all(|(c, (p, e))| c.true_evals(p, e))
}

const REAL: &str = "binius_core protocols, transcript, fiat_shamir; compute, fast_compute, hal, math, field, hash";

struct Sumcheck;

impl Scenario for Sumcheck {
	fn name(&self) -> &'static str {
		"sumcheck"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough)
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let mode = Mode { order: order(plan), front: plan.p("front") == 1 };
		let mut claims = draw_claims(plan, &mut r, mode.front, &[0, 3, 4, 5, 6, 7]);
		for c in &mut claims {
			c.exprs = (0..r.range(1, 3)).map(|_| expr(&mut r, c.data.len(), 4, 7)).collect();
			c.sums = c.exprs.iter().map(|e| c.sum(e, None)).collect();
		}
		cx.sample = claims.iter().map(Claim::describe).collect::<Vec<_>>().join("; ");
		cx.key = plan.p("shape");
		let mut said = claims.clone();
		let truth = !falsify(plan, cx, &mut said);
		let wide = plan.p("wide");
		judge(
			plan,
			cx,
			"sumcheck",
			truth,
			|| if wide == 0 { W1::sumcheck(mode, &said, &said) } else { W4::sumcheck(mode, &said, &said) },
			|red| good(&claims, red),
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct EqInd;

impl Scenario for EqInd {
	fn name(&self) -> &'static str {
		"eq_ind"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough)
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		// The two ways in which claims of several sizes share the suffix of the point.
		let mode = if plan.p("high") == 1 {
			Mode { order: EvaluationOrder::HighToLow, front: true }
		} else {
			Mode { order: EvaluationOrder::LowToHigh, front: false }
		};
		let mut claims = draw_claims(plan, &mut r, mode.front, &[0, 3, 4, 5, 6, 7]);
		let max = claims.iter().map(|c| c.n_vars).max().unwrap();
		let challenges: Vec<B128> = (0..max).map(|_| point_elem(&mut r)).collect();
		let mut opt = EqOpts { challenges, advice: vec![], partial: vec![], suffix: vec![], folded: vec![], other: None };
		for c in &mut claims {
			let suffix = if r.chance(1, 2) {
				Some(
					(0..c.data.len())
						.map(|k| {
							let n = r.usize((1 << c.n_vars) + 1);
							let v = match r.below(3) {
								0 => B128::ZERO,
								1 => B128::ONE,
								_ => elem(&mut r, c.level[k]),
							};
							let len = c.data[k].len();
							c.data[k][len - n..].fill(v);
							(v, n)
						})
						.collect(),
				)
			} else {
				None
			};
			opt.suffix.push(suffix);
			opt.advice.push(r.chance(1, 3));
			opt.partial.push(r.chance(1, 2));
			opt.folded.push(false);
			c.exprs = (0..r.range(1, 3)).map(|_| expr(&mut r, c.data.len(), 4, 7)).collect();
			let w = eq_expand(&opt.challenges[max - c.n_vars..]);
			c.sums = c.exprs.iter().map(|e| c.sum(e, Some(&w))).collect();
		}
		cx.sample = claims.iter().map(Claim::describe).collect::<Vec<_>>().join("; ");
		cx.key = plan.p("shape");
		let mut said = claims.clone();
		let mut truth = true;
		match of_claims(plan) {
			Some(f) if f.kind == "other point" => {
				// Proved at another point: the sums said are those there.
				let mut r = Rng::new(f.args[0]);
				let k = r.usize(said.len());
				let n = said[k].n_vars;
				if n > 0 {
					let mut p = opt.challenges[max - n..].to_vec();
					let i = r.usize(n);
					p[i] += nonzero_elem(&mut r, 7);
					let w = eq_expand(&p);
					said[k].sums = said[k].exprs.iter().map(|e| said[k].sum(e, Some(&w))).collect();
					truth = said[k].sums == claims[k].sums;
					opt.other = Some((k, p));
					if !truth {
						cx.fired("other point");
					}
				}
			}
			_ => truth = !falsify(plan, cx, &mut said),
		}
		// With sums that agree at both points, the answer may be either.
		let open = truth && opt.other.is_some();
		if open {
			return Ok(());
		}
		let wide = plan.p("wide");
		judge(
			plan,
			cx,
			"equality-indicator sumcheck",
			truth,
			|| if wide == 0 { W1::eq_ind(mode, &said, &said, &opt) } else { W4::eq_ind(mode, &said, &said, &opt) },
			|red| good(&claims, red),
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct Zerocheck;

impl Scenario for Zerocheck {
	fn name(&self) -> &'static str {
		"zerocheck"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough);
		let m = plan.p("max");
		plan.set("skip", r.below(m.min(6) + 1));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let mut claims = draw_claims(plan, &mut r, true, &[0, 3, 4, 5]);
		for c in &mut claims {
			let n = c.data.len();
			for k in 0..r.range(1, 3) as usize {
				let e = expr(&mut r, n, 4, 3);
				// A multilinear that equals it.
				let d: Vec<B128> = (0..1 << c.n_vars).map(|i| c.row(&e, i)).collect();
				let l = expr_level(&e, &|v| c.level[v]);
				c.data.push(d);
				c.level.push(l);
				c.exprs.push(e + Expr::Var(n + k));
			}
			c.exprs.retain(|e| vsim::sys::circuit_degree(e) >= 1);
			c.sums = vec![B128::ZERO; c.exprs.len()];
		}
		if claims.iter().any(|c| c.exprs.is_empty()) {
			return Ok(());
		}
		let max = claims.last().unwrap().n_vars;
		let skip = (plan.p("skip") as usize).min(max);
		cx.sample = format!("skip {skip}: ") + &claims.iter().map(Claim::describe).collect::<Vec<_>>().join("; ");
		cx.key = plan.p("shape");
		let mut truth = true;
		if let Some(f) = of_claims(plan) {
			let mut r = Rng::new(f.args[0]);
			let k = r.usize(claims.len());
			let c = &mut claims[k];
			let j = r.usize(c.data.len());
			let i = r.usize(c.data[j].len());
			let d = nonzero_elem(&mut r, c.level[j]);
			c.data[j][i] += d;
			if f.kind == "cancelling claims" {
				// Another column is off by the same amount in the same row.
				let others: Vec<usize> =
					(0..c.data.len()).filter(|k| *k != j && c.level[*k] >= c.level[j]).collect();
				if !others.is_empty() {
					c.data[*r.pick(&others)][i] += d;
				}
			}
			truth = claims
				.iter()
				.all(|c| c.exprs.iter().all(|e| (0..1 << c.n_vars).all(|i| c.row(e, i) == B128::ZERO)));
			if !truth {
				cx.fired("false claim");
			}
		}
		let wide = plan.p("wide");
		judge(
			plan,
			cx,
			"zerocheck",
			truth,
			|| if wide == 0 { W1::zerocheck(&claims, &claims, skip) } else { W4::zerocheck(&claims, &claims, skip) },
			|red| good(&claims, red),
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct Gpa;

impl Scenario for Gpa {
	fn name(&self) -> &'static str {
		"grand_product"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough)
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let wide = plan.p("wide");
		let w: Vec<(usize, Vec<B128>)> = (0..plan.p("claims"))
			.map(|_| {
				let n = r.usize(plan.p("max") as usize + 1);
				// Missing values at the end count as ones.
				let len = if r.chance(1, 2) { 1 << n } else { r.usize((1 << n) + 1) };
				let zeros = r.chance(1, 8);
				(
					n,
					(0..len)
						.map(|_| if zeros && r.chance(1, 8) { B128::ZERO } else { point_elem(&mut r) })
						.map(|x| if x == B128::ZERO && !zeros { B128::ONE } else { x })
						.collect(),
				)
			})
			.collect();
		let full: Vec<Vec<B128>> = w
			.iter()
			.map(|(n, v)| {
				let mut v = v.clone();
				v.resize(1 << n, B128::ONE);
				v
			})
			.collect();
		let mut prods: Vec<(usize, B128)> = w.iter().map(|(n, v)| (*n, v.iter().copied().product())).collect();
		let mut truth = true;
		if let Some(f) = of_claims(plan) {
			let mut r = Rng::new(f.args[0]);
			let k = r.usize(prods.len());
			let d = nonzero_elem(&mut r, 7);
			prods[k].1 += d;
			if f.kind == "cancelling claims" && prods.len() > 1 {
				let n = prods.len();
				prods[(k + 1 + r.usize(n - 1)) % n].1 += d;
			}
			truth = false;
			cx.fired("false claim");
		}
		cx.sample = format!("{:?}", w.iter().map(|(n, v)| (*n, v.len())).collect::<Vec<_>>());
		cx.key = plan.p("shape");
		let order = order(plan);
		judge(
			plan,
			cx,
			"grand product",
			truth,
			|| if wide == 0 { W1::gpa(order, &w, &prods) } else { W4::gpa(order, &w, &prods) },
			|red| {
				red.len() == full.len()
					&& red
						.iter()
						.zip(&full)
						.all(|((p, e), v)| v.len() == 1 << p.len() && eval_at(v, p) == e[0])
			},
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct Exp;

impl Scenario for Exp {
	fn name(&self) -> &'static str {
		"exponentiation"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough);
		plan.set("points", r.range(1, 2));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let wide = plan.p("wide");
		let mut n: Vec<usize> = (0..plan.p("claims")).map(|_| r.usize(plan.p("max") as usize + 1)).collect();
		n.sort();
		n.reverse();
		let w: Vec<ExpCase> = n
			.iter()
			.map(|n| {
				let bits = *r.pick(&[1, 2, 3, 5, 8, 16, 33, 64]);
				let base = if r.chance(1, 2) {
					Ok(loop {
						let b = nonzero_elem(&mut r, 7);
						if b != B128::ONE {
							break b;
						}
					})
				} else {
					Err((0..1 << n).map(|_| point_elem(&mut r)).collect())
				};
				let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
				ExpCase {
					n_vars: *n,
					exps: (0..1 << n)
						.map(|_| match r.below(6) {
							0 => 0,
							1 => m,
							_ => r.next() & m,
						})
						.collect(),
					bits,
					base,
				}
			})
			.collect();
		// Claims that share a point come one after the other; the points are prefixes of common ones.
		let pts: Vec<Vec<B128>> = (0..plan.p("points"))
			.map(|_| (0..n[0]).map(|_| B128::new(r.u128())).collect())
			.collect();
		let mut said: Vec<ExpClaim<B128>> = w
			.iter()
			.map(|c| {
				let p = r.pick(&pts)[..c.n_vars].to_vec();
				ExpClaim {
					eval: eval_at(&c.results(), &p),
					eval_point: p,
					exponent_bit_width: c.bits,
					n_vars: c.n_vars,
					static_base: c.base.clone().ok(),
				}
			})
			.collect();
		let mut truth = true;
		if let Some(f) = of_claims(plan) {
			let mut r = Rng::new(f.args[0]);
			let k = r.usize(said.len());
			let d = nonzero_elem(&mut r, 7);
			said[k].eval += d;
			if f.kind == "cancelling claims" && said.len() > 1 {
				let n = said.len();
				said[(k + 1 + r.usize(n - 1)) % n].eval += d;
			}
			truth = false;
			cx.fired("false claim");
		}
		cx.sample = format!("{:?}", w.iter().map(|c| (c.n_vars, c.bits, c.base.is_ok())).collect::<Vec<_>>());
		cx.key = plan.p("shape");
		let order = order(plan);
		judge(
			plan,
			cx,
			"exponentiation",
			truth,
			|| if wide == 0 { W1::exp(order, &w, &said) } else { W4::exp(order, &w, &said) },
			|layers| {
				for (l, red) in layers.iter().enumerate() {
					let mut it = red.iter();
					for c in w.iter().filter(|c| c.bits > l) {
						let Some((p, e)) = it.next() else { return false };
						let bit = if c.base.is_ok() { c.bits - 1 - l } else { l };
						if p.len() != c.n_vars || eval_at(&c.bit(bit), p) != e[0] {
							return false;
						}
						if let Err(b) = &c.base {
							let Some((p, e)) = it.next() else { return false };
							if p.len() != c.n_vars || eval_at(b, p) != e[0] {
								return false;
							}
						}
					}
					if it.next().is_some() {
						return false;
					}
				}
				layers.len() == w.iter().map(|c| c.bits).max().unwrap()
			},
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

/// Products of pairs, on a compute layer.
struct Device;

type Pair = IndexComposition<BivariateProduct, 2>;

fn device<Hal: ComputeLayer<B128>, H: ComputeHolder<B128, Hal>>(
	mut holder: H,
	mle_check: bool,
	claims: &[Claim],
	pairs: &[Vec<[usize; 2]>],
	challenges: &[B128],
) -> Answer<Reduced> {
	let mode = Mode { order: EvaluationOrder::HighToLow, front: true };
	let comp = |k: usize| -> Vec<CompositeSumClaim<B128, Pair>> {
		pairs[k]
			.iter()
			.zip(&claims[k].sums)
			.map(|(p, sum)| CompositeSumClaim {
				composition: IndexComposition::new(claims[k].data.len(), *p, BivariateProduct::default()).unwrap(),
				sum: *sum,
			})
			.collect()
	};
	let max = challenges.len();
	let mut t = PT::new();
	let ComputeData { hal, mut dev_alloc, mut host_alloc, .. } = holder.to_data();
	let host_alloc = host_alloc.subscope_allocator();
	let dev_alloc = dev_alloc.subscope_allocator();
	let out = (|| -> Result<_, String> {
		let mut up = vec![];
		for c in claims {
			let mut v = vec![];
			for d in &c.data {
				let mut b = dev_alloc.alloc(d.len()).map_err(s)?;
				hal.copy_h2d(d, &mut b).map_err(s)?;
				v.push(Hal::DevMem::to_const(b));
			}
			up.push(v);
		}
		if mle_check {
			let mut eqs = vec![];
			for c in claims {
				let p = &challenges[max - c.n_vars..];
				let e = eq_ind_partial_eval(hal, &dev_alloc, &p[..c.n_vars.saturating_sub(1)]).map_err(s)?;
				eqs.push(Some(Hal::DevMem::to_const(e)));
			}
			let mut provers = vec![];
			for (k, c) in claims.iter().enumerate() {
				let p = &challenges[max - c.n_vars..];
				let cl = EqIndSumcheckClaim::new(c.n_vars, c.data.len(), comp(k)).map_err(s)?;
				provers.push(
					BivariateMLEcheckProver::new(
						hal,
						&dev_alloc,
						&host_alloc,
						&cl,
						std::mem::take(&mut up[k]),
						eqs[k].take().unwrap(),
						p.to_vec(),
					)
					.map_err(s)?,
				);
			}
			BatchProver::new(provers, &mut t).map_err(s)?.run(&mut t).map_err(s)
		} else {
			let mut provers = vec![];
			for (k, c) in claims.iter().enumerate() {
				let cl = SumcheckClaim::new(c.n_vars, c.data.len(), comp(k)).map_err(s)?;
				provers.push(
					BivariateSumcheckProver::new(hal, &dev_alloc, &host_alloc, &cl, std::mem::take(&mut up[k]))
						.map_err(s)?,
				);
			}
			BatchProver::new(provers, &mut t).map_err(s)?.run(&mut t).map_err(s)
		}
	})();
	let mut out = match out {
		Err(e) => return (Err(e), None),
		Ok(o) => o,
	};
	let v = other_side(t, |t| {
		let mut o = if mle_check {
			let cl = (0..claims.len())
				.map(|k| EqIndSumcheckClaim::new(claims[k].n_vars, claims[k].data.len(), comp(k)).map_err(s))
				.collect::<Result<Vec<_>, _>>()?;
			let reg = reduce_to_regular_sumchecks(&cl).map_err(s)?;
			let mut o = BatchVerifier::new(&reg, t).map_err(s)?.run(t).map_err(s)?;
			o.challenges.reverse();
			for e in &mut out.multilinear_evals {
				e.pop();
			}
			let mut o = verify_sumcheck_outputs(ClaimsSortingOrder::AscendingVars, &cl, challenges, o).map_err(s)?;
			o.challenges.reverse();
			o
		} else {
			let cl = (0..claims.len())
				.map(|k| SumcheckClaim::new(claims[k].n_vars, claims[k].data.len(), comp(k)).map_err(s))
				.collect::<Result<Vec<_>, _>>()?;
			BatchVerifier::new(&cl, t).map_err(s)?.run(t).map_err(s)?
		};
		let _ = &mut o;
		agree(&out, &o, mode, &sizes(claims))
	});
	(Ok(()), Some(v))
}

impl Scenario for Device {
	fn name(&self) -> &'static str {
		"device_products"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough);
		plan.set("layer", r.below(3));
		plan.set("mle", r.below(2));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let mut claims = draw_claims(plan, &mut r, true, &[7]);
		let max = claims.last().unwrap().n_vars;
		let challenges: Vec<B128> = (0..max).map(|_| point_elem(&mut r)).collect();
		let mle_check = plan.p("mle") == 1;
		let mut pairs = vec![];
		for c in &mut claims {
			let n = c.data.len();
			let p: Vec<[usize; 2]> = (0..r.range(1, 4)).map(|_| [r.usize(n), r.usize(n)]).collect();
			c.exprs = p.iter().map(|[a, b]| Expr::Var(*a) * Expr::Var(*b)).collect();
			let w = eq_expand(&challenges[max - c.n_vars..]);
			c.sums = c.exprs.iter().map(|e| c.sum(e, mle_check.then_some(&w[..]))).collect();
			pairs.push(p);
		}
		cx.sample = claims.iter().map(Claim::describe).collect::<Vec<_>>().join("; ");
		cx.key = plan.p("shape");
		let mut said = claims.clone();
		let truth = !falsify(plan, cx, &mut said);
		let layer = plan.p("layer");
		let (h, d) = (1 << 14, 1 << 15);
		judge(
			plan,
			cx,
			if mle_check { "device MLE-check" } else { "device sumcheck" },
			truth,
			|| match layer {
				0 => device(CpuLayerHolder::<B128>::new(h, d), mle_check, &said, &pairs, &challenges),
				1 => device(
					FastCpuLayerHolder::<CanonicalTowerFamily, PackedType<OptimalUnderlier128b, B128>>::new(h, d),
					mle_check,
					&said,
					&pairs,
					&challenges,
				),
				_ => device(
					FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(h, d),
					mle_check,
					&said,
					&pairs,
					&challenges,
				),
			},
			|red| good(&claims, red),
		)
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

/// The last step of the reductions: stripping off and checking the evaluation of the known multilinear.
struct Outputs;

const OUTPUT_KINDS: [&str; 6] =
	["wrong evaluation", "evaluation missing", "evaluation too many", "challenge missing", "claim missing", "order"];

impl Scenario for Outputs {
	fn name(&self) -> &'static str {
		"outputs"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_common(plan, r, thorough);
		plan.set("skip", r.below(if thorough { 8 } else { 6 }));
		plan.faults.clear();
		if r.chance(3, 4) {
			let k = *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]);
			plan.faults.push(Fault::new(OUTPUT_KINDS[k], &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		floor_common(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let asc = plan.p("front") == 1;
		cx.key = plan.p("shape");
		cx.nontrivial = true;
		let fault = plan.faults.first().map(|f| f.kind.clone());
		let mut fr = Rng::new(plan.faults.first().map_or(0, |f| f.args[0]));
		// Equality indicators of claims of several sizes, at suffixes of the point.
		let mut n: Vec<(usize, usize)> =
			(0..plan.p("claims")).map(|_| (r.usize(plan.p("max") as usize + 1), r.usize(4))).collect();
		n.sort();
		if !asc {
			n.reverse();
		}
		let max = n.iter().map(|x| x.0).max().unwrap();
		let point = |r: &mut Rng, n: usize| -> Vec<B128> { (0..n).map(|_| point_elem(r)).collect() };
		let (mut a, b) = (point(&mut r, max), point(&mut r, max));
		let right: Vec<Vec<B128>> = n
			.iter()
			.map(|(n, m)| {
				let mut v: Vec<B128> = (0..*m).map(|_| elem(&mut r, 7)).collect();
				v.push((max - n..max).map(|i| a[i] * b[i] + (a[i] + B128::ONE) * (b[i] + B128::ONE)).product());
				v
			})
			.collect();
		cx.sample = format!("{n:?} ascending {asc}");
		let mut evals = right.clone();
		let mut wrong = false;
		let mut sizes = n.clone();
		let k = fr.usize(n.len());
		match fault.as_deref() {
			Some("wrong evaluation") => {
				*evals[k].last_mut().unwrap() += nonzero_elem(&mut fr, 7);
				wrong = true;
			}
			Some("evaluation missing") => {
				evals[k].pop();
				wrong = true;
			}
			Some("evaluation too many") => {
				let x = *evals[k].last().unwrap();
				evals[k].push(x);
				wrong = true;
			}
			Some("challenge missing") => wrong = a.pop().is_some(),
			Some("claim missing") => {
				evals.remove(k);
				wrong = true;
			}
			Some("order") => {
				let j = fr.usize(n.len());
				wrong = sizes[k].0 != sizes[j].0;
				sizes.swap(k, j);
				evals.swap(k, j);
			}
			_ => {}
		}
		let cl: Vec<EqIndSumcheckClaim<B128, IndexComposition<BivariateProduct, 2>>> =
			sizes.iter().map(|(n, m)| EqIndSumcheckClaim::new(*n, *m, vec![]).unwrap()).collect();
		let sort = if asc { ClaimsSortingOrder::AscendingVars } else { ClaimsSortingOrder::DescendingVars };
		let given = BatchSumcheckOutput { challenges: a.clone(), multilinear_evals: evals };
		let out = cx.sim(|| verify_sumcheck_outputs(sort, &cl, &b, given).map_err(s));
		let what = "outputs of an equality-indicator sumcheck";
		match (out, wrong) {
			(Err(_), _) => return Err(format!("panic: {what} with {fault:?}: {:?}", take_panics())),
			(Ok(Err(e)), false) => return Err(format!("rejected: {what}: {e}")),
			(Ok(Ok(_)), true) => return Err(format!("accepted: {what} with {fault:?}")),
			(Ok(Err(_)), true) => cx.fired(fault.as_deref().unwrap()),
			(Ok(Ok(o)), false) => {
				if fault.is_none()
					&& (o.challenges != a
						|| o.multilinear_evals.len() != right.len()
						|| o.multilinear_evals.iter().zip(&right).any(|(x, y)| x[..] != y[..y.len() - 1]))
				{
					return Err(format!("wrong: {what} are not those given"));
				}
			}
		}
		// The Lagrange basis at the univariate challenge.
		let skip = plan.p("skip") as usize;
		let z = point_elem(&mut r);
		let dom: Vec<B128> = (0..1u128 << skip).map(B128::new).collect();
		let lag: Vec<B128> = dom
			.iter()
			.map(|x| {
				dom.iter()
					.filter(|y| *y != x)
					.map(|y| (z + *y) * (*x + *y).invert().unwrap())
					.product()
			})
			.collect();
		let m = r.usize(5);
		let uni: Vec<B128> = (0..m).map(|_| elem(&mut r, 7)).collect();
		let mut ch = point(&mut r, skip);
		let mut evals: Vec<B128> = (0..m).map(|_| elem(&mut r, 7)).collect();
		let right = evals.clone();
		evals.push(eval_at(&lag, &ch));
		let mut all = vec![];
		let mut wrong = false;
		match fault.as_deref() {
			Some("wrong evaluation") => {
				*evals.last_mut().unwrap() += nonzero_elem(&mut fr, 7);
				wrong = true;
			}
			Some("challenge missing") => wrong = ch.pop().is_some(),
			Some("claim missing") => wrong = true,
			_ => {}
		}
		if fault.as_deref() != Some("claim missing") {
			all.push(evals);
		}
		let claim = univariatizing_reduction_claim(skip, &[uni]).map_err(|e| format!("error: reduction claim: {e}"))?;
		let given = BatchSumcheckOutput { challenges: ch, multilinear_evals: all };
		let out = cx.sim(|| verify_reduction_sumcheck_output(&claim, skip, z, given).map_err(s));
		let what = format!("outputs of the reduction of {skip} skipped rounds");
		match (out, wrong) {
			(Err(_), _) => Err(format!("panic: {what} with {fault:?}: {:?}", take_panics())),
			(Ok(Err(e)), false) => Err(format!("rejected: {what}: {e}")),
			(Ok(Ok(_)), true) => Err(format!("accepted: {what} with {fault:?}")),
			(Ok(Ok(o)), false) if o.multilinear_evals != vec![right] => Err(format!("wrong: {what} are not those given")),
			_ => Ok(()),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

/// The reduction of claims on virtual columns, with a prover that answers as it likes.
struct Evalcheck;

type EClaim = EvalcheckMultilinearClaim<B128>;

/// A prover of the reduction written from the verifier's questions, which deviates now and then.
struct Forger<'a> {
	oracles: &'a MultilinearOracleSet<B128>,
	data: &'a Data,
	t: PT,
	/// Claims of this round, as the verifier lists them, and points of the composite columns.
	round: Vec<EClaim>,
	stale: usize,
	spots: Vec<Vec<B128>>,
	r: Rng,
	/// How many deviations are left, and which have happened.
	lies: u64,
	told: Vec<&'static str>,
	/// A claim of this round to stand in for the column's own at the point asked for.
	borrow: Option<(OracleId, Vec<B128>)>,
}

impl Forger<'_> {
	fn lie(&mut self) -> bool {
		let l = self.lies > 0 && self.r.chance(1, 3);
		self.lies -= u64::from(l);
		l
	}

	fn hint(&mut self, h: EvalcheckHint) {
		serialize_evalcheck_proof(&mut self.t.message(), &h);
	}

	/// An earlier claim that resembles this one.
	fn alike(&mut self, id: OracleId, p: &[B128]) -> Option<u32> {
		let n = self.round.len();
		let close: Vec<usize> = (0..n)
			.filter(|i| {
				let c = &self.round[*i];
				match self.r.below(4) {
					0 => c.id == id && c.eval_point[..] == *p,
					1 => c.id == id,
					2 => c.eval_point[..] == *p,
					_ => c.eval_point.len() == p.len(),
				}
			})
			.collect();
		if !close.is_empty() {
			return Some(*self.r.pick(&close) as u32);
		}
		let all = n.max(self.stale) + 2;
		Some(self.r.usize(all) as u32)
	}

	/// The listed claim to borrow, if it is this column's turn.
	fn borrowed(&mut self, id: OracleId) -> Option<usize> {
		let (b, q) = self.borrow.as_ref()?;
		if *b != id {
			return None;
		}
		let i = self.round.iter().position(|c| c.id == id && c.eval_point[..] == q[..])?;
		self.borrow = None;
		self.told.push("borrowed evaluation");
		Some(i)
	}

	fn claim(&mut self, id: OracleId, p: Vec<B128>, e: B128) {
		let composite = matches!(self.oracles[id].variant, MultilinearPolyVariant::Composite(_));
		if self.borrow.is_some() && !(composite && self.r.chance(2, 3)) {
			if let Some(i) = self.borrowed(id) {
				self.hint(EvalcheckHint::DuplicateClaim(i as u32));
				return;
			}
		}
		let same = self.round.iter().position(|c| c.id == id && c.eval_point[..] == p[..] && c.eval == e);
		if same.is_none() && self.r.chance(1, 3) && self.lie() {
			if let Some(i) = self.alike(id, &p) {
				self.told.push("false duplicate");
				self.hint(EvalcheckHint::DuplicateClaim(i));
				return;
			}
		}
		match same {
			Some(i) if self.r.chance(3, 4) => self.hint(EvalcheckHint::DuplicateClaim(i as u32)),
			_ => {
				self.hint(EvalcheckHint::NewClaim);
				self.body(id, p, e);
			}
		}
	}

	fn body(&mut self, id: OracleId, p: Vec<B128>, e: B128) {
		self.round.push(EClaim { id, eval_point: p.clone().into(), eval: e });
		match self.oracles[id].variant.clone() {
			MultilinearPolyVariant::Repeating { id, log_count } => self.claim(id, p[..p.len() - log_count].to_vec(), e),
			MultilinearPolyVariant::Projected(j) => {
				let mut q = p[..j.start_index()].to_vec();
				q.extend(j.values());
				q.extend(&p[j.start_index()..]);
				self.claim(j.id(), q, e)
			}
			MultilinearPolyVariant::ZeroPadded(z) => {
				let (a, b) = (z.start_index(), z.start_index() + z.n_pad_vars());
				let term = eq_expand(&p[a..b])[z.nonzero_index()];
				let Some(i) = term.invert() else { return };
				let mut q = p[..a].to_vec();
				q.extend(&p[b..]);
				self.claim(z.id(), q, e * i)
			}
			MultilinearPolyVariant::LinearCombination(l) => {
				let terms: Vec<(OracleId, B128)> = l.polys().zip(l.coefficients()).collect();
				let mut sum = l.offset();
				for (k, (id, c)) in terms.iter().enumerate() {
					let known = self.round.iter().position(|c| c.id == *id && c.eval_point[..] == p[..]);
					// A prover with a false claim makes the last terms fit.
					let fit = (k + 1 == terms.len() && sum + *c * self.value(*id, &p) != e)
						.then(|| c.invert().map(|i| (e + sum) * i))
						.flatten();
					let v = if let Some(i) = self.borrowed(*id) {
						self.hint(EvalcheckHint::DuplicateClaim(i as u32));
						self.round[i].eval
					} else if self.lie() {
						if self.r.chance(1, 2) {
							let i = self.alike(*id, &p).unwrap();
							self.told.push("false duplicate");
							self.hint(EvalcheckHint::DuplicateClaim(i));
							self.round.get(i as usize).map_or(B128::ZERO, |c| c.eval)
						} else {
							self.told.push("false term");
							let v = self.value(*id, &p) + nonzero_elem(&mut self.r, 7);
							self.fresh(*id, &p, v)
						}
					} else if let Some(v) = fit {
						match known {
							Some(i) if self.round[i].eval == v => {
								self.hint(EvalcheckHint::DuplicateClaim(i as u32));
								v
							}
							_ => self.fresh(*id, &p, v),
						}
					} else {
						match known {
							Some(i) if self.r.chance(3, 4) => {
								self.hint(EvalcheckHint::DuplicateClaim(i as u32));
								self.round[i].eval
							}
							_ => {
								let v = self.value(*id, &p);
								self.fresh(*id, &p, v)
							}
						}
					};
					sum += *c * v;
				}
			}
			MultilinearPolyVariant::Composite(_) => {
				let right = self.spots.iter().position(|x| *x == p);
				let mut at = right.unwrap_or(self.spots.len());
				let q = self.borrow.as_ref().map(|b| b.1.clone());
				if self.borrowed(id).is_some() {
					at = q.and_then(|q| self.spots.iter().position(|x| *x == q)).unwrap_or(at);
				} else if self.lie() {
					at = self.r.usize(self.spots.len() + 3);
					if Some(at) != right {
						self.told.push("other position");
					}
				}
				if at == self.spots.len() {
					self.spots.push(p);
				}
				self.t.message().write(&(at as u32));
			}
			_ => {}
		}
	}

	fn fresh(&mut self, id: OracleId, p: &[B128], v: B128) -> B128 {
		self.hint(EvalcheckHint::NewClaim);
		self.t.message().write_scalar(v);
		self.body(id, p.to_vec(), v);
		v
	}

	fn value(&self, id: OracleId, p: &[B128]) -> B128 {
		eval_at(&self.data[id.index()], p)
	}
}

/// The values of a column, also of those the reduction has added.
fn dense(o: &MultilinearOracleSet<B128>, d: &Data, id: OracleId) -> Result<Vec<B128>, String> {
	if id.index() < d.len() {
		return Ok(d[id.index()].clone());
	}
	let n = o.n_vars(id);
	let corner = |i: usize, n: usize| -> Vec<B128> {
		(0..n).map(|j| if i >> j & 1 == 1 { B128::ONE } else { B128::ZERO }).collect()
	};
	match &o[id].variant {
		MultilinearPolyVariant::Projected(p) => {
			let inner = dense(o, d, p.id())?;
			let (st, k) = (p.start_index(), p.values().len());
			let w = eq_expand(p.values());
			Ok((0..1usize << n)
				.map(|i| {
					let (lo, hi) = (i & ((1 << st) - 1), i >> st);
					w.iter().enumerate().map(|(m, w)| *w * inner[lo | m << st | hi << (st + k)]).sum()
				})
				.collect())
		}
		MultilinearPolyVariant::Transparent(t) => {
			(0..1usize << n).map(|i| t.poly().evaluate(&corner(i, n)).map_err(s)).collect()
		}
		v => Err(format!("unexpected new column {v:?}")),
	}
}

/// Whether the sums hold, weighted with the equality indicator at a point if there is one.
fn sums_hold(
	o: &MultilinearOracleSet<B128>,
	d: &Data,
	set: &SizedConstraintSet<B128>,
	at: Option<&[B128]>,
) -> Result<bool, String> {
	let cols = set.oracle_ids.iter().map(|id| dense(o, d, *id)).collect::<Result<Vec<_>, _>>()?;
	let n = cols.first().map_or(0, |c| c.len());
	let w = at.map(eq_expand);
	if cols.iter().any(|c| c.len() != n) || w.as_ref().is_some_and(|w| w.len() != n) || n != 1 << set.n_vars {
		return Err("columns of one set differ in size".into());
	}
	let mut ok = true;
	for c in &set.constraints {
		let ConstraintPredicate::Sum(want) = c.predicate else {
			return Err("a zero constraint".into());
		};
		let mut sum = B128::ZERO;
		for i in 0..n {
			let q: Vec<B128> = cols.iter().map(|c| c[i]).collect();
			let v = c.composition.evaluate(&q).map_err(s)?;
			sum += w.as_ref().map_or(v, |w| w[i] * v);
		}
		ok &= sum == want;
	}
	Ok(ok)
}

impl Scenario for Evalcheck {
	fn name(&self) -> &'static str {
		"evalcheck"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("cols", r.range(1, 12));
		plan.set("max", r.range(0, if thorough { 6 } else { 4 }));
		plan.set("claims", r.range(1, 8));
		plan.set("rounds", r.range(1, 3));
		plan.set("real", r.below(2));
		if r.chance(2, 3) {
			let k = *r.pick(&["false claim", "lies", "lies", "lies and false claim", "altered byte", "borrowed evaluation"]);
			plan.faults.push(Fault::new(k, &[r.next(), r.range(1, 4)]));
			plan.set("real", 0);
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"claims" | "cols" | "rounds" => Some(1),
			"max" => Some(0),
			_ => None,
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let shape = Shape {
			tables: 1 + r.usize(2),
			max_log: plan.p("max") as usize,
			cols: plan.p("cols") as usize,
			flushes: 0,
			exps: 0,
			nonzero: 0,
			zero_tables: false,
			max_lvpr: 3,
		};
		let sys = Sys::draw(&mut r, &shape);
		let data = sys.fill(&mut r);
		cx.key = plan.p("shape");
		let cs = sys.build();
		let sizes = sys.table_sizes();
		let base = cs.oracles.instantiate(&sizes).map_err(|e| format!("error: oracle set: {e}"))?;
		if sys.cols.iter().any(|c| matches!(c.kind, vsim::sys::Kind::Structured { .. })) {
			cx.count("structured columns");
		}
		// Points that claims share, or that share their last coordinates.
		let pool: Vec<B128> = (0..24).map(|_| point_elem(&mut r)).collect();
		let pool2: Vec<B128> = (0..24).map(|i| if i % 3 == 0 { point_elem(&mut r) } else { pool[i] }).collect();
		let mut rounds: Vec<Vec<EClaim>> = vec![];
		let ids: Vec<usize> = (0..data.len()).filter(|c| sys.alive(*c) && sys.n_vars(*c) <= 10).collect();
		if ids.is_empty() {
			return Ok(());
		}
		for _ in 0..plan.p("rounds") {
			let mut v: Vec<EClaim> = vec![];
			for _ in 0..plan.p("claims") {
				let c = *r.pick(&ids);
				let n = sys.n_vars(c);
				let from = if r.chance(2, 3) { &pool } else { &pool2 };
				let p = if r.chance(1, 2) { from[..n].to_vec() } else { from[from.len() - n..].to_vec() };
				let e = eval_at(&data[c], &p);
				v.push(EClaim { id: OracleId::from_index(c), eval_point: p.into(), eval: e });
			}
			rounds.push(v);
		}
		cx.nontrivial = true;
		let fault = plan.faults.first();
		let kind = fault.map_or("", |f| &f.kind);
		let mut fr = Rng::new(fault.map_or(0, |f| f.args[0]));
		let mut truth = true;
		if kind.contains("false claim") {
			let i = fr.usize(rounds.len());
			let j = fr.usize(rounds[i].len());
			rounds[i][j].eval += nonzero_elem(&mut fr, 7);
			if fr.chance(1, 2) {
				// The same claim again, rightly.
				let mut c = rounds[i][j].clone();
				c.eval = eval_at(&data[c.id.index()], &c.eval_point);
				let at = fr.usize(rounds[i].len() + 1);
				rounds[i].insert(at, c);
			}
			truth = false;
		}
		// A false claim whose evaluation is right for the same column at another point, which is claimed too.
		let mut borrow = None;
		if kind == "borrowed evaluation" {
			let combined: Vec<usize> = ids
				.iter()
				.copied()
				.filter(|c| {
					let v = &base[OracleId::from_index(*c)].variant;
					matches!(v, MultilinearPolyVariant::LinearCombination(_) | MultilinearPolyVariant::Composite(_))
				})
				.collect();
			let x = if !combined.is_empty() && fr.chance(2, 3) { *fr.pick(&combined) } else { *fr.pick(&ids) };
			let n = sys.n_vars(x);
			let q: Vec<B128> = pool[..n].to_vec();
			let mut p = q.clone();
			for c in &mut p {
				if fr.chance(1, 2) {
					*c += nonzero_elem(&mut fr, 7);
				}
			}
			let xid = OracleId::from_index(x);
			let mut from = xid;
			let mut e = eval_at(&data[x], &q);
			if let MultilinearPolyVariant::LinearCombination(l) = &base[xid].variant {
				let terms: Vec<(OracleId, B128)> = l.polys().zip(l.coefficients()).collect();
				if !terms.is_empty() && fr.chance(3, 4) {
					from = fr.pick(&terms).0;
					cx.count("borrowed term");
					let at = |id: OracleId, p: &[B128]| eval_at(&data[id.index()], p);
					let mut first = true;
					e = l.offset();
					for (id, c) in terms {
						let there = id == from && first;
						first &= id != from;
						e += c * if there { at(id, &q) } else { at(id, &p) };
					}
				}
			}
			let i = fr.usize(rounds.len());
			let a = EClaim { id: from, eval_point: q.clone().into(), eval: eval_at(&data[from.index()], &q) };
			if fr.chance(1, 2) {
				rounds[i].insert(0, a);
			} else {
				rounds[i].push(a);
			}
			rounds[i].push(EClaim { id: xid, eval_point: p.into(), eval: e });
			borrow = Some((i, from, q));
			truth = false;
		}
		let what = format!("evalcheck of {:?} on {}", rounds, sys.describe());
		// The prover.
		let mut committed = None;
		let bytes;
		if plan.p("real") == 1 {
			let out = cx.sim(|| -> Result<_, String> {
				let mut w = vsim::e2e::u128b::witness(&sys, &data);
				let mut o = base.clone();
				let mut t = PT::new();
				let mut p = EvalcheckProver::new(&mut o, &mut w);
				for claims in &rounds {
					p.prove(claims.clone(), &mut t).map_err(s)?;
				}
				let c = p.committed_eval_claims().clone();
				let sets = p.take_new_bivariate_sumchecks_constraints().map_err(s)?;
				let mles = p.take_new_mlechecks_constraints().map_err(s)?;
				drop(p);
				let used: Vec<OracleId> = sets
					.iter()
					.chain(mles.iter().map(|m| &m.constraint_set))
					.flat_map(|x| x.oracle_ids.clone())
					.filter(|id| id.index() >= data.len())
					.collect();
				for id in used {
					let want = dense(&o, &data, id)?;
					let got = w.get_multilin_poly(id).map_err(s)?;
					if got.n_vars() != o.n_vars(id) {
						return Err(format!("witness of new column {id:?} has {} variables", got.n_vars()));
					}
					for (i, x) in want.iter().enumerate() {
						if got.evaluate_on_hypercube(i).map_err(s)? != *x {
							return Err(format!(
								"witness of new column {:?} differs from its definition at {i}",
								o[id].variant
							));
						}
					}
				}
				Ok((t.finalize(), c))
			});
			let (b, c) = match out {
				Err(_) => return Err(format!("prover-panic: {:?}: {what}", take_panics())),
				Ok(Err(e)) => return Err(format!("prover-error: {e}: {what}")),
				Ok(Ok(x)) => x,
			};
			bytes = b;
			committed = Some(c);
		} else {
			let mut f = Forger {
				oracles: &base,
				data: &data,
				t: PT::new(),
				round: vec![],
				stale: 0,
				spots: vec![],
				lies: if kind.contains("lies") { fault.unwrap().args[1] } else { 0 },
				r: Rng::new(fr.next()),
				told: vec![],
				borrow: None,
			};
			for (i, claims) in rounds.iter().enumerate() {
				f.stale = f.round.len();
				f.round.clear();
				for (j, c) in claims.iter().enumerate() {
					f.borrow = match &borrow {
						Some((k, id, q)) if *k == i && j + 1 == claims.len() => Some((*id, q.clone())),
						_ => None,
					};
					f.claim(c.id, c.eval_point.to_vec(), c.eval);
				}
			}
			for k in &f.told {
				cx.fired(k);
			}
			if kind.contains("lies") && !f.told.is_empty() {
				truth = false;
			}
			let mut b = f.t.finalize();
			if kind == "altered byte" && !b.is_empty() {
				let at = fr.usize(b.len());
				b[at] ^= 1 << fr.below(8);
				cx.fired(kind);
				truth = false;
			}
			bytes = b;
		}
		if kind.contains("false claim") {
			cx.fired("false claim");
		}
		let inputs_true =
			rounds.iter().flatten().all(|c| eval_at(&data[c.id.index()], &c.eval_point) == c.eval);
		let out = cx.sim(|| -> Result<_, String> {
			let mut o = base.clone();
			let mut t = VT::new(bytes.clone());
			let mut v = EvalcheckVerifier::new(&mut o);
			for claims in &rounds {
				v.verify(claims.clone(), &mut t).map_err(s)?;
			}
			let c = v.committed_eval_claims().clone();
			let sets = v.take_new_sumcheck_constraints().map_err(s)?;
			let mles = v.take_new_mlechecks_constraints().map_err(s)?;
			drop(v);
			t.finalize().map_err(s)?;
			let mut ok = true;
			for c in &c {
				ok &= matches!(o[c.id].variant, MultilinearPolyVariant::Committed)
					&& eval_at(&data[c.id.index()], &c.eval_point) == c.eval;
			}
			for x in &sets {
				ok &= sums_hold(&o, &data, x, None).map_err(|e| format!("unsound: {e}"))?;
			}
			for (x, p) in mles.constraint_sets.iter().zip(&mles.eq_ind_challenges) {
				ok &= sums_hold(&o, &data, x, Some(p)).map_err(|e| format!("unsound: {e}"))?;
			}
			Ok((c, ok))
		});
		match out {
			Err(_) => Err(format!("panic: with {kind}: {:?}: {what}", take_panics())),
			Ok(Err(e)) if truth => Err(format!("rejected: {e}: {what}")),
			Ok(Err(e)) if e.starts_with("unsound") => Err(format!("wrong: {e}: {what}")),
			Ok(Err(_)) => {
				cx.count("rejected");
				Ok(())
			}
			Ok(Ok((_, false))) if truth => Err(format!("false-reduction: true claims of {what} reduced to a false one")),
			Ok(Ok((_, false))) => {
				cx.count("reduced to a false claim");
				Ok(())
			}
			Ok(Ok((_, true))) if !inputs_true => Err(format!("accepted: false claim of {what} reduced to true ones")),
			Ok(Ok((c, true))) => match committed {
				Some(p) if p != c => Err(format!("disagree: on the committed columns' claims of {what}")),
				_ => Ok(()),
			},
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

fn main() {
	main_for(
		"C10",
		"fault_enumeration",
		"a run counts if both parties ran on drawn claims; identity: claims and interleaving",
		Budget { secs: (60, 1800), runs: (100_000, 10_000_000) },
		&[&Sumcheck, &EqInd, &Zerocheck, &Gpa, &Exp, &Device, &Outputs, &Evalcheck],
	)
}
