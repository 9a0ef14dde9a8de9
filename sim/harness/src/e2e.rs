//! Proving and verifying random systems through the public entry points.
use std::sync::Arc;

use binius_compute::ComputeHolder;
use binius_core::{
	constraint_system::{self as cs, ConstraintSystem, Proof, channel::Boundary},
	fiat_shamir::{Challenger, HasherChallenger},
	oracle::OracleId,
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField1b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b,
	PackedField,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::pack_slice,
	tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_math::{MultilinearExtension, MultilinearPoly};

use crate::sys::{B128, Data, Sys};

pub type Digest = digest::Output<Groestl256>;

pub fn cs_digest(c: &ConstraintSystem<B128>) -> Digest {
	c.digest::<Groestl256>()
}

/// Everything the prover is given.
pub struct Job<'a> {
	pub cs: &'a ConstraintSystem<B128>,
	pub digest: &'a Digest,
	pub boundaries: &'a [Boundary<B128>],
	pub sizes: &'a [usize],
	pub log_inv_rate: usize,
	pub security: usize,
	pub host_mem: usize,
	pub dev_mem: usize,
}

fn mle<P: PackedField>(n_vars: usize, v: &[B128]) -> MultilinearExtension<P>
where
	P::Scalar: TryFrom<B128>,
{
	let s: Vec<P::Scalar> = v
		.iter()
		.map(|x| P::Scalar::try_from(*x).ok().expect("value outside the column's field"))
		.collect();
	MultilinearExtension::new(n_vars, pack_slice::<P>(&s)).unwrap()
}

macro_rules! underlier {
	($m:ident, $u:ty) => {
		pub mod $m {
			use super::*;
			pub type U = $u;
			pub type P = PackedType<U, B128>;

			pub fn poly(level: usize, n_vars: usize, v: &[B128]) -> Arc<dyn MultilinearPoly<P> + Send + Sync> {
				match level {
					0 => mle::<PackedType<U, BinaryField1b>>(n_vars, v).specialize_arc_dyn(),
					3 => mle::<PackedType<U, BinaryField8b>>(n_vars, v).specialize_arc_dyn(),
					4 => mle::<PackedType<U, BinaryField16b>>(n_vars, v).specialize_arc_dyn(),
					5 => mle::<PackedType<U, BinaryField32b>>(n_vars, v).specialize_arc_dyn(),
					6 => mle::<PackedType<U, BinaryField64b>>(n_vars, v).specialize_arc_dyn(),
					_ => mle::<PackedType<U, BinaryField128b>>(n_vars, v).specialize_arc_dyn(),
				}
			}

			pub fn witness(sys: &Sys, d: &Data) -> MultilinearExtensionIndex<'static, P> {
				let mut w = MultilinearExtensionIndex::new();
				for c in 0..sys.cols.len() {
					if sys.alive(c) {
						w.update_multilin_poly([(
							OracleId::from_index(c),
							poly(sys.cols[c].level, sys.n_vars(c), &d[c]),
						)])
						.unwrap();
					}
				}
				w
			}

			pub fn prove(
				j: &Job,
				witness: MultilinearExtensionIndex<'_, P>,
			) -> Result<Proof, cs::error::Error> {
				prove_with::<HasherChallenger<Groestl256>>(j, witness)
			}

			pub fn prove_with<Ch: Challenger + Default>(
				j: &Job,
				witness: MultilinearExtensionIndex<'_, P>,
			) -> Result<Proof, cs::error::Error> {
				let mut holder =
					FastCpuLayerHolder::<CanonicalTowerFamily, P>::new(j.host_mem, j.dev_mem);
				cs::prove::<_, U, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch, _, _, _>(
					&mut holder.to_data(),
					j.cs,
					j.log_inv_rate,
					j.security,
					j.digest,
					j.boundaries,
					j.sizes,
					witness,
					&binius_hal::make_portable_backend(),
				)
			}

			pub fn validate(
				c: &ConstraintSystem<B128>,
				b: &[Boundary<B128>],
				sizes: &[usize],
				w: &MultilinearExtensionIndex<'_, P>,
			) -> Result<(), cs::error::Error> {
				cs::validate::validate_witness(c, b, sizes, w)
			}
		}
	};
}

underlier!(u128b, OptimalUnderlier128b);
#[cfg(feature = "wide")]
underlier!(u256b, OptimalUnderlier256b);
#[cfg(feature = "wide")]
underlier!(u512b, OptimalUnderlier512b);

pub fn verify(
	c: &ConstraintSystem<B128>,
	log_inv_rate: usize,
	security: usize,
	digest: &Digest,
	boundaries: &[Boundary<B128>],
	proof: Proof,
) -> Result<(), cs::error::Error> {
	verify_with::<HasherChallenger<Groestl256>>(c, log_inv_rate, security, digest, boundaries, proof)
}

pub fn verify_with<Ch: Challenger + Default>(
	c: &ConstraintSystem<B128>,
	log_inv_rate: usize,
	security: usize,
	digest: &Digest,
	boundaries: &[Boundary<B128>],
	proof: Proof,
) -> Result<(), cs::error::Error> {
	cs::verify::<OptimalUnderlier128b, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch>(
		c,
		log_inv_rate,
		security,
		digest,
		boundaries,
		proof,
	)
}

#[cfg(not(feature = "wide"))]
#[allow(unused)]
type Unused = (OptimalUnderlier256b, OptimalUnderlier512b);

/// A drawn system with an assignment.
#[derive(Clone)]
pub struct Case {
	pub sys: Sys,
	pub data: Data,
	pub bds: Vec<crate::sys::Bd>,
}

/// Draws the parameters of a case.
pub fn draw_case(plan: &mut crate::Plan, r: &mut crate::Rng, max_log: u64) {
	plan.set("shape", r.next());
	plan.set("tables", *r.pick(&[1, 1, 1, 2, 2, 3, 4]));
	plan.set("max_log", r.range(0, max_log));
	plan.set("max_lvpr", *r.pick(&[0, 2, 5, 5]));
	plan.set("cols", r.below(13));
	plan.set("flushes", *r.pick(&[0, 0, 1, 2, 2, 3, 4]));
	plan.set("exps", *r.pick(&[0, 0, 0, 1, 2]));
	plan.set("nonzero", *r.pick(&[0, 0, 0, 1, 2]));
	plan.set("zero_tables", r.below(2));
	plan.set("rate", *r.pick(&[1, 1, 1, 2, 3]));
	plan.set("security", *r.pick(&[20, 20, 40, 64, 100, 100]));
}

pub fn case_floor(p: &str) -> Option<u64> {
	match p {
		"tables" | "rate" => Some(1),
		"security" => Some(20),
		"max_log" | "max_lvpr" | "cols" | "flushes" | "exps" | "nonzero" | "zero_tables" => Some(0),
		_ => None,
	}
}

pub fn make_case(plan: &crate::Plan) -> Case {
	let sh = crate::sys::Shape {
		tables: plan.p("tables") as usize,
		max_log: plan.p("max_log") as usize,
		cols: plan.p("cols") as usize,
		flushes: plan.p("flushes") as usize,
		exps: plan.p("exps") as usize,
		nonzero: plan.p("nonzero") as usize,
		zero_tables: plan.p("zero_tables") == 1,
		max_lvpr: plan.p("max_lvpr") as usize,
	};
	let mut r = crate::Rng::derive(plan.p("shape"), "sys");
	let sys = Sys::draw(&mut r, &sh);
	let mut r = crate::Rng::derive(plan.p("shape"), "data");
	let data = sys.fill(&mut r);
	let bds = sys.balance(&mut r, &data);
	Case { sys, data, bds }
}
