//! C11: the parallel kernels compute what their serial definitions say, in every schedule.
use std::{mem::MaybeUninit, panic::AssertUnwindSafe};

use binius_core::reed_solomon::reed_solomon::ReedSolomonCode;
use binius_field::{
	BinaryField, BinaryField1b as B1, BinaryField8b as B8, BinaryField16b as B16, BinaryField32b as B32,
	BinaryField64b as B64, BinaryField128b as B128, ExtensionField, Field, PackedExtension, PackedField,
	RepackedExtension, TowerField,
	arch::{OptimalUnderlier128b as U128, OptimalUnderlier256b as U256, OptimalUnderlier512b as U512},
	as_packed_field::PackedType,
	packed::{get_packed_slice, pack_slice, set_packed_slice},
};
use binius_hal::{ComputationBackend, ComputationBackendExt, make_portable_backend};
use binius_hash::{
	Vision32ParallelDigest, VisionHasherDigest, VisionHasherDigestByteSliced,
	groestl::{Groestl256, Groestl256Parallel},
	multi_digest::{MultiDigest, ParallelDigest},
};
use binius_math::{
	MLEDirectAdapter, MultilinearExtension, MultilinearPoly, MultilinearQuery, eq_ind_partial_eval,
	evaluate_piecewise_multilinear, tensor_prod_eq_ind,
};
use binius_maybe_rayon::prelude::*;
use binius_ntt::{
	AdditiveNTT, DynamicDispatchNTT, NTTOptions, NTTShape, SingleThreadedNTT, ThreadingSettings,
};
use digest::{Digest, Output};
use vsim::{sys::elem, *};

const REAL: &str = "the additive NTTs, Reed-Solomon encoder, parallel digests, multilinear evaluation and folding, and rayon's \
	parallel iterators and join";

fn s<E: std::fmt::Display>(e: E) -> String {
	e.to_string()
}

fn caught<T>(what: &str, r: std::thread::Result<T>) -> Result<T, String> {
	r.map_err(|_| format!("panic: {what}: {:?}", take_panics()))
}

/// A scalar whose panic-free conversion from the big field we need.
trait Sc: TowerField + TryFrom<B128> {
	fn of(v: u128) -> Self {
		Self::try_from(B128::new(v)).ok().expect("in the subfield")
	}
}
impl<F: TowerField + TryFrom<B128>> Sc for F {}

fn rnd<F: Sc>(r: &mut Rng) -> F {
	F::try_from(elem(r, F::TOWER_LEVEL)).ok().expect("in the subfield")
}

fn scalars<P: PackedField>(v: &[P], n: usize) -> Vec<P::Scalar> {
	(0..n).map(|i| get_packed_slice(v, i)).collect()
}

// ---------------------------------------------------------------- NTT

/// W_k(x) over the span of the first k basis elements.
fn subspace_poly<F: BinaryField>(basis: &[F], k: usize, x: F) -> F {
	let mut norm: Vec<F> = basis.to_vec();
	let mut x = x;
	for i in 0..k {
		let c = norm[i];
		x = x * (x + c);
		for b in norm.iter_mut() {
			*b = *b * (*b + c);
		}
	}
	x
}

/// The d-dimensional domain of an NTT over the span of 2^ell canonical elements.
fn domain<F: Sc>(ell: usize, d: usize) -> Vec<F> {
	let beta: Vec<F> = (0..ell).map(|i| F::of(1 << i)).collect();
	let k = ell - d;
	if d == 0 {
		return vec![];
	}
	let norm = subspace_poly(&beta, k, beta[k]).invert().unwrap();
	(0..d).map(|j| subspace_poly(&beta, k, beta[k + j]) * norm).collect()
}

/// Values of the normalised subspace polynomials at every point of the domain, level by level.
struct Table<F> {
	basis: Vec<F>,
	/// W^_i of each basis element.
	hat: Vec<Vec<F>>,
}

impl<F: Sc> Table<F> {
	fn new(ell: usize, d: usize) -> Self {
		let basis = domain::<F>(ell, d);
		let hat = (0..d)
			.map(|i| {
				let n = subspace_poly(&basis, i, basis[i]).invert().unwrap();
				basis.iter().map(|b| subspace_poly(&basis, i, *b) * n).collect()
			})
			.collect();
		Self { basis, hat }
	}
	fn forward(&self, data: &[F], sh: NTTShape, coset: usize, skip: usize) -> Vec<F> {
		let m = sh.log_y - skip;
		let mut out = vec![F::ZERO; data.len()];
		for k in 0..1usize << skip {
			let c = coset << skip | k;
			for t in 0..1usize << m {
				let at = c << m | t;
				let mut basis = vec![F::ONE];
				for i in 0..m {
					let w: F = (0..self.basis.len()).filter(|b| at >> b & 1 == 1).map(|b| self.hat[i][b]).sum();
					let hi: Vec<F> = basis.iter().map(|x| *x * w).collect();
					basis.extend(hi);
				}
				for z in 0..1usize << sh.log_z {
					for x in 0..1usize << sh.log_x {
						let pos = |j: usize| (((z << sh.log_y) | (k << m) | j) << sh.log_x) | x;
						out[pos(t)] = basis.iter().enumerate().map(|(j, b)| *b * data[pos(j)]).sum();
					}
				}
			}
		}
		out
	}
}

fn make_ntt<F: BinaryField>(ell: usize, how: u64, log_threads: usize) -> Result<DynamicDispatchNTT<F>, binius_ntt::Error> {
	let single = || SingleThreadedNTT::<F>::new(ell);
	Ok(match how {
		0 => DynamicDispatchNTT::SingleThreaded(single()?),
		1 => DynamicDispatchNTT::SingleThreadedPrecompute(single()?.precompute_twiddles()),
		2 => DynamicDispatchNTT::MultiThreaded(single()?.multithreaded_with_max_threads(log_threads)),
		3 => DynamicDispatchNTT::MultiThreadedPrecompute(
			single()?.precompute_twiddles().multithreaded_with_max_threads(log_threads),
		),
		4 => DynamicDispatchNTT::MultiThreaded(single()?.multithreaded()),
		_ => DynamicDispatchNTT::new(
			ell,
			&NTTOptions {
				precompute_twiddles: how % 2 == 0,
				thread_settings: match how {
					5 => ThreadingSettings::SingleThreaded,
					6 | 7 => ThreadingSettings::MultithreadedDefault,
					_ => ThreadingSettings::ExplicitThreadsCount { log_threads },
				},
			},
		)?,
	})
}

fn ntt_case<F: Sc, P: PackedField<Scalar = F>>(plan: &Plan, cx: &mut Cx) -> Verdict {
	let mut r = Rng::new(plan.p("shape"));
	let max = plan.p("log") as usize;
	let log_y = r.usize(max.min(F::N_BITS).min(7) + 1);
	let log_x = r.usize(max - log_y + 1).min(6);
	let log_z = r.usize(max - log_y - log_x.min(max - log_y) + 1).min(6);
	let coset_bits = r.usize((F::N_BITS - log_y).min(3) + 1);
	let coset = r.usize(1 << coset_bits);
	let skip = if r.chance(1, 2) { 0 } else { r.usize(log_y + 1) };
	let ell = (log_y + coset_bits + r.usize((F::N_BITS - log_y - coset_bits).min(3) + 1)).max(1);
	let sh = NTTShape { log_x, log_y, log_z };
	let n = 1usize << (log_x + log_y + log_z);
	let len = (n >> P::LOG_WIDTH).max(1);
	let how = plan.p("how");
	let threads = plan.p("threads") as usize;
	let inverse = plan.p("inverse") == 1;
	cx.sample = format!(
		"F 2^{} P {} x {log_x} y {log_y} z {log_z} coset {coset}/{coset_bits} skip {skip} domain {ell} how {how} threads {threads} inverse {inverse}",
		F::N_BITS,
		P::WIDTH
	);
	let data: Vec<F> = (0..len << P::LOG_WIDTH).map(|_| rnd(&mut r)).collect();
	let table = Table::<F>::new(ell, log_y + coset_bits);
	let image = table.forward(&data[..n], sh, coset, skip);
	let (from, want) = if inverse { (&image, &data[..n]) } else { (&data[..n].to_vec(), &image[..]) };
	let mut buf: Vec<P> = pack_slice(&data);
	for (i, v) in from.iter().enumerate() {
		set_packed_slice(&mut buf, i, *v);
	}
	// Arguments outside the documented range.
	let mut bad = None;
	let (mut sh, mut coset, mut skip, mut coset_bits) = (sh, coset, skip, coset_bits);
	for f in &plan.faults {
		match f.kind.as_str() {
			"coset out of range" => coset = (1 << coset_bits) + f.args[0] as usize % 3,
			"too many skipped rounds" => skip = log_y + 1 + f.args[0] as usize % 3,
			"domain too small" => {
				coset_bits = ell - log_y + 1 + f.args[0] as usize % 3;
				coset = 0
			}
			"shape too large" => {
				let k = ((len << P::LOG_WIDTH) / n).trailing_zeros() as usize + 1;
				match f.args[0] % 2 {
					0 => sh.log_x += k,
					_ => sh.log_z += k,
				}
			}
			"shape too small" if len > 2 => match f.args[0] % 2 {
				0 if log_x > 0 => sh.log_x -= 1,
				_ if log_z > 0 => sh.log_z -= 1,
				_ => continue,
			},
			_ => continue,
		}
		cx.fired(&f.kind);
		bad = Some(f.kind.clone());
	}
	let before = buf.clone();
	let (basis, res) = caught(
		"ntt",
		cx.sim(|| {
			let ntt = make_ntt::<F>(ell, how, threads)?;
			let res = if inverse {
				ntt.inverse_transform(&mut buf, sh, coset, coset_bits, skip)
			} else {
				ntt.forward_transform(&mut buf, sh, coset, coset_bits, skip)
			};
			let d = table.basis.len();
			let basis = (0..(1usize << d) / 2).map(|j| ntt.get_subspace_eval(d, j)).collect::<Vec<_>>();
			let sub = if d > 0 { ntt.subspace(d).basis().to_vec() } else { vec![] };
			Ok::<_, binius_ntt::Error>(((basis, sub, ntt.log_domain_size()), res))
		}),
	)?
	.map_err(|e| format!("error: new: {e}"))?;
	cx.nontrivial = true;
	if let Some(b) = bad {
		if res.is_ok() {
			return Err(format!("no-error: {b}: {}", cx.sample));
		}
		if buf != before {
			return Err(format!("changed: data after an error: {b}: {}", cx.sample));
		}
		return Ok(());
	}
	if basis.0 != evens(&table) || basis.1 != table.basis || basis.2 != ell {
		return Err(format!("wrong-domain: {}", cx.sample));
	}
	res.map_err(|e| format!("error: {}: {e}", cx.sample))?;
	let got = scalars(&buf, n);
	if got != want {
		let k = (0..n).find(|k| got[*k] != want[*k]).unwrap();
		return Err(format!("wrong-transform: element {k} of {n}: {}", cx.sample));
	}
	Ok(())
}

/// The even elements of the domain, by counting in its basis.
fn evens<F: Sc>(t: &Table<F>) -> Vec<F> {
	let d = t.basis.len();
	if d == 0 {
		return vec![];
	}
	(0..1usize << (d - 1)).map(|j| (1..d).filter(|b| j >> (b - 1) & 1 == 1).map(|b| t.basis[b]).sum()).collect()
}

struct Ntt;

impl Scenario for Ntt {
	fn name(&self) -> &'static str {
		"ntt"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("log", r.range(0, if thorough { 12 } else { 10 }));
		plan.set("packing", r.below(10));
		plan.set("how", r.below(9));
		plan.set("threads", r.below(6));
		plan.set("inverse", r.below(2));
		if r.chance(1, 8) {
			let k = *r.pick(&[
				"coset out of range", "too many skipped rounds", "domain too small", "shape too large", "shape too small",
			]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		match plan.p("packing") {
			0 => ntt_case::<B8, PackedType<U128, B8>>(plan, cx),
			1 => ntt_case::<B16, B16>(plan, cx),
			2 => ntt_case::<B16, PackedType<U128, B16>>(plan, cx),
			3 => ntt_case::<B16, PackedType<U256, B16>>(plan, cx),
			4 => ntt_case::<B16, PackedType<U512, B16>>(plan, cx),
			5 => ntt_case::<B32, B32>(plan, cx),
			6 => ntt_case::<B32, PackedType<U128, B32>>(plan, cx),
			7 => ntt_case::<B32, PackedType<U256, B32>>(plan, cx),
			8 => ntt_case::<B32, PackedType<U512, B32>>(plan, cx),
			_ => ntt_case::<B64, PackedType<U256, B64>>(plan, cx),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

// ---------------------------------------------------------------- Reed-Solomon

fn rs_case<F: Sc, PE: PackedExtension<F>>(plan: &Plan, cx: &mut Cx) -> Verdict
where
	PE::Scalar: Sc + ExtensionField<F>,
{
	let mut r = Rng::new(plan.p("shape"));
	let max = plan.p("log") as usize;
	let inv = r.usize(4).min(max);
	// A domain of dimension zero is refused.
	let dim = r.usize((max - inv).min(F::N_BITS - inv).min(7) + 1).max((inv == 0) as usize);
	let batch = r.usize(max - inv - dim.min(max - inv) + 1).min(4);
	let ell = dim + inv + if r.chance(1, 4) { r.usize((F::N_BITS - dim - inv).min(3) + 1) } else { 0 };
	let (how, threads) = (plan.p("how"), plan.p("threads") as usize);
	let n = 1usize << (dim + inv + batch);
	let len = (n >> PE::LOG_WIDTH).max(1);
	cx.sample = format!(
		"F 2^{} width {} of 2^{} dim {dim} rate {inv} batch {batch} domain {ell} how {how} threads {threads}",
		F::N_BITS,
		PE::WIDTH,
		PE::Scalar::N_BITS
	);
	let data: Vec<PE::Scalar> = (0..len << PE::LOG_WIDTH).map(|_| rnd(&mut r)).collect();
	let msg = &data[..1 << (dim + batch)];
	// Model: the message polynomial at every point of the domain, coordinate by coordinate.
	let deg = <PE::Scalar as ExtensionField<F>>::DEGREE;
	let table = Table::<F>::new(ell, dim + inv);
	let flat: Vec<F> = (0..1 << inv)
		.flat_map(|_| msg.iter().flat_map(|x| ExtensionField::<F>::iter_bases(x).collect::<Vec<_>>()))
		.collect();
	let sh = NTTShape { log_x: batch + deg.trailing_zeros() as usize, log_y: dim + inv, log_z: 0 };
	let want: Vec<PE::Scalar> = table
		.forward(&flat, sh, 0, inv)
		.chunks(deg)
		.map(|c| PE::Scalar::from_bases(c.iter().copied()).unwrap())
		.collect();
	let mut buf: Vec<PE> = pack_slice(&data);
	let mut bad = None;
	let mut code_ell = ell;
	for f in &plan.faults {
		match f.kind.as_str() {
			"short buffer" if buf.len() > 1 => buf.truncate(buf.len() / 2),
			"long buffer" => buf.push(PE::zero()),
			"other domain" => {
				let k = (F::N_BITS - ell).min(1 + f.args[0] as usize % 2);
				code_ell = ell + k;
				if domain::<F>(code_ell, dim + inv) == table.basis {
					code_ell = ell;
					continue;
				}
			}
			_ => continue,
		}
		cx.fired(&f.kind);
		bad = Some(f.kind.clone());
	}
	let res = caught(
		"encode",
		cx.sim(|| {
			let ntt = make_ntt::<F>(ell, how, threads).map_err(s)?;
			let other = make_ntt::<F>(code_ell, 0, 0).map_err(s)?;
			let code = ReedSolomonCode::with_ntt_subspace(&other, dim, inv).map_err(s)?;
			assert_eq!((code.log_dim(), code.log_len(), code.log_inv_rate()), (dim, dim + inv, inv));
			Ok::<_, String>(code.encode_ext_batch_inplace(&ntt, &mut buf, batch).map_err(s))
		}),
	)?
	.map_err(|e| format!("error: setup: {e}"))?;
	cx.nontrivial = true;
	if let Some(b) = bad {
		if res.is_ok() {
			return Err(format!("no-error: {b}: {}", cx.sample));
		}
		return Ok(());
	}
	res.map_err(|e| format!("error: {}: {e}", cx.sample))?;
	let got = scalars(&buf, n);
	if got != want {
		let k = (0..n).find(|k| got[*k] != want[*k]).unwrap();
		return Err(format!("wrong-codeword: element {k} of {n}: {}", cx.sample));
	}
	Ok(())
}

struct Rs;

impl Scenario for Rs {
	fn name(&self) -> &'static str {
		"reed_solomon"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("log", r.range(1, if thorough { 10 } else { 8 }));
		plan.set("packing", r.below(10));
		plan.set("how", r.below(9));
		plan.set("threads", r.below(6));
		if r.chance(1, 8) {
			let k = *r.pick(&["short buffer", "long buffer", "other domain"]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			"log" => Some(1),
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		match plan.p("packing") {
			0 => rs_case::<B16, PackedType<U128, B128>>(plan, cx),
			1 => rs_case::<B32, PackedType<U128, B128>>(plan, cx),
			2 => rs_case::<B16, PackedType<U256, B128>>(plan, cx),
			3 => rs_case::<B32, PackedType<U256, B128>>(plan, cx),
			4 => rs_case::<B32, PackedType<U512, B128>>(plan, cx),
			5 => rs_case::<B16, PackedType<U128, B16>>(plan, cx),
			6 => rs_case::<B32, PackedType<U256, B32>>(plan, cx),
			7 => rs_case::<B8, PackedType<U128, B32>>(plan, cx),
			8 => rs_case::<B32, B32>(plan, cx),
			_ => rs_case::<B16, PackedType<U512, B16>>(plan, cx),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

// ---------------------------------------------------------------- digests

fn hash_case<H, F>(plan: &Plan, cx: &mut Cx) -> Verdict
where
	H: ParallelDigest<Digest: Digest> + Sync,
	F: Sc,
	Output<H::Digest>: Send + Sync,
{
	let mut r = Rng::new(plan.p("shape"));
	let (rows, len, prefix) = (plan.p("rows") as usize, plan.p("len") as usize, plan.p("prefix") as usize);
	cx.sample = format!("{rows} rows of {len} elements of 2^{} bits, prefix {prefix}", F::N_BITS.trailing_zeros());
	let mut pre = vec![0; prefix];
	r.fill(&mut pre);
	let data: Vec<Vec<F>> = (0..rows).map(|_| (0..len).map(|_| rnd(&mut r)).collect()).collect();
	let want: Vec<Output<H::Digest>> = data
		.iter()
		.map(|row| {
			let mut d = <H::Digest as Digest>::new();
			d.update(&pre);
			for x in row {
				d.update(&to_big(*x).val().to_le_bytes()[..F::N_BITS / 8]);
			}
			d.finalize()
		})
		.collect();
	let got = caught(
		"digest",
		cx.sim(|| {
			let h = if prefix == 0 && plan.p("shape") % 2 == 0 { H::new() } else { H::new_with_prefix(&pre) };
			let mut out: Vec<MaybeUninit<Output<H::Digest>>> = (0..rows).map(|_| MaybeUninit::new(Default::default())).collect();
			// Twice: a hasher is not used up.
			for _ in 0..2 {
				out.iter_mut().for_each(|o| {
					o.write(Default::default());
				});
				h.digest(data.par_iter().map(|row| row.iter().copied()), &mut out);
			}
			out.into_iter().map(|x| unsafe { x.assume_init() }).collect::<Vec<_>>()
		}),
	)?;
	cx.nontrivial = true;
	if let Some(k) = (0..rows).find(|k| got[*k] != want[*k]) {
		return Err(format!("wrong-digest: row {k}: {}", cx.sample));
	}
	Ok(())
}

fn to_big<F: Sc>(x: F) -> B128 {
	// Every tower field here embeds in the top of the tower.
	let mut v = 0u128;
	let mut bytes = Vec::new();
	binius_utils::SerializeBytes::serialize(&x, &mut bytes, binius_utils::SerializationMode::CanonicalTower).unwrap();
	for (i, b) in bytes.iter().enumerate() {
		v |= (*b as u128) << (8 * i);
	}
	B128::new(v)
}

/// A history of updates, clones, resets and reads of the sliced hasher against one serial hasher a row.
fn sliced_case(plan: &Plan, cx: &mut Cx) -> Verdict {
	const N: usize = 32;
	let mut r = Rng::new(plan.p("shape"));
	let steps = plan.p("rows") as usize;
	cx.sample = format!("{steps} operations on the sliced hasher");
	let mut m = VisionHasherDigestByteSliced::new();
	let mut model: Vec<VisionHasherDigest> = vec![Default::default(); N];
	let out = |f: &mut dyn FnMut(&mut [MaybeUninit<Output<VisionHasherDigest>>; N])| {
		let mut o: [MaybeUninit<Output<VisionHasherDigest>>; N] = std::array::from_fn(|_| MaybeUninit::new(Default::default()));
		f(&mut o);
		o.map(|x| unsafe { x.assume_init() })
	};
	for i in 0..steps {
		let kind = r.below(8);
		match kind {
			0..=4 => {
				let len = *r.pick(&[0, 1, 3, 31, 32, 33, 63, 64, 65, 127, 128, 130]);
				let rows: Vec<Vec<u8>> = (0..N)
					.map(|_| {
						let mut v = vec![0; len];
						r.fill(&mut v);
						v
					})
					.collect();
				m.update(std::array::from_fn(|i| &rows[i][..]));
				for (d, row) in model.iter_mut().zip(&rows) {
					Digest::update(d, row);
				}
			}
			5 => {
				m.reset();
				model = vec![Default::default(); N];
			}
			_ => {
				let got = if kind == 6 {
					let c = m.clone();
					let mut c = Some(c);
					out(&mut |o| c.take().unwrap().finalize_into(o))
				} else {
					out(&mut |o| m.finalize_into_reset(o))
				};
				let want: Vec<_> = model.iter().map(|d| d.clone().finalize()).collect();
				if got[..] != want[..] {
					return Err(format!("wrong-digest: sliced hasher, step {i} of {steps}"));
				}
				if kind == 7 {
					model = vec![Default::default(); N];
				}
			}
		}
	}
	cx.nontrivial = true;
	Ok(())
}

struct Hash;

impl Scenario for Hash {
	fn name(&self) -> &'static str {
		"digest"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		// The Vision hash is slow.
		let which = *r.pick(&[0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7]);
		plan.set("which", which);
		plan.set("rows", r.below(if which >= 5 && !thorough { 40 } else { 140 }));
		plan.set("len", r.below(if which >= 5 { 12 } else { 40 }));
		let p = *r.pick(&[0, 0, 1, 63, 64, 65, 100]);
		plan.set("prefix", p);
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" | "which" => None,
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		match plan.p("which") {
			0 => hash_case::<Groestl256, B128>(plan, cx),
			1 => hash_case::<Groestl256, B8>(plan, cx),
			2 => hash_case::<Groestl256Parallel, B128>(plan, cx),
			3 => hash_case::<Groestl256Parallel, B8>(plan, cx),
			4 => hash_case::<Groestl256Parallel, B32>(plan, cx),
			5 => hash_case::<Vision32ParallelDigest, B128>(plan, cx),
			6 => hash_case::<Vision32ParallelDigest, B8>(plan, cx),
			_ => sliced_case(plan, cx),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

// ---------------------------------------------------------------- multilinears

fn eval_at(v: &[B128], point: &[B128]) -> B128 {
	assert_eq!(v.len(), 1 << point.len());
	partial(v, point, v.len().trailing_zeros() as usize - point.len())[0]
}

/// Assigns `point` to the variables from `start`.
fn partial(v: &[B128], point: &[B128], start: usize) -> Vec<B128> {
	let mut v = v.to_vec();
	for (k, c) in point.iter().enumerate().rev() {
		let bit = 1usize << (start + k);
		let mut w = Vec::with_capacity(v.len() / 2);
		for i in 0..v.len() {
			if i & bit == 0 {
				w.push(v[i] + *c * (v[i | bit] - v[i]));
			}
		}
		v = w;
	}
	v
}

fn eq_expand(v: &[B128], point: &[B128]) -> Vec<B128> {
	let mut v = v.to_vec();
	for c in point {
		let hi: Vec<_> = v.iter().map(|x| *x * *c).collect();
		for (x, h) in v.iter_mut().zip(&hi) {
			*x -= *h;
		}
		v.extend(hi);
	}
	v
}

fn point(r: &mut Rng, n: usize) -> Vec<B128> {
	(0..n)
		.map(|_| match r.below(12) {
			0 => B128::ZERO,
			1 => B128::ONE,
			_ => B128::new(r.u128()),
		})
		.collect()
}

fn ml_case<F, PE>(make: impl FnOnce(usize, Vec<F>) -> Box<dyn MultilinearPoly<PE> + Send + Sync>, plan: &Plan, cx: &mut Cx) -> Verdict
where
	F: Sc + Into<B128>,
	PE: PackedField<Scalar = B128>,
{
	let mut r = Rng::new(plan.p("shape"));
	let n = plan.p("log") as usize;
	let lw = PE::LOG_WIDTH;
	let data: Vec<F> = (0..1usize << n).map(|_| rnd(&mut r)).collect();
	let big: Vec<B128> = data.iter().map(|x| (*x).into()).collect();
	let poly = make(n, data);
	let ext = poly.log_extension_degree();
	let k = r.usize(n + 1);
	let start = r.usize(n - k + 1);
	let pt = point(&mut r, k);
	let grown = r.chance(1, 2);
	let split = r.usize(k + 1);
	let op = plan.p("op");
	let bad = plan.faults.first().map(|f| f.kind.clone());
	let arg = plan.faults.first().map(|f| f.args[0] as usize).unwrap_or(0);
	let wrong = |w: &str| bad.as_deref() == Some(w);
	let pad = r.usize(5);
	let nonzero = r.usize(1 << pad);
	let sub_vars = r.usize(n - k + 1);
	let sub_index = r.usize(1 << (n - k - sub_vars));
	let full_vars = r.usize(n + 1);
	let full_index = r.usize(1 << (n - full_vars));
	let embed = r.usize(ext + 1);
	let idx = r.usize(1 << n);
	let scale = elem(&mut r, 7);
	let all = point(&mut r, n);
	cx.sample = format!("F 2^{} ext {ext} width {} n {n} op {op} k {k} start {start}", F::N_BITS, PE::WIDTH);
	let poly = &poly;
	let out = caught(
		"multilinear",
		cx.sim(|| {
			let backend = make_portable_backend();
			let query = |p: &[B128]| {
				if grown {
					let sp = split.min(p.len());
					MultilinearQuery::<PE>::with_capacity(p.len()).update(&p[..sp]).unwrap().update(&p[sp..]).unwrap()
				} else if split % 2 == 0 {
					backend.multilinear_query::<PE>(p).map(|q| MultilinearQuery::with_expansion(p.len(), q.expansion().to_vec()).unwrap()).unwrap()
				} else {
					MultilinearQuery::<PE>::expand(p)
				}
			};
			let take = |m: MultilinearExtension<PE>| {
				let want = m.n_vars();
				(want, scalars(m.evals(), 1 << want))
			};
			let e = |x: Result<Vec<B128>, binius_math::Error>| x.map_err(s);
			let got = match op {
				0 => {
					let mut p = all.clone();
					if wrong("wrong query size") {
						p.push(B128::ONE);
					}
					e(poly.evaluate(query(&p).to_ref()).map(|x| vec![x]))
				}
				1 => {
					let p = if wrong("wrong query size") { point(&mut Rng::new(1), n + 1 + arg % 2) } else { pt.clone() };
					e(poly.evaluate_partial_low(query(&p).to_ref()).map(|m| take(m).1))
				}
				2 => {
					let p = if wrong("wrong query size") { point(&mut Rng::new(1), n + 1 + arg % 2) } else { pt.clone() };
					if arg % 2 == 0 {
						e(poly.evaluate_partial_high(query(&p).to_ref()).map(|m| take(m).1))
					} else {
						e(backend.evaluate_partial_high(poly, query(&p).to_ref()).map(|m| take(m).1).map_err(|_| binius_math::Error::DuplicateDomainPoint))
					}
				}
				3 => {
					let st = if wrong("wrong start") { n - k + 1 + arg % 3 } else { start };
					e(poly.evaluate_partial(query(&pt).to_ref(), st).map(|m| take(m).1))
				}
				4 => {
					let st = if wrong("wrong start") { n + 1 + arg % 3 } else { start };
					let nz = if wrong("wrong index") { (1 << pad) + arg % 3 } else { nonzero };
					e(poly.zero_pad(pad, st, nz).map(|m| take(m).1))
				}
				5 => {
					let d = if wrong("wrong degree") { ext + 1 + arg % 2 } else { embed };
					let i = if wrong("wrong index") { (1 << (n - full_vars)) + arg % 3 } else { full_index };
					let l = (1usize << full_vars.saturating_sub(d + lw)) + wrong("wrong length") as usize;
					let mut o = vec![PE::zero(); l];
					e(poly.subcube_evals(full_vars, i, d, &mut o).map(|()| scalars(&o, 1 << full_vars.saturating_sub(d))))
				}
				6 | 7 => {
					let i = if wrong("wrong index") { (1 << (n - k - sub_vars)) + arg % 3 } else { sub_index };
					let l = (1usize << sub_vars.saturating_sub(lw)) + wrong("wrong length") as usize;
					let mut o = vec![PE::broadcast(B128::new(77)); l];
					let q = query(&pt);
					let res = if op == 6 {
						poly.subcube_partial_low_evals(q.to_ref(), sub_vars, i, &mut o)
					} else {
						poly.subcube_partial_high_evals(q.to_ref(), sub_vars, i, &mut o)
					};
					e(res.map(|()| scalars(&o, 1 << sub_vars)))
				}
				8 => {
					let i = if wrong("wrong index") { (1 << n) + arg % 3 } else { idx };
					e(poly.evaluate_on_hypercube(i).and_then(|x| Ok(vec![x, poly.evaluate_on_hypercube_and_scale(i, scale)?])))
				}
				_ => {
					let q = query(&all);
					Ok(scalars(q.expansion(), 1 << n))
				}
			};
			(got, poly.n_vars())
		}),
	)?;
	cx.nontrivial = true;
	let (got, nv) = out;
	if nv != n {
		return Err(format!("wrong-size: {nv} variables: {}", cx.sample));
	}
	let applies = match bad.as_deref() {
		Some("wrong query size") => op <= 2,
		Some("wrong start") => op == 3 || op == 4,
		Some("wrong index") => (4..=8).contains(&op),
		Some("wrong degree") => op == 5,
		Some("wrong length") => (5..=7).contains(&op),
		_ => false,
	};
	if applies {
		cx.fired(bad.as_deref().unwrap());
		if got.is_ok() {
			return Err(format!("no-error: {}: {}", bad.unwrap(), cx.sample));
		}
		return Ok(());
	}
	let want = match op {
		0 => vec![eval_at(&big, &all)],
		1 => partial(&big, &pt, 0),
		2 => partial(&big, &pt, n - k),
		3 => partial(&big, &pt, start),
		4 => {
			let mut w = vec![B128::ZERO; 1 << (n + pad)];
			for (i, v) in big.iter().enumerate() {
				let (lo, hi) = (i & ((1 << start) - 1), i >> start);
				w[(hi << pad | nonzero) << start | lo] = *v;
			}
			w
		}
		5 => big[full_index << full_vars..][..1 << full_vars]
			.chunks(1 << embed.min(full_vars))
			.map(|c| B128::new(c.iter().enumerate().map(|(j, x)| x.val() << (j << (7 - embed) & 127)).fold(0, |a, b| a | b)))
			.collect(),
		6 => partial(&big, &pt, 0)[sub_index << sub_vars..][..1 << sub_vars].to_vec(),
		7 => partial(&big, &pt, n - k)[sub_index << sub_vars..][..1 << sub_vars].to_vec(),
		8 => vec![big[idx], big[idx] * scale],
		_ => eq_expand(&[B128::ONE], &all),
	};
	let got = got.map_err(|e| format!("error: {}: {e}", cx.sample))?;
	if got != want {
		let k = (0..want.len().min(got.len())).find(|k| got[*k] != want[*k]);
		return Err(format!("wrong-value: element {k:?} of {}: {} pad {pad} nonzero {nonzero} embed {embed}", want.len(), cx.sample));
	}
	Ok(())
}

fn ml_embedded<F, P, PE>(plan: &Plan, cx: &mut Cx) -> Verdict
where
	F: Sc + Into<B128>,
	P: PackedField<Scalar = F>,
	PE: PackedField<Scalar = B128> + RepackedExtension<P>,
	B128: ExtensionField<F>,
{
	ml_case::<F, PE>(
		|n, v| Box::new(MultilinearExtension::<P>::new(n, pack_slice(&v)).unwrap().specialize::<PE>()),
		plan,
		cx,
	)
}

fn ml_direct<PE: PackedField<Scalar = B128>>(plan: &Plan, cx: &mut Cx) -> Verdict {
	ml_case::<B128, PE>(
		|n, v| Box::new(MLEDirectAdapter::from(MultilinearExtension::<PE>::new(n, pack_slice(&v)).unwrap())),
		plan,
		cx,
	)
}

struct Multilinear;

impl Scenario for Multilinear {
	fn name(&self) -> &'static str {
		"multilinear"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("log", r.range(0, if thorough { 12 } else { 10 }));
		plan.set("op", r.below(10));
		plan.set("packing", r.below(16));
		if r.chance(1, 6) {
			let k = *r.pick(&["wrong query size", "wrong start", "wrong index", "wrong degree", "wrong length"]);
			plan.faults.push(Fault::new(k, &[r.next() & 0xffff]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" | "op" => None,
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		macro_rules! go {
			($F:ty, $U:ty) => {
				ml_embedded::<$F, PackedType<$U, $F>, PackedType<$U, B128>>(plan, cx)
			};
		}
		match plan.p("packing") {
			0 => go!(B1, U128),
			1 => go!(B8, U128),
			2 => go!(B32, U128),
			3 => go!(B128, U128),
			4 => go!(B1, U256),
			5 => go!(B16, U256),
			6 => go!(B64, U256),
			7 => go!(B128, U256),
			8 => go!(B1, U512),
			9 => go!(B8, U512),
			10 => go!(B32, U512),
			11 => go!(B128, U512),
			12 => ml_direct::<B128>(plan, cx),
			13 => ml_direct::<PackedType<U256, B128>>(plan, cx),
			14 => ml_direct::<PackedType<U512, B128>>(plan, cx),
			_ => go!(B16, U128),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct Tensor;

impl Scenario for Tensor {
	fn name(&self) -> &'static str {
		"tensor"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("log", r.range(0, if thorough { 14 } else { 12 }));
		plan.set("packing", r.below(3));
		plan.set("op", r.below(4));
		if r.chance(1, 8) {
			plan.faults.push(Fault::new("wrong length", &[r.next() & 0xffff]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" | "op" => None,
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		match plan.p("packing") {
			0 => tensor_case::<B128>(plan, cx),
			1 => tensor_case::<PackedType<U256, B128>>(plan, cx),
			_ => tensor_case::<PackedType<U512, B128>>(plan, cx),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

fn tensor_case<P: PackedField<Scalar = B128>>(plan: &Plan, cx: &mut Cx) -> Verdict {
	let mut r = Rng::new(plan.p("shape"));
	let total = plan.p("log") as usize;
	let k = r.usize(total + 1);
	let op = plan.p("op");
	let bad = !plan.faults.is_empty();
	cx.sample = format!("width {} total {total} new {k} op {op}", P::WIDTH);
	if op == 3 {
		return pieces_case(plan, cx);
	}
	let pt = point(&mut r, if op == 0 { k } else { total });
	let init: Vec<B128> = (0..1usize << (total - k)).map(|_| elem(&mut r, 7)).collect();
	let mut buf = vec![P::broadcast(elem(&mut r, 7)); 1 << total.saturating_sub(P::LOG_WIDTH)];
	for (i, v) in init.iter().enumerate() {
		set_packed_slice(&mut buf, i, *v);
	}
	if bad {
		buf.push(P::zero());
	}
	let got = caught(
		"tensor",
		cx.sim(|| match op {
			0 => tensor_prod_eq_ind(total - k, &mut buf, &pt).map(|()| buf.clone()).map_err(s),
			1 => Ok(eq_ind_partial_eval::<P>(&pt)),
			_ => make_portable_backend().tensor_product_full_query::<P>(&pt).map(|v| v.to_vec()).map_err(s),
		}),
	)?;
	cx.nontrivial = true;
	if op == 0 && bad {
		cx.fired("wrong length");
		return if got.is_ok() { Err(format!("no-error: wrong length: {}", cx.sample)) } else { Ok(()) };
	}
	let want = eq_expand(if op == 0 { &init } else { &[B128::ONE] }, &pt);
	let got = scalars(&got.map_err(|e| format!("error: {}: {e}", cx.sample))?, 1 << total);
	if got != want {
		return Err(format!("wrong-value: {}", cx.sample));
	}
	Ok(())
}

fn pieces_case(plan: &Plan, cx: &mut Cx) -> Verdict {
	let mut r = Rng::new(plan.p("shape"));
	let total = (plan.p("log") as usize).min(9);
	let mut counts = vec![0usize; total + 1];
	let mut used = 0;
	for _ in 0..r.range(1, 12) {
		let v = r.usize(total + 1);
		if used + (1 << v) <= 1 << total {
			used += 1 << v;
			counts[v] += 1;
		}
	}
	if used == 0 {
		counts[0] = 1;
	}
	if r.chance(1, 2) {
		while counts.last() == Some(&0) {
			counts.pop();
		}
	}
	let pt = point(&mut r, total);
	let mut whole = Vec::new();
	let mut evals = Vec::new();
	for (v, c) in counts.iter().enumerate().rev() {
		for _ in 0..*c {
			let d: Vec<B128> = (0..1usize << v).map(|_| elem(&mut r, 7)).collect();
			evals.push(eval_at(&d, &pt[..v]));
			whole.extend(d);
		}
	}
	let want = {
		let mut w = whole.clone();
		w.resize(1 << total, B128::ZERO);
		eval_at(&w, &pt)
	};
	cx.sample = format!("pieces {counts:?} in {total} variables");
	cx.nontrivial = true;
	let mut bad = None;
	if let Some(f) = plan.faults.first() {
		if f.args[0] % 2 == 0 {
			evals.push(B128::ONE);
			bad = Some("one evaluation too many");
		} else {
			let c = (((1usize << total) - whole.len()) + 1).max(1);
			counts[0] += c;
			evals.extend(vec![B128::ONE; c]);
			bad = Some("too many pieces");
		}
	}
	let got = std::panic::catch_unwind(AssertUnwindSafe(|| evaluate_piecewise_multilinear(&pt, &counts, &mut evals)));
	let got = caught("piecewise", got)?;
	match (bad, got) {
		(Some(b), Ok(_)) => Err(format!("no-error: {b}: {}", cx.sample)),
		(Some(b), Err(_)) => {
			cx.fired(b);
			Ok(())
		}
		(None, Ok(v)) if v == want => Ok(()),
		(None, Ok(_)) => Err(format!("wrong-value: {}", cx.sample)),
		(None, Err(e)) => Err(format!("error: {}: {e}", cx.sample)),
	}
}

fn main() {
	// Constants of the hash functions, once for all runs.
	VisionHasherDigest::default().finalize();
	let mut out: [MaybeUninit<Output<VisionHasherDigest>>; 32] = std::array::from_fn(|_| MaybeUninit::new(Default::default()));
	VisionHasherDigestByteSliced::new().finalize_into(&mut out);
	main_for(
		"C11",
		"fault_enumeration",
		"a run counts if a kernel was called; identity: parameters, data and interleaving",
		Budget { secs: (45, 1800), runs: (100_000, 10_000_000) },
		&[&Ntt, &Rs, &Hash, &Multilinear, &Tensor],
	)
}
