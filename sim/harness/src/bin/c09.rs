//! C09: commitments bind, and openings prove exactly what was committed.
use std::sync::Arc;

use binius_compute::{
	ComputeHolder, ComputeLayer, ComputeMemory, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder,
};
use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, HasherChallenger},
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	oracle::{MultilinearOracleSet, OracleId},
	piop::{self, CommitMeta, PIOPSumcheckClaim},
	polynomial::MultivariatePoly,
	protocols::{
		evalcheck::{EvalcheckMultilinearClaim, subclaims::MemoizedData},
		fri::{self, CommitOutput, FRIFolder, FRIParams, FRIVerifier, FoldRoundOutput},
	},
	reed_solomon::reed_solomon::ReedSolomonCode,
	ring_switch::{self, EvalClaimSystem, ReducedClaim, ReducedWitness},
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::MultilinearExtensionTransparent,
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField, BinaryField1b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b,
	BinaryField128b as B128, ExtensionField, Field, PackedField,
	arch::{OptimalUnderlier128b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::pack_slice,
	tower::CanonicalTowerFamily,
};
use binius_hash::{
	PseudoCompressionFunction,
	groestl::{Groestl256, Groestl256ByteCompression},
	Vision32Compression, Vision32ParallelDigest,
};
use binius_math::{MLEDirectAdapter, MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly};
use binius_maybe_rayon::prelude::*;
use binius_ntt::{SingleThreadedNTT, fri::fold_interleaved};
use digest::{Digest, Output};
use vsim::{
	sys::elem,
	tap::{self, TapChallenger},
	*,
};

type Ch = HasherChallenger<Groestl256>;
type VT = VerifierTranscript<Ch>;
type Tree = BinaryMerkleTreeProver<B128, Groestl256, Groestl256ByteCompression>;
type Dig = Output<Groestl256>;

const REAL: &str = "binius_core merkle_tree, fri, piop, ring_switch, reed_solomon, transcript; binius_compute and fast_compute layers; ntt, hash, math, field; rayon iterators";

fn s(e: impl ToString) -> String {
	e.to_string()
}

fn eval_at(v: &[B128], point: &[B128]) -> B128 {
	assert_eq!(v.len(), 1 << point.len());
	let mut v = v.to_vec();
	for c in point.iter().rev() {
		let h = v.len() / 2;
		for i in 0..h {
			let (a, b) = (v[i], v[i + h]);
			v[i] = a + *c * (b - a);
		}
		v.truncate(h);
	}
	v[0]
}

fn eq_expand(point: &[B128]) -> Vec<B128> {
	let mut v = vec![B128::ONE];
	for c in point {
		let hi: Vec<_> = v.iter().map(|x| *x * *c).collect();
		for (x, h) in v.iter_mut().zip(&hi) {
			*x -= *h;
		}
		v.extend(hi);
	}
	v
}

fn point_elem(r: &mut Rng) -> B128 {
	match r.below(12) {
		0 => B128::ZERO,
		1 => B128::ONE,
		_ => B128::new(r.u128()),
	}
}

fn nonzero(r: &mut Rng) -> B128 {
	B128::new(r.u128() | 1 << r.below(128))
}

fn bytes_of(v: &[B128]) -> Vec<u8> {
	v.iter().flat_map(|x| x.val().to_le_bytes()).collect()
}

fn caught<T>(what: &str, r: std::thread::Result<T>) -> Result<T, String> {
	r.map_err(|_| format!("panic: {what}: {:?}", take_panics()))
}

// ---------------------------------------------------------------- Merkle trees

struct Merkle;

fn merkle_case<H, C>(comp: C, plan: &Plan, cx: &mut Cx) -> Verdict
where
	H: binius_hash::multi_digest::ParallelDigest<
			Digest: digest::core_api::BlockSizeUser + digest::FixedOutputReset,
		> + Send
		+ Sync,
	C: PseudoCompressionFunction<Output<H::Digest>, 2> + Sync + Send + Clone,
	Output<H::Digest>: binius_utils::SerializeBytes + binius_utils::DeserializeBytes + Send + Sync + std::fmt::Debug,
{
	let mut r = Rng::new(plan.p("shape"));
	let log_len = plan.p("log") as usize;
	let batch = plan.p("batch") as usize;
	let data: Vec<B128> = (0..batch << log_len).map(|_| elem(&mut r, 7)).collect();
	// The model: hash each chunk, then pairs, until one digest is left.
	let mut layers = vec![
		data.chunks(batch)
			.map(|c| <H::Digest as Digest>::digest(bytes_of(c)))
			.collect::<Vec<_>>(),
	];
	while layers.last().unwrap().len() > 1 {
		let next = layers
			.last()
			.unwrap()
			.chunks(2)
			.map(|p| comp.compress([p[0].clone(), p[1].clone()]))
			.collect();
		layers.push(next);
	}
	layers.reverse();
	let prover = BinaryMerkleTreeProver::<B128, H, C>::new(comp.clone());
	let iterated = plan.p("iterated") == 1;
	let (com, tree) = caught(
		"commit",
		cx.sim(|| {
			if iterated {
				prover.commit_iterated(data.par_chunks(batch).map(|c| c.iter().copied()), log_len)
			} else {
				prover.commit(&data, batch)
			}
		}),
	)?
	.map_err(|e| format!("error: commit: {e}"))?;
	if com.depth != log_len || com.root != layers[0][0] {
		return Err(format!("wrong-root: commitment to 2^{log_len} leaves of {batch} elements"));
	}
	let scheme = prover.scheme();
	for (d, l) in layers.iter().enumerate() {
		match prover.layer(&tree, d) {
			Ok(x) if x == &l[..] => {}
			Ok(_) => return Err(format!("wrong-layer: layer {d} of {log_len}")),
			Err(e) => return Err(format!("error: layer {d} of {log_len}: {e}")),
		}
	}
	if prover.layer(&tree, log_len + 1).is_ok() {
		return Err("accepted: a layer below the leaves".into());
	}
	scheme.verify_vector(&com.root, &data, batch).map_err(|e| format!("rejected: whole vector: {e}"))?;
	let other = |r: &mut Rng, d: &Output<H::Digest>| {
		let mut d = d.clone();
		let k = r.usize(d.len());
		d[k] ^= 1 << r.below(8);
		d
	};
	let depth = r.usize(log_len + 1);
	let layer = layers[depth].clone();
	scheme.verify_layer(&com.root, depth, &layer).map_err(|e| format!("rejected: layer: {e}"))?;
	let index = r.usize(1 << log_len);
	let open = |index: usize, depth: usize| {
		let mut t = ProverTranscript::<Ch>::new();
		prover.prove_opening(&tree, depth, index, &mut t.decommitment()).map_err(s)?;
		Ok::<_, String>(t.finalize())
	};
	let proof = open(index, depth).map_err(|e| format!("error: opening: {e}"))?;
	if proof.len() != (log_len - depth) * layers[0][0].len() {
		return Err(format!("wrong-size: opening has {} bytes", proof.len()));
	}
	let size = (0..1u64 << 2)
		.map(|q| scheme.proof_size(1 << log_len, q as usize, depth).map_err(s))
		.collect::<Vec<_>>();
	for (q, n) in size.iter().enumerate() {
		let want = ((log_len - depth) * q + (1 << depth)) * layers[0][0].len();
		if *n != Ok(want) {
			return Err(format!("wrong-size: proof_size(2^{log_len}, {q}, {depth}) is {n:?}, the proof has {want} bytes"));
		}
	}
	let check = |index: usize, values: &[B128], depth: usize, layer: &[Output<H::Digest>], proof: &[u8]| {
		let mut t = VT::new(proof.to_vec());
		scheme
			.verify_opening(index, values, depth, log_len, layer, &mut t.decommitment())
			.map_err(s)
			.and_then(|()| t.finalize().map_err(s))
	};
	let values = data[index * batch..][..batch].to_vec();
	check(index, &values, depth, &layer, &proof).map_err(|e| format!("rejected: opening {index} of 2^{log_len}: {e}"))?;
	if open(1 << log_len, depth).is_ok() || check(1 << log_len, &values, depth, &layer, &proof).is_ok() {
		return Err("accepted: an index out of range".into());
	}
	for f in &plan.faults {
		let mut r = Rng::new(f.args[0]);
		let mut v = values.clone();
		let mut l = layer.clone();
		let mut p = proof.clone();
		let mut i = index;
		let bad = match f.kind.as_str() {
			"wrong value" => {
				let k = r.usize(batch);
				v[k] += nonzero(&mut r);
				check(i, &v, depth, &l, &p)
			}
			"fewer values" => {
				v.pop();
				check(i, &v, depth, &l, &p)
			}
			"wrong index" => {
				i ^= 1 << r.usize(log_len.max(1));
				if i >= 1 << log_len || data[i * batch..][..batch] == values[..] {
					continue;
				}
				if r.chance(1, 2) {
					p = open(i, depth).map_err(s)?;
				}
				check(i, &v, depth, &l, &p)
			}
			"wrong branch" if !p.is_empty() => {
				let k = r.usize(p.len());
				p[k] ^= 1 << r.below(8);
				check(i, &v, depth, &l, &p)
			}
			"short branch" if !p.is_empty() => {
				p.truncate(r.usize(p.len()));
				check(i, &v, depth, &l, &p)
			}
			"long branch" => {
				p.push(0);
				check(i, &v, depth, &l, &p)
			}
			"wrong layer" => {
				let k = index >> (log_len - depth);
				l[k] = other(&mut r, &l[k]);
				check(i, &v, depth, &l, &p)
			}
			"wrong root" => scheme.verify_layer(&other(&mut r, &com.root), depth, &l).map_err(s),
			"wrong digest" => {
				let k = r.usize(l.len());
				l[k] = other(&mut r, &l[k]);
				scheme.verify_layer(&com.root, depth, &l).map_err(s)
			}
			"short layer" => {
				l.truncate(r.usize(l.len()));
				scheme.verify_layer(&com.root, depth, &l).and_then(|()| {
					let mut t = VT::new(p.clone());
					scheme.verify_opening(i, &v, depth, log_len, &l, &mut t.decommitment())
				})
				.map_err(s)
			}
			"wrong vector" => {
				let mut d = data.clone();
				let k = r.usize(d.len());
				d[k] += nonzero(&mut r);
				scheme.verify_vector(&com.root, &d, batch).map_err(s)
			}
			"swapped vector" => {
				let mut d = data.clone();
				let (a, b) = (r.usize(d.len()), r.usize(d.len()));
				if d[a] == d[b] {
					continue;
				}
				d.swap(a, b);
				scheme.verify_vector(&com.root, &d, batch).map_err(s)
			}
			_ => continue,
		};
		cx.fired(&f.kind);
		if bad.is_ok() {
			return Err(format!("accepted: {} in a tree of 2^{log_len} leaves of {batch}, layer {depth}", f.kind));
		}
	}
	cx.nontrivial = true;
	Ok(())
}

impl Scenario for Merkle {
	fn name(&self) -> &'static str {
		"merkle"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("log", r.below(if thorough { 9 } else { 7 }));
		plan.set("batch", r.range(1, 9));
		plan.set("iterated", r.below(2));
		plan.set("vision", (r.below(5) == 0) as u64);
		for _ in 0..4 {
			let k = *r.pick(&[
				"wrong value", "fewer values", "wrong index", "wrong branch", "short branch", "long branch", "wrong layer",
				"wrong root", "wrong digest", "short layer", "wrong vector", "swapped vector",
			]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			"batch" => Some(1),
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.key = plan.p("shape");
		cx.sample = format!("2^{} leaves of {}", plan.p("log"), plan.p("batch"));
		if plan.p("vision") == 1 {
			merkle_case::<Vision32ParallelDigest, _>(Vision32Compression, plan, cx)
		} else {
			merkle_case::<Groestl256, _>(Groestl256ByteCompression, plan, cx)
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

// ---------------------------------------------------------------- FRI

struct Fri;

#[derive(Debug, Clone)]
struct FriCase {
	log_dim: usize,
	rate: usize,
	batch: usize,
	arities: Vec<usize>,
	queries: usize,
}

impl FriCase {
	fn draw(plan: &Plan, r: &mut Rng) -> FriCase {
		let total = plan.p("total") as usize;
		let batch = r.usize(total + 1).min(4);
		let mut left = total - 1;
		let mut arities = vec![];
		// The first arity covers the interleaving.
		if batch <= left && r.chance(7, 8) {
			let a = (batch + r.usize(3)).clamp(1, left.max(1));
			if a <= left {
				arities.push(a);
				left -= a;
				while left > 0 && r.chance(4, 5) {
					let a = r.range(1, left.min(4) as u64) as usize;
					arities.push(a);
					left -= a;
				}
			}
		}
		FriCase { log_dim: total - batch, rate: r.range(1, 3) as usize, batch, arities, queries: r.range(30, 45) as usize }
	}
}

/// Runs one FRI proof and returns the verifier's answer with the challenges.
fn fri_case<FA, P, Hal, H>(c: &FriCase, msg: &[B128], fault: Option<&Fault>, holder: &mut H) -> Result<(Result<B128, String>, Vec<B128>, bool), String>
where
	FA: BinaryField,
	B128: ExtensionField<FA>,
	P: PackedField<Scalar = B128> + binius_field::PackedExtension<FA>,
	Hal: ComputeLayer<B128>,
	H: ComputeHolder<B128, Hal>,
{
	let code = ReedSolomonCode::<FA>::new(c.log_dim, c.rate).map_err(s)?;
	let params = FRIParams::<B128, FA>::new(code, c.batch, c.arities.clone(), c.queries).map_err(s)?;
	let code = ReedSolomonCode::<FA>::new(c.log_dim, c.rate).map_err(s)?;
	let ntt = SingleThreadedNTT::<FA>::with_subspace(params.rs_code().subspace()).map_err(s)?;
	let tree = Tree::new(Groestl256ByteCompression);
	let packed: Vec<P> = pack_slice(msg);
	let CommitOutput { commitment, mut committed, mut codeword } =
		fri::commit_interleaved(&code, &params, &ntt, &tree, &packed).map_err(s)?;
	let mut commitment = commitment;
	let kind = fault.map_or("", |f| f.kind.as_str());
	let mut r = Rng::new(fault.map_or(0, |f| f.args[0]));
	let mut applied = false;
	let mut scalars: Vec<B128> = P::iter_slice(&codeword).collect();
	let first = c.arities.first().copied().unwrap_or(c.log_dim + c.batch);
	match kind {
		"far word" => {
			// Not a codeword, honestly committed and folded.
			let base = nonzero(&mut r);
			for x in scalars.iter_mut() {
				if r.chance(7, 8) {
					*x += base * nonzero(&mut r);
				}
			}
			let (com, t) = tree.commit(&scalars, 1 << first).map_err(s)?;
			commitment = com.root;
			committed = t;
			codeword = pack_slice(&scalars);
			applied = true;
		}
		"near word" => {
			// A codeword except in one block, honestly committed and folded.
			let log = scalars.len().ilog2() as usize;
			let size = 1usize << r.usize(log);
			let at = r.usize(scalars.len() / size) * size;
			for x in &mut scalars[at..at + size] {
				*x += nonzero(&mut r);
			}
			let (com, t) = tree.commit(&scalars, 1 << first).map_err(s)?;
			commitment = com.root;
			committed = t;
			codeword = pack_slice(&scalars);
			applied = true;
		}
		"other tree" => {
			// Folds and opens another word than the committed one.
			let mut w = scalars.clone();
			for x in w.iter_mut() {
				*x += nonzero(&mut r);
			}
			let (com, t) = tree.commit(&w, 1 << first).map_err(s)?;
			commitment = com.root;
			committed = t;
			applied = true;
		}
		_ => {}
	}
	let mut t = ProverTranscript::<Ch>::new();
	t.message().write(&commitment);
	let folded_rounds: usize = c.arities.iter().sum();
	let bytes = if matches!(kind, "other oracle" | "bent oracle") && !c.arities.is_empty() {
		// A prover that commits to another oracle in one round and is honest otherwise.
		let at = r.usize(c.arities.len());
		let mut words = vec![scalars];
		let mut trees = vec![committed];
		let mut log_len = params.rs_code().log_len();
		for (k, a) in c.arities.iter().enumerate() {
			let ch: Vec<B128> = t.sample_vec(*a);
			let (l, b) = if k == 0 { (log_len, c.batch) } else { (log_len, 0) };
			let mut w = fold_interleaved(&ntt, &words[k], &ch, l, b);
			log_len -= a - b;
			if k == at {
				applied = true;
				if kind == "other oracle" {
					// The encoding of another message, which the later rounds treat as theirs.
					let d = nonzero(&mut r);
					for x in w.iter_mut() {
						*x += d;
					}
				} else {
					for x in w.iter_mut() {
						if r.chance(7, 8) {
							*x += nonzero(&mut r);
						}
					}
				}
			}
			let cs = c.arities.get(k + 1).copied().unwrap_or(params.n_final_challenges());
			let (com, tr) = tree.commit(&w, 1 << cs).map_err(s)?;
			t.message().write(&com.root);
			words.push(w);
			trees.push(tr);
		}
		let _: Vec<B128> = t.sample_vec(params.n_final_challenges());
		let mut advice = t.decommitment();
		advice.write_scalar_slice(words.last().unwrap());
		let mut depth = params.log_len();
		let mut depths = vec![];
		for (k, a) in c.arities.iter().enumerate() {
			depth -= a;
			let d = tree.scheme().optimal_verify_layer(c.queries, depth);
			depths.push(d);
			advice.write_slice(tree.layer(&trees[k], d).map_err(s)?);
		}
		for _ in 0..c.queries {
			let mut index = t.sample_bits(params.index_bits()) as usize;
			let mut advice = t.decommitment();
			for (k, a) in c.arities.iter().enumerate() {
				if k > 0 {
					index >>= a;
				}
				advice.write_scalar_slice(&words[k][index << a..(index + 1) << a]);
				tree.prove_opening(&trees[k], depths[k], index, &mut advice).map_err(s)?;
			}
		}
		t.finalize()
	} else {
		let data = holder.to_data();
		let mut folder = FRIFolder::new(data.hal, &params, &ntt, &tree, &codeword, &committed).map_err(s)?;
		let skew = r.usize(params.n_fold_rounds().max(1));
		for i in 0..params.n_fold_rounds() {
			let mut ch: B128 = t.sample();
			if kind == "wrong challenge" && i == skew {
				ch += nonzero(&mut r);
				// Challenges after the last oracle are not the prover's business.
				applied = i < folded_rounds;
			}
			match folder.execute_fold_round(&data.dev_alloc, ch).map_err(s)? {
				FoldRoundOutput::NoCommitment => {}
				FoldRoundOutput::Commitment(com) => t.message().write(&com),
			}
		}
		folder.finish_proof(&mut t).map_err(s)?;
		t.finalize()
	};
	let mut bytes = bytes;
	match kind {
		"altered byte" => {
			let k = r.usize(bytes.len());
			bytes[k] ^= 1 << r.below(8);
			applied = true;
		}
		"short proof" => {
			bytes.truncate(r.usize(bytes.len()));
			applied = true;
		}
		"long proof" => {
			bytes.push(0);
			applied = true;
		}
		_ => {}
	}
	let mut v = VT::new(bytes);
	let mut challenges = vec![];
	let answer = (|| {
		let com: Dig = v.message().read().map_err(s)?;
		let mut coms: Vec<Dig> = vec![];
		for a in &c.arities {
			challenges.append(&mut v.sample_vec(*a));
			coms.push(v.message().read().map_err(s)?);
		}
		challenges.append(&mut v.sample_vec(params.n_final_challenges()));
		let f = FRIVerifier::new(&params, tree.scheme(), &com, &coms, &challenges)
			.map_err(s)?
			.verify(&mut v)
			.map_err(s)?;
		v.finalize().map_err(s)?;
		Ok(f)
	})();
	Ok((answer, challenges, applied))
}

impl Scenario for Fri {
	fn name(&self) -> &'static str {
		"fri"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("total", r.range(2, if thorough { 10 } else { 8 }));
		plan.set("layer", r.below(3));
		plan.set("alphabet", r.below(2));
		if r.chance(2, 3) {
			let k = *r.pick(&[
				"far word", "near word", "near word", "other tree", "wrong challenge", "other oracle", "bent oracle", "altered byte", "short proof",
				"long proof",
			]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			"total" => Some(2),
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let c = FriCase::draw(plan, &mut r);
		let msg: Vec<B128> = (0..1 << (c.log_dim + c.batch)).map(|_| elem(&mut r, 7)).collect();
		cx.key = plan.p("shape");
		cx.sample = format!("{c:?}");
		let fault = plan.faults.first();
		let (layer, wide) = (plan.p("layer"), plan.p("alphabet") == 1);
		type P4 = PackedType<OptimalUnderlier512b, B128>;
		type P1 = PackedType<OptimalUnderlier128b, B128>;
		let (h, d) = (1 << 8, 1 << 15);
		let layer = if layer == 2 && c.log_dim + c.batch < 2 { 1 } else { layer };
		let out = caught(
			"FRI",
			cx.sim(|| match (layer, wide) {
				(0, false) => fri_case::<BinaryField16b, P1, _, _>(&c, &msg, fault, &mut CpuLayerHolder::<B128>::new(h, d)),
				(0, true) => fri_case::<BinaryField32b, P1, _, _>(&c, &msg, fault, &mut CpuLayerHolder::<B128>::new(h, d)),
				(1, false) => fri_case::<BinaryField16b, P1, _, _>(
					&c,
					&msg,
					fault,
					&mut FastCpuLayerHolder::<CanonicalTowerFamily, P1>::new(h, d),
				),
				(1, true) => fri_case::<BinaryField32b, P1, _, _>(
					&c,
					&msg,
					fault,
					&mut FastCpuLayerHolder::<CanonicalTowerFamily, P1>::new(h, d),
				),
				(_, false) => fri_case::<BinaryField16b, P4, _, _>(
					&c,
					&msg,
					fault,
					&mut FastCpuLayerHolder::<CanonicalTowerFamily, P4>::new(h, d),
				),
				(_, true) => fri_case::<BinaryField32b, P4, _, _>(
					&c,
					&msg,
					fault,
					&mut FastCpuLayerHolder::<CanonicalTowerFamily, P4>::new(h, d),
				),
			}),
		)?;
		let (answer, challenges, applied) = out.map_err(|e| format!("error: FRI prover: {e}"))?;
		cx.nontrivial = true;
		if applied {
			let k = &fault.unwrap().kind;
			cx.fired(k);
			if answer.is_ok() {
				return Err(format!("accepted: FRI proof with {k}: {c:?}"));
			}
			return Ok(());
		}
		match answer {
			Err(e) => Err(format!("rejected: FRI proof of {c:?}: {e}")),
			Ok(v) if v != eval_at(&msg, &challenges) => Err(format!("wrong-value: FRI final value of {c:?}")),
			Ok(_) => Ok(()),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
	fn stub(&self) -> &'static str {
		"the dishonest prover that substitutes an oracle is the harness's own"
	}
}

// ---------------------------------------------------------------- evaluation claims on committed columns

struct Open;

#[derive(Clone)]
struct Col {
	level: usize,
	n_vars: usize,
	data: Vec<B128>,
}

#[derive(Clone)]
struct EvalClaim {
	col: usize,
	point: Vec<B128>,
	value: B128,
}

struct OpenCase {
	cols: Vec<Col>,
	claims: Vec<EvalClaim>,
	rate: usize,
	security: usize,
}

fn mle<P: PackedField>(n_vars: usize, v: &[B128]) -> MultilinearExtension<P>
where
	P::Scalar: TryFrom<B128>,
{
	let s: Vec<P::Scalar> = v.iter().map(|x| P::Scalar::try_from(*x).ok().unwrap()).collect();
	MultilinearExtension::new(n_vars, pack_slice::<P>(&s)).unwrap()
}

impl OpenCase {
	fn draw(plan: &Plan, r: &mut Rng) -> OpenCase {
		let max = plan.p("max") as usize;
		let mut cols = vec![];
		let n = plan.p("cols") as usize;
		while cols.len() < n {
			let level = *r.pick(&[0, 0, 3, 4, 5, 6, 7]);
			let n_vars = match r.below(6) {
				0 => r.usize(7 - level + 1),
				_ => 7 - level + r.usize(max + 1),
			};
			let data = (0..1 << n_vars).map(|_| elem(r, level)).collect();
			cols.push(Col { level, n_vars, data });
		}
		// At least two packed elements in all.
		if cols.iter().map(|c| 1usize << (c.n_vars + c.level).saturating_sub(7)).sum::<usize>() < 2 {
			cols[0] = Col { level: 7, n_vars: 1, data: vec![elem(r, 7), elem(r, 7)] };
		}
		let longest = cols.iter().map(|c| c.n_vars).max().unwrap();
		let pool: Vec<Vec<B128>> = (0..2).map(|_| (0..longest).map(|_| point_elem(r)).collect()).collect();
		let claims = (0..plan.p("claims"))
			.map(|_| {
				let col = r.usize(cols.len());
				let k = cols[col].n_vars;
				let mut point = match r.below(5) {
					0 => (0..k).map(|_| point_elem(r)).collect::<Vec<_>>(),
					1 | 2 => r.pick(&pool)[..k].to_vec(),
					_ => r.pick(&pool)[longest - k..].to_vec(),
				};
				if k > 0 && r.chance(1, 6) {
					let j = r.usize(k);
					point[j] = point_elem(r);
				}
				let value = eval_at(&cols[col].data, &point);
				EvalClaim { col, point, value }
			})
			.collect();
		OpenCase { cols, claims, rate: r.range(1, 3) as usize, security: r.range(20, 60) as usize }
	}
	fn describe(&self) -> String {
		format!(
			"columns {:?}; claims on {:?}; rate {} security {}",
			self.cols.iter().map(|c| (c.n_vars, c.level)).collect::<Vec<_>>(),
			self.claims.iter().map(|c| c.col).collect::<Vec<_>>(),
			self.rate,
			self.security
		)
	}
}

/// Security of the query phase: the chance that a word outside the decoding radius escapes.
fn queries_suffice<FE: BinaryField>(p: &FRIParams<B128, FE>, security: usize) -> bool
where
	B128: ExtensionField<FE>,
{
	if p.fold_arities().is_empty() {
		// Everything is sent.
		return true;
	}
	let rate = 0.5f64.powi(p.rs_code().log_inv_rate() as i32);
	let per_query = ((1.0 + rate) / 2.0).log2();
	p.n_test_queries() as f64 * per_query <= -(security as f64) + 1e-6
}

macro_rules! wide {
	($m:ident, $u:ty) => {
		mod $m {
			use super::*;
			pub type U = $u;
			pub type P = PackedType<U, B128>;

			pub fn witness(oracles: &MultilinearOracleSet<B128>, ids: &[OracleId], cols: &[Col]) -> MultilinearExtensionIndex<'static, P> {
				let _ = oracles;
				let mut w = MultilinearExtensionIndex::new();
				for (id, c) in ids.iter().zip(cols) {
					macro_rules! up {
						($f:ty) => {
							MLEEmbeddingAdapter::<PackedType<U, $f>, P>::from(mle::<PackedType<U, $f>>(c.n_vars, &c.data))
								.upcast_arc_dyn()
						};
					}
					let m = match c.level {
						0 => up!(BinaryField1b),
						3 => up!(BinaryField8b),
						4 => up!(BinaryField16b),
						5 => up!(BinaryField32b),
						6 => up!(BinaryField64b),
						_ => up!(B128),
					};
					w.update_multilin_poly([(*id, m)]).unwrap();
				}
				w
			}

			/// Proves and verifies; says what the verifier answered and whether a fault was applied.
			pub fn open<Hal: ComputeLayer<B128>, H: ComputeHolder<B128, Hal>>(
				mut holder: H,
				c: &OpenCase,
				committed_cols: &[Col],
				switch_cols: &[Col],
				said: &[EvalClaim],
				tensor: Option<(usize, usize)>,
				bytes_fault: Option<&Fault>,
			) -> Result<(Result<(), String>, bool), String> {
				let mut oracles = MultilinearOracleSet::<B128>::new();
				let ids: Vec<OracleId> = c.cols.iter().map(|x| oracles.add_committed(x.n_vars, x.level)).collect();
				let (meta, index) = piop::make_oracle_commit_meta(&oracles).map_err(s)?;
				let tree = Tree::new(Groestl256ByteCompression);
				let params = piop::make_commit_params_with_optimal_arity::<_, BinaryField32b, _>(
					&meta,
					tree.scheme(),
					c.security,
					c.rate,
				)
				.map_err(s)?;
				if !queries_suffice(&params, c.security) {
					return Err(format!("too few queries: {} for {} bits", params.n_test_queries(), c.security));
				}
				let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(s)?;
				let collect = |cols: &[Col]| {
					let w = witness(&oracles, &ids, cols);
					piop::collect_committed_witnesses::<U, _>(&meta, &index, &oracles, &w).map_err(s)
				};
				let mls = collect(&c.cols)?;
				let CommitOutput { commitment, committed, codeword } =
					piop::commit(&params, &ntt, &tree, &collect(committed_cols)?).map_err(s)?;
				let claims: Vec<EvalcheckMultilinearClaim<B128>> = said
					.iter()
					.map(|x| EvalcheckMultilinearClaim {
						id: ids[x.col],
						eval_point: x.point.clone().into(),
						eval: x.value,
					})
					.collect();
				let system = EvalClaimSystem::new(&oracles, &meta, &index, &claims).map_err(s)?;
				let mut alter = vec![];
				if let Some((victim, slot)) = tensor {
					// Bends the batched partial evaluation so that it fits the false claim.
					let mut t = ProverTranscript::<Ch>::new();
					t.message().write(&commitment);
					let n = system.sumcheck_claim_descs.len();
					let mix: Vec<B128> = t.sample_vec(n.next_power_of_two().ilog2() as usize);
					let mix = eq_expand(&mix);
					let k = system
						.sumcheck_claim_descs
						.iter()
						.position(|d| std::ptr::eq(d.eval_claim, &claims[victim]))
						.unwrap();
					let pi = system.eval_claim_to_prefix_desc_index[k];
					let prefix = &system.prefix_descs[pi].prefix;
					let eq = eq_expand(prefix);
					let good: Vec<usize> = (0..eq.len()).filter(|i| eq[*i] != B128::ZERO).collect();
					let i = good[slot % good.len()];
					let d = said[victim].value - c.claims[victim].value;
					let d = d * mix[k] * eq[i].invert().unwrap();
					let at = 32
						+ 16 * (system.prefix_descs[..pi].iter().map(|p| 1usize << p.prefix.len()).sum::<usize>() + i);
					alter = d.val().to_le_bytes().iter().enumerate().map(|(j, b)| (at + j, *b)).collect();
				}
				let mut applied = !alter.is_empty();
				tap::start(alter.clone());
				let proved = (|| -> Result<Vec<u8>, String> {
					let data = holder.to_data();
					let mut t = ProverTranscript::<TapChallenger>::new();
					t.message().write(&commitment);
					let ReducedWitness { transparents, sumcheck_claims } = ring_switch::prove::<_, P, _, _, _, _, _>(
						&system,
						&collect(switch_cols)?,
						&mut t,
						MemoizedData::new(),
						data.hal,
						&data.dev_alloc,
						&data.host_alloc,
					)
					.map_err(s)?;
					piop::prove(
						&data,
						&params,
						&ntt,
						&tree,
						&meta,
						committed,
						&codeword,
						&mls,
						transparents,
						&sumcheck_claims,
						&mut t,
					)
					.map_err(s)?;
					Ok(t.finalize())
				})();
				tap::stop();
				let mut bytes = proved?;
				for (p, m) in alter {
					bytes[p] ^= m;
				}
				if let Some(f) = bytes_fault {
					let mut r = Rng::new(f.args[0]);
					match f.kind.as_str() {
						"altered byte" => {
							let k = r.usize(bytes.len());
							bytes[k] ^= 1 << r.below(8);
						}
						"altered message" => {
							let k = r.usize(bytes.len().min(2000));
							bytes[k] ^= 1 << r.below(8);
						}
						"short proof" => bytes.truncate(r.usize(bytes.len())),
						_ => bytes.push(0),
					}
					applied = true;
				}
				let mut v = VT::new(bytes);
				let answer = (|| {
					let com: Dig = v.message().read().map_err(s)?;
					let ReducedClaim { transparents, sumcheck_claims } = ring_switch::verify(&system, &mut v).map_err(s)?;
					piop::verify(&meta, tree.scheme(), &params, &com, &transparents, &sumcheck_claims, &mut v).map_err(s)?;
					v.finalize().map_err(s)
				})();
				Ok((answer, applied))
			}

			/// Sumcheck claims on products of committed and transparent multilinears.
			#[allow(clippy::too_many_arguments)]
			pub fn products<Hal: ComputeLayer<B128>, H: ComputeHolder<B128, Hal>>(
				mut holder: H,
				sizes: &[usize],
				cols: &[Vec<B128>],
				trans: &[Vec<B128>],
				prover_trans: &[Vec<B128>],
				claims: &[PIOPSumcheckClaim<B128>],
				rate: usize,
				security: usize,
			) -> Result<Result<(), String>, String> {
				let meta = CommitMeta::with_vars(sizes.iter().copied());
				let tree = Tree::new(Groestl256ByteCompression);
				let params = piop::make_commit_params_with_optimal_arity::<_, BinaryField32b, _>(
					&meta,
					tree.scheme(),
					security,
					rate,
				)
				.map_err(s)?;
				let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).map_err(s)?;
				let mls: Vec<_> = cols
					.iter()
					.zip(sizes)
					.map(|(d, n)| MLEDirectAdapter::from(mle::<P>(*n, d)))
					.collect();
				let CommitOutput { commitment, committed, codeword } =
					piop::commit(&params, &ntt, &tree, &mls).map_err(s)?;
				let mut t = ProverTranscript::<Ch>::new();
				t.message().write(&commitment);
				let data = holder.to_data();
				let mut up = vec![];
				for d in prover_trans {
					let mut b = data.dev_alloc.alloc(d.len()).map_err(s)?;
					data.hal.copy_h2d(d, &mut b).map_err(s)?;
					up.push(Hal::DevMem::to_const(b));
				}
				piop::prove(
					&data, &params, &ntt, &tree, &meta, committed, &codeword, &mls, up, claims, &mut t,
				)
				.map_err(s)?;
				let mut v = t.into_verifier();
				let polys: Vec<_> = trans
					.iter()
					.map(|d| {
						let n = d.len().ilog2() as usize;
						MultilinearExtensionTransparent::<P, P>::from_values_and_mu(pack_slice(d), n).unwrap()
					})
					.collect();
				let polys: Vec<&dyn MultivariatePoly<B128>> = polys.iter().map(|p| p as &dyn MultivariatePoly<B128>).collect();
				Ok((|| {
					let com: Dig = v.message().read().map_err(s)?;
					piop::verify(&meta, tree.scheme(), &params, &com, &polys, claims, &mut v).map_err(s)?;
					v.finalize().map_err(s)
				})())
			}
		}
	};
}

wide!(w1, OptimalUnderlier128b);
wide!(w4, OptimalUnderlier512b);

impl Scenario for Open {
	fn name(&self) -> &'static str {
		"openings"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("max", r.range(1, if thorough { 6 } else { 4 }));
		plan.set("cols", r.range(1, 5));
		plan.set("claims", r.range(1, 6));
		plan.set("layer", r.below(3));
		if r.chance(2, 3) {
			let k = *r.pick(&[
				"false value", "cancelling values", "other commitment", "bent partial evaluation", "other witness", "altered byte",
				"altered message", "short proof", "long proof",
			]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			"cols" | "claims" => Some(1),
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let c = OpenCase::draw(plan, &mut r);
		cx.sample = c.describe();
		cx.key = plan.p("shape");
		let mut said = c.claims.clone();
		let mut committed = c.cols.clone();
		let mut switch = c.cols.clone();
		let mut tensor = None;
		let mut bytes = None;
		let fault = plan.faults.first();
		if let Some(f) = fault {
			let mut r = Rng::new(f.args[0]);
			match f.kind.as_str() {
				"false value" => {
					let k = r.usize(said.len());
					said[k].value += nonzero(&mut r);
				}
				"bent partial evaluation" => {
					let k = r.usize(said.len());
					said[k].value += nonzero(&mut r);
					tensor = Some((k, r.usize(1 << 10)));
				}
				"cancelling values" => {
					let d = nonzero(&mut r);
					let k = r.usize(said.len());
					let j = (k + 1 + r.usize(said.len())) % said.len();
					said[k].value += d;
					if j != k {
						said[j].value += d;
					}
				}
				"other commitment" => {
					let k = r.usize(committed.len());
					let i = r.usize(committed[k].data.len());
					let l = committed[k].level;
					committed[k].data[i] = elem(&mut r, l);
				}
				"other witness" => {
					let k = r.usize(switch.len());
					let i = r.usize(switch[k].data.len());
					let l = switch[k].level;
					switch[k].data[i] = elem(&mut r, l);
					for x in &mut said {
						x.value = eval_at(&switch[x.col].data, &x.point);
					}
				}
				_ => bytes = Some(f),
			}
		}
		let truth = said.iter().all(|x| eval_at(&committed[x.col].data, &x.point) == x.value);
		let same = committed.iter().zip(&c.cols).all(|(a, b)| a.data == b.data)
			&& switch.iter().zip(&c.cols).all(|(a, b)| a.data == b.data);
		let (h, d) = (1 << 14, 1 << 16);
		let layer = plan.p("layer");
		let packed: usize = c.cols.iter().map(|c| 1usize << (c.n_vars + c.level).saturating_sub(7)).sum();
		let layer = if layer == 2 && packed < 4 { 1 } else { layer };
		let out = caught(
			"opening",
			cx.sim(|| match layer {
				0 => w1::open(CpuLayerHolder::<B128>::new(h, d), &c, &committed, &switch, &said, tensor, bytes),
				1 => w1::open(
					FastCpuLayerHolder::<CanonicalTowerFamily, w1::P>::new(h, d),
					&c,
					&committed,
					&switch,
					&said,
					tensor,
					bytes,
				),
				_ => w4::open(
					FastCpuLayerHolder::<CanonicalTowerFamily, w4::P>::new(h, d),
					&c,
					&committed,
					&switch,
					&said,
					tensor,
					bytes,
				),
			}),
		)?;
		cx.nontrivial = true;
		let (answer, applied) = match out {
			Ok(x) => x,
			Err(e) if truth && same => return Err(format!("error: opening prover: {e}")),
			Err(_) => {
				cx.count("prover gave up on a false claim");
				return Ok(());
			}
		};
		if !truth || applied {
			let k = &fault.unwrap().kind;
			cx.fired(k);
			if answer.is_ok() {
				return Err(format!("accepted: opening with {k}: {}", c.describe()));
			}
			return Ok(());
		}
		match answer {
			// A dishonest prover that happens to say the truth may still fail.
			Err(_) if !same => Ok(()),
			Err(e) => Err(format!("rejected: opening of {}: {e}", c.describe())),
			Ok(()) => Ok(()),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

struct Products;

impl Scenario for Products {
	fn name(&self) -> &'static str {
		"products"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("max", r.range(1, if thorough { 7 } else { 5 }));
		plan.set("cols", r.range(1, 6));
		plan.set("trans", r.range(0, 5));
		plan.set("claims", r.range(0, 8));
		plan.set("layer", r.below(3));
		if r.chance(2, 3) {
			let k = *r.pick(&["false sum", "cancelling sums", "other transparent"]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"shape" => None,
			"cols" | "max" => Some(1),
			_ => Some(0),
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("shape"));
		let max = plan.p("max") as usize;
		let mut sizes: Vec<usize> = (0..plan.p("cols")).map(|_| r.usize(max + 1)).collect();
		if sizes.iter().map(|n| 1usize << n).sum::<usize>() < 2 {
			sizes[0] = 1;
		}
		sizes.sort();
		let mut tsizes: Vec<usize> = (0..plan.p("trans")).map(|_| *r.pick(&sizes)).collect();
		tsizes.sort();
		let fill = |r: &mut Rng, n: usize| -> Vec<B128> { (0..1 << n).map(|_| elem(r, 7)).collect() };
		let cols: Vec<_> = sizes.iter().map(|n| fill(&mut r, *n)).collect();
		let trans: Vec<_> = tsizes.iter().map(|n| fill(&mut r, *n)).collect();
		let sum = |c: usize, t: usize, trans: &[Vec<B128>]| -> B128 {
			cols[c].iter().zip(&trans[t]).map(|(a, b)| *a * *b).sum()
		};
		let mut claims = vec![];
		let pairs: Vec<(usize, usize)> = (0..cols.len())
			.flat_map(|c| (0..trans.len()).map(move |t| (c, t)))
			.filter(|(c, t)| sizes[*c] == tsizes[*t])
			.collect();
		if !pairs.is_empty() {
			for _ in 0..plan.p("claims") {
				claims.push(*r.pick(&pairs));
			}
			claims.sort_by_key(|(c, _)| sizes[*c]);
		}
		let (rate, security) = (r.range(1, 3) as usize, r.range(20, 60) as usize);
		cx.key = plan.p("shape");
		cx.sample = format!("columns {sizes:?} transparents {tsizes:?} claims {claims:?}");
		let mut said: Vec<PIOPSumcheckClaim<B128>> = claims
			.iter()
			.map(|(c, t)| PIOPSumcheckClaim { n_vars: sizes[*c], committed: *c, transparent: *t, sum: sum(*c, *t, &trans) })
			.collect();
		let mut prover_trans = trans.clone();
		if let (Some(f), false) = (plan.faults.first(), said.is_empty()) {
			let mut r = Rng::new(f.args[0]);
			let n = said.len();
			match f.kind.as_str() {
				"false sum" => said[r.usize(n)].sum += nonzero(&mut r),
				"cancelling sums" => {
					let d = nonzero(&mut r);
					let k = r.usize(n);
					let j = (k + 1 + r.usize(n)) % n;
					said[k].sum += d;
					if j != k {
						said[j].sum += d;
					}
				}
				_ => {
					let k = r.usize(trans.len());
					let i = r.usize(trans[k].len());
					prover_trans[k][i] += nonzero(&mut r);
					for x in &mut said {
						x.sum = sum(x.committed, x.transparent, &prover_trans);
					}
				}
			}
		}
		let truth = said.iter().all(|x| x.sum == sum(x.committed, x.transparent, &trans));
		let same = prover_trans == trans;
		let (h, d) = (1 << 14, 1 << 16);
		let total: usize = sizes.iter().map(|n| 1usize << n).sum();
		let layer = if plan.p("layer") == 2 && total < 4 { 1 } else { plan.p("layer") };
		let (z, c, t, p, q) = (&sizes[..], &cols[..], &trans[..], &prover_trans[..], &said[..]);
		let out = caught(
			"piop",
			cx.sim(|| match layer {
				0 => w1::products(CpuLayerHolder::<B128>::new(h, d), z, c, t, p, q, rate, security),
				1 => w1::products(
					FastCpuLayerHolder::<CanonicalTowerFamily, w1::P>::new(h, d),
					z,
					c,
					t,
					p,
					q,
					rate,
					security,
				),
				_ => w4::products(
					FastCpuLayerHolder::<CanonicalTowerFamily, w4::P>::new(h, d),
					z,
					c,
					t,
					p,
					q,
					rate,
					security,
				),
			}),
		)?;
		cx.nontrivial = true;
		let answer = match out {
			Ok(x) => x,
			Err(e) if truth && same => return Err(format!("error: piop prover: {e}")),
			Err(_) => {
				cx.count("prover gave up on a false claim");
				return Ok(());
			}
		};
		if !truth {
			let k = &plan.faults[0].kind;
			cx.fired(k);
			if answer.is_ok() {
				return Err(format!("accepted: product claims with {k}: {}", cx.sample));
			}
			return Ok(());
		}
		match answer {
			Err(_) if !same => Ok(()),
			Err(e) => Err(format!("rejected: product claims {}: {e}", cx.sample)),
			Ok(()) => Ok(()),
		}
	}
	fn real(&self) -> &'static str {
		REAL
	}
}

fn main() {
	let _: Option<Arc<dyn MultilinearPoly<w1::P>>> = None;
	main_for(
		"C09",
		"fault_enumeration",
		"a run counts if a commitment was made and opened; identity: parameters, data and interleaving",
		Budget { secs: (60, 1800), runs: (100_000, 10_000_000) },
		&[&Merkle, &Fri, &Open, &Products],
	)
}
