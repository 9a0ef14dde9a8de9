//! C05: every challenge depends on everything said before it, equally for both parties.
use binius_core::{
	constraint_system::Proof,
	fiat_shamir::{CanSample, CanSampleBits, Challenger, HasherChallenger},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::{
	BinaryField1b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, TowerField,
	PackedBinaryField16x8b, PackedBinaryField4x32b, PackedField,
};
use binius_hash::groestl::Groestl256;
use binius_utils::{SerializationMode, SerializeBytes};
use bytes::{Buf, BufMut};
use vsim::{
	e2e::*,
	sys::Sys,
	tap::{self, Ev, TapChallenger},
	*,
};

/// The whole system, with both parties' challengers recorded.
struct Logs;
impl Scenario for Logs {
	fn name(&self) -> &'static str {
		"logs"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 8 } else { 5 });
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		let sizes = c.sys.table_sizes();
		let job = Job {
			cs: &ccs,
			digest: &digest,
			boundaries: &b,
			sizes: &sizes,
			log_inv_rate: plan.p("rate") as usize,
			security: plan.p("security") as usize,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		let w = u128b::witness(&c.sys, &c.data);
		tap::start(vec![]);
		let proof = match cx.sim(|| u128b::prove_with::<TapChallenger>(&job, w)) {
			Err(_) => return Err(format!("prover-panic: {:?}", take_panics())),
			Ok(Err(e)) => return Err(format!("prover-error: {e}")),
			Ok(Ok(p)) => p.transcript,
		};
		let pe = tap::stop().events;
		cx.observe(&proof);
		tap::start(vec![]);
		let p2 = Proof { transcript: proof.clone() };
		let r = cx.sim(|| verify_with::<TapChallenger>(&ccs, job.log_inv_rate, job.security, &digest, &b, p2));
		let ve = tap::stop().events;
		match r {
			Err(_) => return Err(format!("verifier-panic: {:?}", take_panics())),
			Ok(Err(e)) => return Err(format!("rejected: honest proof rejected: {e}")),
			Ok(Ok(())) => {}
		}
		if pe != ve {
			let k = pe.iter().zip(&ve).take_while(|(a, b)| a == b).count();
			let sh = |e: Option<&Ev>| match e {
				None => "end".to_string(),
				Some(Ev::Observe(v)) => format!("observes {} bytes", v.len()),
				Some(Ev::Sample(v)) => format!("draws {} bytes", v.len()),
			};
			return Err(format!(
				"disagree: event {k}: prover {}, verifier {}",
				sh(pe.get(k)),
				sh(ve.get(k))
			));
		}
		let mut pre = digest.to_vec();
		for b in &b {
			b.serialize(&mut pre, SerializationMode::CanonicalTower).unwrap();
		}
		let mut seen: Vec<u8> = Vec::new();
		for e in &pe {
			match e {
				Ev::Observe(v) => seen.extend(v),
				Ev::Sample(_) => {
					cx.count("challenge draws");
					if seen.len() < pre.len() + 4 * sizes.len() + 32 {
						return Err("unbound: a challenge is drawn before the statement, the table sizes and the commitment are absorbed".into());
					}
				}
			}
		}
		if seen.len() < pre.len() || seen[..pre.len()] != pre[..] {
			return Err("unbound: the statement is not what is absorbed first".into());
		}
		let msg = &seen[pre.len()..];
		if msg.len() > proof.len() || *msg != proof[..msg.len()] {
			let k = msg.iter().zip(&proof).take_while(|(a, b)| a == b).count();
			return Err(format!("unbound: proof byte {k} is not absorbed although later ones are ({} of {})", msg.len(), proof.len()));
		}
		cx.count_n("absorbed message bytes", msg.len() as u64);
		// Positions spot-checked: drawn last, as 32-bit numbers.
		let rho = 0.5f64.powi(job.log_inv_rate as i32);
		let need = ((-(job.security as f64)) / ((1.0 + rho) / 2.0).log2()).ceil() as usize;
		match pe.last() {
			Some(Ev::Sample(v)) if v.len() >= need * 4 => cx.count_n("positions checked", v.len() as u64 / 4),
			Some(Ev::Sample(v)) => {
				return Err(format!("unbound: {} bytes of positions drawn, {need} positions needed", v.len()));
			}
			_ => return Err("unbound: no positions drawn at the end".into()),
		}
		cx.nontrivial = true;
		cx.key = plan.p("shape");
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below; challenger wrapped by a recorder"
	}
}

/// Random histories of a transcript, run by a prover, by a verifier, and with one deviation.
struct Histories;

#[derive(Clone, Debug)]
enum Op {
	Observe(Vec<u8>),
	Message(Vec<u8>),
	Scalars(usize, Vec<u128>),
	Decommit(Vec<u8>),
	Sample(usize),
	Bits(usize),
}

fn ops_of(plan: &Plan) -> Vec<Op> {
	let mut r = Rng::derive(plan.p("shape"), "ops");
	let n = plan.p("ops");
	(0..n)
		.map(|_| {
			let len = 1 + match r.below(4) {
				0 => r.below(4),
				1 => r.below(40),
				2 => 30 + r.below(5),
				_ => r.below(150),
			} as usize;
			let mut v = vec![0u8; len];
			r.fill(&mut v);
			match r.below(12) {
				0 | 1 => Op::Observe(v),
				2 | 3 => Op::Message(v),
				4 | 5 => Op::Scalars(
					*r.pick(&[0, 3, 4, 5, 6, 7, 13, 15]),
					(0..1 + r.below(6)).map(|_| (r.next() as u128) << 64 | r.next() as u128).collect(),
				),
				6 => Op::Decommit(v),
				7 | 8 | 9 => Op::Sample(*r.pick(&[0, 3, 4, 5, 6, 7, 7, 7])),
				_ => Op::Bits(r.below(36) as usize),
			}
		})
		.collect()
}

trait Both: CanSampleBits<u32> {
	fn draw<F: TowerField>(&mut self) -> F;
}
impl<C: Challenger> Both for ProverTranscript<C> {
	fn draw<F: TowerField>(&mut self) -> F {
		self.sample()
	}
}
impl<C: Challenger> Both for VerifierTranscript<C> {
	fn draw<F: TowerField>(&mut self) -> F {
		self.sample()
	}
}

fn sample<T: Both>(t: &mut T, level: usize) -> Vec<u8> {
	let x: BinaryField128b = match level {
		0 => t.draw::<BinaryField1b>().into(),
		3 => t.draw::<BinaryField8b>().into(),
		4 => t.draw::<BinaryField16b>().into(),
		5 => t.draw::<BinaryField32b>().into(),
		6 => t.draw::<BinaryField64b>().into(),
		_ => t.draw::<BinaryField128b>(),
	};
	u128::from(x).to_le_bytes().to_vec()
}

type P = ProverTranscript<HasherChallenger<Groestl256>>;
type V = VerifierTranscript<HasherChallenger<Groestl256>>;

fn run_prover(ops: &[Op]) -> (Vec<u8>, Vec<Vec<u8>>) {
	let mut t = P::new();
	let mut drawn = Vec::new();
	for op in ops {
		match op {
			Op::Observe(v) => t.observe().write_bytes(v),
			Op::Message(v) => t.message().write_bytes(v),
			Op::Scalars(l, v) => {
				let mut m = t.message();
				match l {
					0 => v.iter().for_each(|&x| m.write_scalar(BinaryField1b::from((x & 1) as u8 == 1))),
					3 => m.write_scalar_iter(v.iter().map(|&x| BinaryField8b::new(x as u8))),
					4 => m.write_scalar_slice(&v.iter().map(|&x| BinaryField16b::new(x as u16)).collect::<Vec<_>>()),
					5 => m.write_slice(&v.iter().map(|&x| BinaryField32b::new(x as u32)).collect::<Vec<_>>()),
					6 => m.write_scalar_slice(&v.iter().map(|&x| BinaryField64b::new(x as u64)).collect::<Vec<_>>()),
					7 => m.write_scalar_slice(&v.iter().map(|&x| BinaryField128b::new(x)).collect::<Vec<_>>()),
					13 => m.write_packed_slice(
						&v.iter()
							.map(|&x| PackedBinaryField16x8b::from_fn(|i| BinaryField8b::new((x >> (8 * i)) as u8)))
							.collect::<Vec<_>>(),
					),
					_ => v.iter().for_each(|&x| {
						m.write_packed(PackedBinaryField4x32b::from_fn(|i| BinaryField32b::new((x >> (32 * i)) as u32)))
					}),
				}
			}
			Op::Decommit(v) => t.decommitment().write_bytes(v),
			Op::Sample(l) => drawn.push(sample(&mut t, *l)),
			Op::Bits(n) => {
				let x: u32 = t.sample_bits(*n);
				if *n < 32 && x >> n != 0 {
					drawn.push(b"too large".to_vec());
				}
				drawn.push(x.to_le_bytes().to_vec());
			}
		}
	}
	(t.finalize(), drawn)
}

/// Follows the script with the data of the tape; `Err`: the tape ran out or did not match.
fn run_verifier(ops: &[Op], tape: Vec<u8>) -> Result<Vec<Vec<u8>>, String> {
	let mut t = V::new(tape);
	let mut drawn = Vec::new();
	macro_rules! rd {
		($m:ident, $f:ty, $n:expr) => {
			$m.read_scalar_slice::<$f>($n)
				.map_err(|e| e.to_string())?
				.into_iter()
				.map(|x| u128::from(BinaryField128b::from(x)))
				.collect::<Vec<u128>>()
		};
	}
	for op in ops {
		match op {
			Op::Observe(v) => t.observe().write_bytes(v),
			Op::Message(v) | Op::Decommit(v) => {
				let mut o = vec![0u8; v.len()];
				let r = if matches!(op, Op::Message(_)) {
					t.message().read_bytes(&mut o)
				} else {
					t.decommitment().read_bytes(&mut o)
				};
				r.map_err(|e| e.to_string())?;
				if o != *v {
					drawn.push(b"different bytes".to_vec());
				}
			}
			Op::Scalars(l, v) => {
				let mut m = t.message();
				let n = v.len();
				let (got, mask): (Vec<u128>, u128) = match l {
					0 => {
						let mut o = Vec::new();
						for _ in 0..n {
							let x: BinaryField1b = m.read_scalar().map_err(|e| e.to_string())?;
							o.push(u128::from(BinaryField128b::from(x)));
						}
						(o, 1)
					}
					3 => (rd!(m, BinaryField8b, n), 0xff),
					4 => (rd!(m, BinaryField16b, n), 0xffff),
					5 => {
						let x: Vec<BinaryField32b> = m.read_vec(n).map_err(|e| e.to_string())?;
						(x.into_iter().map(|x| u128::from(BinaryField128b::from(x))).collect(), 0xffff_ffff)
					}
					6 => (rd!(m, BinaryField64b, n), u64::MAX as u128),
					7 => (rd!(m, BinaryField128b, n), u128::MAX),
					13 => (
						m.read_packed_slice::<PackedBinaryField16x8b>(n)
							.map_err(|e| e.to_string())?
							.into_iter()
							.map(|p| p.iter().enumerate().map(|(i, x)| (u128::from(BinaryField128b::from(x))) << (8 * i)).sum())
							.collect(),
						u128::MAX,
					),
					_ => {
						let mut o = Vec::new();
						for _ in 0..n {
							let p: PackedBinaryField4x32b = m.read_packed().map_err(|e| e.to_string())?;
							o.push(p.iter().enumerate().map(|(i, x)| (u128::from(BinaryField128b::from(x))) << (32 * i)).sum());
						}
						(o, u128::MAX)
					}
				};
				if got != v.iter().map(|x| x & mask).collect::<Vec<_>>() {
					drawn.push(b"different scalars".to_vec());
				}
			}
			Op::Sample(l) => drawn.push(sample(&mut t, *l)),
			Op::Bits(n) => {
				let x: u32 = t.sample_bits(*n);
				drawn.push(x.to_le_bytes().to_vec());
			}
		}
	}
	t.finalize().map_err(|e| e.to_string())?;
	Ok(drawn)
}

impl Scenario for Histories {
	fn name(&self) -> &'static str {
		"histories"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("ops", r.range(2, if thorough { 120 } else { 40 }));
		for _ in 0..8 {
			plan.faults.push(Fault::new(
				*r.pick(&["said otherwise", "said otherwise", "truncated", "extended", "extra draw", "tape flip"]),
				&[r.next(), r.next(), r.next()],
			));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		(p == "ops").then_some(1)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut ops = ops_of(plan);
		// What is said after the last draw shows in a final draw.
		ops.push(Op::Sample(7));
		let (tape, drawn) = run_prover(&ops);
		cx.observe(&tape);
		for d in &drawn {
			cx.observe(d);
		}
		cx.key = plan.p("shape");
		cx.sample = format!("{} operations, {} bytes, {} draws", ops.len(), tape.len(), drawn.len());
		if run_prover(&ops).1 != drawn {
			return Err("unstable: the same history gives other challenges".into());
		}
		match run_verifier(&ops, tape.clone()) {
			Err(e) => return Err(format!("disagree: the verifier cannot follow: {e}")),
			Ok(d) if d != drawn => return Err("disagree: verifier draws other challenges".into()),
			_ => {}
		}
		for f in &plan.faults {
			let (a, b, c) = (f.args[0], f.args[1], f.args[2]);
			match f.kind.as_str() {
				"said otherwise" => {
					let said: Vec<usize> = (0..ops.len())
						.filter(|&i| matches!(ops[i], Op::Observe(_) | Op::Message(_) | Op::Scalars(..)))
						.collect();
					if said.is_empty() {
						continue;
					}
					let i = said[(a % said.len() as u64) as usize];
					let mut o2 = ops.clone();
					match &mut o2[i] {
						Op::Observe(v) | Op::Message(v) => {
							let n = v.len() as u64;
							v[(b % n) as usize] ^= 1 << (c % 8)
						}
						Op::Scalars(l, v) => {
							let n = v.len() as u64;
							let bits = if *l < 8 { 1 << *l } else { 128 };
							v[(b % n) as usize] ^= 1 << (c % bits)
						}
						_ => unreachable!(),
					}
					let (_, d2) = run_prover(&o2);
					cx.fired("said otherwise");
					// Later draws must differ: compare from the first draw after i (together: the
					// last one alone is 16 bytes), and earlier ones must not.
					let before = ops[..i].iter().filter(|o| matches!(o, Op::Sample(_) | Op::Bits(_))).count();
					if d2[..before] != drawn[..before] {
						return Err("acausal: a challenge depends on what is said later".into());
					}
					if d2[before..] == drawn[before..] || d2.last() == drawn.last() {
						return Err(format!("unbound: operation {i} ({:?}) does not affect later challenges", ops[i]));
					}
				}
				"extra draw" => {
					// Drawing once more somewhere must show in what is drawn after the next message.
					let at = (a % ops.len() as u64) as usize;
					let mut o2 = ops.clone();
					o2.insert(at, Op::Bits(8));
					let mut o1 = ops.clone();
					for o in [&mut o1, &mut o2] {
						o.push(Op::Observe(vec![7]));
						o.push(Op::Sample(7));
					}
					cx.fired("extra draw");
					if run_prover(&o1).1.last() == run_prover(&o2).1.last() {
						return Err("unbound: the number of draws does not affect later challenges".into());
					}
				}
				"truncated" => {
					if tape.is_empty() {
						continue;
					}
					let k = (a % tape.len() as u64) as usize;
					cx.fired("truncated tape");
					if run_verifier(&ops, tape[..k].to_vec()).is_ok() {
						return Err("truncation: not noticed".into());
					}
				}
				"extended" => {
					let mut t = tape.clone();
					t.extend((0..1 + a % 9).map(|i| (b >> (8 * (i % 8))) as u8));
					cx.fired("extended tape");
					if run_verifier(&ops, t).is_ok() {
						return Err("leftover: not noticed".into());
					}
				}
				_ => {
					if tape.is_empty() {
						continue;
					}
					let k = (a % tape.len() as u64) as usize;
					let mut t = tape.clone();
					t[k] ^= 1 << (b % 8);
					cx.fired("tape altered");
					if run_verifier(&ops, t).is_ok_and(|d| d == drawn) {
						return Err(format!("unbound: altered tape byte {k} goes unnoticed"));
					}
				}
			}
			cx.nontrivial = true;
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core transcript and hash-based challenger"
	}
	fn stub(&self) -> &'static str {
		"none"
	}
}

/// The challenger itself, as a pair of byte streams cut up in any way.
struct Streams;
impl Scenario for Streams {
	fn name(&self) -> &'static str {
		"streams"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("rounds", r.range(1, if thorough { 40 } else { 12 }));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		(p == "rounds").then_some(1)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::derive(plan.p("shape"), "rounds");
		let rounds: Vec<(Vec<u8>, usize)> = (0..plan.p("rounds"))
			.map(|_| {
				let mut v = vec![0u8; 1 + *r.pick(&[0, 7, 31, 32, 63, 64, 65, 127, 200, r.clone().below(300) as usize])];
				r.fill(&mut v);
				(v, 1 + *r.pick(&[0, 3, 15, 30, 31, 32, 63, 64, r.clone().below(200) as usize]))
			})
			.collect();
		// `cut`: how the streams are cut up.
		let go = |cut: u64, rounds: &[(Vec<u8>, usize)]| -> Vec<Vec<u8>> {
			let mut r = Rng::new(cut);
			let mut c = HasherChallenger::<Groestl256>::default();
			let mut out = Vec::new();
			for (v, n) in rounds {
				let mut k = 0;
				while k < v.len() {
					let m = if cut == 0 { v.len() } else { 1 + r.below(v.len() as u64 - k as u64) as usize }.min(v.len() - k);
					c.observer().put_slice(&v[k..k + m]);
					k += m;
				}
				let mut o = vec![0u8; *n];
				let mut k = 0;
				while k < *n {
					let m = if cut == 0 { *n } else { 1 + r.below((*n - k) as u64) as usize }.min(*n - k);
					c.sampler().copy_to_slice(&mut o[k..k + m]);
					k += m;
				}
				out.push(o);
			}
			out
		};
		let a = go(0, &rounds);
		for o in &a {
			cx.observe(o);
		}
		cx.key = plan.p("shape");
		cx.sample = format!("{} rounds", rounds.len());
		for k in 0..4 {
			if go(plan.p("shape").wrapping_add(k) | 1, &rounds) != a {
				return Err("cuts: challenges depend on how the stream is cut up".into());
			}
			cx.fired("recut");
		}
		// Any stretch of 16 drawn bytes is fresh.
		let mut seen = std::collections::HashSet::new();
		for o in &a {
			for w in o.chunks_exact(16) {
				if !seen.insert(w.to_vec()) {
					return Err("repeat: drawn bytes repeat".into());
				}
			}
		}
		// Cloned challengers continue alike and independently.
		let i = (plan.p("shape") % rounds.len() as u64) as usize;
		let mut alt = rounds.clone();
		let k = (plan.p("shape") >> 20) as usize % alt[i].0.len();
		alt[i].0[k] ^= 1 << (plan.p("shape") >> 60 & 7);
		let b = go(0, &alt);
		if b[..i] != a[..i] {
			return Err("acausal: earlier challenges changed".into());
		}
		let at: Vec<u8> = a[i..].concat();
		let bt: Vec<u8> = b[i..].concat();
		for (x, y) in at.chunks(16).zip(bt.chunks(16)) {
			if x.len() == 16 && x == y {
				return Err(format!("unbound: byte {k} of round {i} does not affect a later draw"));
			}
		}
		cx.fired("said otherwise");
		cx.nontrivial = true;
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core hash-based challenger"
	}
	fn stub(&self) -> &'static str {
		"none"
	}
}

fn main() {
	main_for(
		"C05",
		"fault_enumeration",
		"a run counts if at least one deviating history was compared, or a proof's two event logs were compared; identity: history and interleaving",
		Budget { secs: (45, 1200), runs: (6000, 1_000_000) },
		&[&Logs, &Histories, &Streams],
	)
}
