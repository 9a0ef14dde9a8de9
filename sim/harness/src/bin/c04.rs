//! C04: an altered proof is rejected with an error, whatever was altered.
use binius_core::constraint_system::Proof;
use binius_field::Field;
use binius_utils::{SerializationMode, SerializeBytes};
use vsim::{
	e2e::*,
	sys::{B128, Sys},
	tap::{self, Ev, TapChallenger},
	*,
};

struct Setup {
	c: Case,
	ccs: binius_core::constraint_system::ConstraintSystem<B128>,
	digest: Digest,
	b: Vec<binius_core::constraint_system::channel::Boundary<B128>>,
	rate: usize,
	security: usize,
}

impl Setup {
	fn new(plan: &Plan) -> Self {
		let c = make_case(plan);
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		Setup { c, ccs, digest, b, rate: plan.p("rate") as usize, security: plan.p("security") as usize }
	}
	fn prove(&self, cx: &mut Cx, tapped: bool) -> Result<Proof, String> {
		let sizes = self.c.sys.table_sizes();
		let job = Job {
			cs: &self.ccs,
			digest: &self.digest,
			boundaries: &self.b,
			sizes: &sizes,
			log_inv_rate: self.rate,
			security: self.security,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		let w = u128b::witness(&self.c.sys, &self.c.data);
		let r = if tapped {
			cx.seq(|| u128b::prove_with::<TapChallenger>(&job, w))
		} else {
			cx.sim(|| u128b::prove(&job, w))
		};
		match r {
			Err(_) => Err(format!("prover-panic: {:?}", take_panics())),
			Ok(Err(e)) => Err(format!("prover-error: {e}")),
			Ok(Ok(p)) => Ok(p),
		}
	}
	/// Whether it was accepted.
	fn verify(&self, cx: &mut Cx, proof: Vec<u8>, what: &str) -> Result<bool, String> {
		self.verify_as(cx, proof, what, &self.digest, &self.b)
	}
	fn verify_as(
		&self,
		cx: &mut Cx,
		proof: Vec<u8>,
		what: &str,
		digest: &Digest,
		b: &[binius_core::constraint_system::channel::Boundary<B128>],
	) -> Result<bool, String> {
		let r = cx.sim(|| verify(&self.ccs, self.rate, self.security, digest, b, Proof { transcript: proof }));
		match r {
			Err(_) => Err(format!("verifier-panic: after {what}: {:?}", take_panics())),
			Ok(Err(e)) => {
				let e = e.to_string();
				cx.observe(e.as_bytes());
				let class: String = e.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
				cx.count(&format!("reject: {class}"));
				Ok(false)
			}
			Ok(Ok(())) => Ok(true),
		}
	}
	/// Whether the messages of an honest prover do not depend on the challenges at all: nothing
	/// is constrained, and any alteration leaves a valid proof of the same (empty) claim.
	fn vacuous(&self, cx: &mut Cx) -> Result<bool, String> {
		let mut seen = Vec::new();
		for d in [0u8, 1] {
			let mut digest = self.digest;
			digest[0] ^= d;
			let t = Setup {
				c: self.c.clone(),
				ccs: self.ccs.clone(),
				digest,
				b: self.b.clone(),
				rate: self.rate,
				security: self.security,
			};
			tap::start(vec![]);
			let r = t.prove(cx, true);
			let st = tap::stop();
			r?;
			let mut o = Vec::new();
			let mut c = Vec::new();
			for e in st.events {
				match e {
					Ev::Observe(v) => o.extend(v),
					Ev::Sample(v) => c.extend(v),
				}
			}
			o.drain(..digest.len());
			seen.push((o, c));
		}
		Ok(seen[0].0 == seen[1].0 && (seen[0].1 != seen[1].1 || seen[0].1.is_empty()))
	}
	/// Table sizes as the proof claims them, if the statement also holds with them.
	fn holds_with_sizes_of(&self, proof: &[u8]) -> bool {
		let n = self.c.sys.tables.len();
		if proof.len() < n * 4 {
			return false;
		}
		let mut sys = self.c.sys.clone();
		for (i, t) in sys.tables.iter_mut().enumerate() {
			let v = u32::from_le_bytes(proof[i * 4..i * 4 + 4].try_into().unwrap());
			if v > 1 << 20
				|| (v == 0) != (t.size == 0)
				|| vsim::sys::log2_ceil(v as usize) != vsim::sys::log2_ceil(t.size)
			{
				return false;
			}
			t.size = v as usize;
		}
		sys.committed_satisfied(&self.c.data, &self.c.bds).is_ok()
	}
}

fn draw_small(plan: &mut Plan, r: &mut Rng, thorough: bool) {
	draw_case(plan, r, if thorough { 7 } else { 4 });
	plan.set("cols", r.below(9));
	plan.set("security", *r.pick(&[20, 20, 20, 40, 100]));
}

/// Bytes of the finished proof are altered on the way to the verifier.
struct Bytes;
const KINDS: [&str; 14] = [
	"flip", "flip", "flip", "flip2", "byte", "zero16", "random16", "truncate", "extend", "cut", "duplicate", "swap16",
	"swap32", "size",
];
impl Scenario for Bytes {
	fn name(&self) -> &'static str {
		"bytes"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_small(plan, r, thorough);
		for _ in 0..if thorough { 20 } else { 10 } {
			let k = *r.pick(&KINDS);
			plan.faults.push(Fault::new(k, &[r.next(), r.next(), r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let s = Setup::new(plan);
		cx.sample = s.c.sys.describe();
		let proof = s.prove(cx, false)?.transcript;
		cx.observe(&proof);
		cx.key = plan.p("shape") ^ fnv(0, &proof);
		if !s.verify(cx, proof.clone(), "nothing")? {
			return Err("rejected: honest proof rejected".into());
		}
		for f in &plan.faults {
			let mut p = proof.clone();
			let n = p.len();
			let (a, b, c) = (f.args[0], f.args[1], f.args[2]);
			// Half of the faults hit the beginning, where the protocol messages are.
			let at = |x: u64, n: usize| -> usize {
				let lim = if x & 1 == 0 { n } else { n.min(2048) };
				((x >> 1) % lim.max(1) as u64) as usize
			};
			match f.kind.as_str() {
				"flip" => p[at(a, n)] ^= 1 << (b % 8),
				"flip2" => {
					p[at(a, n)] ^= 1 << (b % 8);
					p[at(c, n)] ^= 1 << (b / 8 % 8);
				}
				"byte" => p[at(a, n)] = b as u8,
				"zero16" => {
					let k = at(a, n) / 16 * 16;
					let e = (k + 16).min(n);
					p[k..e].fill(0);
				}
				"random16" => {
					let k = at(a, n) / 16 * 16;
					let e = (k + 16).min(n);
					Rng::new(b).fill(&mut p[k..e]);
				}
				"truncate" => p.truncate(if b % 3 == 0 { n - 1 - (a % 16) as usize % n } else { at(a, n) }),
				"extend" => {
					let k = 1 + (a % 40) as usize;
					p.extend((0..k).map(|i| (b >> (i % 8 * 8)) as u8));
				}
				"cut" => {
					let k = at(a, n);
					let e = (k + 1 + (b % 32) as usize).min(n);
					p.drain(k..e);
				}
				"duplicate" => {
					let k = at(a, n);
					let e = (k + 1 + (b % 32) as usize).min(n);
					let d = p[k..e].to_vec();
					p.splice(k..k, d);
				}
				"swap16" | "swap32" => {
					let w = if f.kind == "swap16" { 16 } else { 32 };
					if n < 2 * w {
						continue;
					}
					let (i, j) = (at(a, n - w), at(b, n - w));
					for k in 0..w {
						if i + w <= j || j + w <= i {
							p.swap(i + k, j + k);
						}
					}
				}
				"size" => {
					let t = (a % s.c.sys.tables.len() as u64) as usize;
					let cur = u32::from_le_bytes(p[t * 4..t * 4 + 4].try_into().unwrap());
					let v = match b % 9 {
						0 => 0,
						1 => u32::MAX,
						2 => 1 << 31,
						3 => 1 << (c % 32),
						4 => (1 << (c % 31)) + 1,
						5 => cur.wrapping_add(1),
						6 => cur.wrapping_sub(1),
						7 => cur.wrapping_mul(2),
						_ => c as u32,
					};
					p[t * 4..t * 4 + 4].copy_from_slice(&v.to_le_bytes());
				}
				_ => unreachable!(),
			}
			if p == proof {
				continue;
			}
			cx.fired(&f.kind);
			cx.nontrivial = true;
			if s.verify(cx, p, &f.kind)? {
				if s.vacuous(cx)? {
					cx.count("vacuous statement");
					return Ok(());
				}
				return Err(format!("accepted: proof altered by {} {:?} accepted", f.kind, f.args));
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below"
	}
}

/// Changes some of the field elements of a message so that a product or a sum of them stays the same.
/// Returns the difference.
fn fitted(r: &mut Rng, bytes: &[u8]) -> Vec<u8> {
	let mut x: Vec<B128> = bytes.chunks(16).map(|c| B128::new(u128::from_le_bytes(c.try_into().unwrap()))).collect();
	let n = x.len();
	let (mut i, mut j) = (r.usize(n), r.usize(n));
	if r.chance(1, 2) {
		(i, j) = (0, n - 1);
	}
	if i > j {
		(i, j) = (j, i);
	}
	if i == j {
		(i, j) = (n - 2, n - 1);
	}
	let c = vsim::sys::nonzero_elem(r, 7);
	let d = c.invert().unwrap();
	match r.below(6) {
		0 => {
			x[j] *= c;
			x[i..j].iter_mut().for_each(|x| *x *= d);
		}
		1 => {
			x[j] *= c;
			x[i..j].iter_mut().step_by(2).for_each(|x| *x *= d);
		}
		2 => {
			x[j] *= c * c;
			x[i..j].iter_mut().for_each(|x| *x *= d);
		}
		3 => {
			x[j] *= c;
			x[i] *= d;
		}
		4 => {
			x[j] += c;
			x[i] += c;
		}
		_ => x.swap(i, j),
	}
	let new: Vec<u8> = x.iter().flat_map(|x| x.val().to_le_bytes()).collect();
	bytes.iter().zip(new).map(|(a, b)| a ^ b).collect()
}

/// One message is wrong, and the sender carries on consistently with it.
struct Message;
impl Scenario for Message {
	fn name(&self) -> &'static str {
		"message"
	}
	fn weight(&self) -> u32 {
		4
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_small(plan, r, thorough);
		for _ in 0..if thorough { 8 } else { 4 } {
			let k = if r.chance(1, 2) { "message" } else { "fitted message" };
			plan.faults.push(Fault::new(k, &[r.next(), r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let s = Setup::new(plan);
		cx.sample = s.c.sys.describe();
		tap::start(vec![]);
		let proof = s.prove(cx, true)?.transcript;
		let st = tap::stop();
		let plain = s.prove(cx, false)?.transcript;
		if plain != proof {
			return Err("harness: the recording challenger changes the proof".into());
		}
		cx.observe(&proof);
		cx.key = plan.p("shape") ^ fnv(0, &proof);
		let stream: Vec<u8> = st
			.events
			.iter()
			.filter_map(|e| if let Ev::Observe(v) = e { Some(v.as_slice()) } else { None })
			.flatten()
			.copied()
			.collect();
		let mut pre = s.digest.to_vec();
		for b in &s.b {
			b.serialize(&mut pre, SerializationMode::CanonicalTower).unwrap();
		}
		let off = pre.len();
		let common = stream
			.get(off..)
			.unwrap_or(&[])
			.iter()
			.zip(&proof)
			.take_while(|(a, b)| a == b)
			.count();
		cx.count_n("message bytes", common as u64);
		cx.count_n("proof bytes", proof.len() as u64);
		if common == 0 {
			return Err("unbound: the verifier's challenges do not depend on the messages".into());
		}
		// The messages of several field elements each, by position in the proof.
		let mut at = 0;
		let mut lists: Vec<(usize, usize)> = vec![];
		for e in &st.events {
			let Ev::Observe(v) = e else { continue };
			if at >= off + s.c.sys.tables.len() * 4 && at + v.len() <= off + common && v.len() % 16 == 0 && v.len() >= 32 {
				lists.push((at - off, v.len() / 16));
			}
			at += v.len();
		}
		for f in &plan.faults {
			let (a, b) = (f.args[0], f.args[1]);
			let mut k = (a % common as u64) as usize;
			// One bit, one byte, or a whole field element; or several elements such that products or
			// sums of them stay the same.
			let mut alter: Vec<(usize, u8)> = match b % 4 {
				_ if f.kind == "fitted message" => {
					if lists.is_empty() {
						continue;
					}
					let mut r = Rng::new(b);
					let (start, n) = lists[(a % lists.len() as u64) as usize];
					k = start;
					fitted(&mut r, &proof[start..start + 16 * n])
						.into_iter()
						.enumerate()
						.map(|(i, m)| (start + i, m))
						.collect()
				}
				0 | 1 => vec![(k, 1 << (b / 4 % 8))],
				2 => vec![(k, (b >> 8) as u8 | 1)],
				_ => {
					let mut r = Rng::new(b);
					(k / 16 * 16..(k / 16 * 16 + 16).min(common)).map(|i| (i, r.next() as u8)).collect()
				}
			};
			alter.retain(|x| x.1 != 0);
			if alter.is_empty() {
				continue;
			}
			tap::start(alter.iter().map(|&(p, m)| (p + off, m)).collect());
			let r = s.prove(cx, true);
			let st = tap::stop();
			let mut p = match r {
				Ok(p) => p.transcript,
				// A prover may notice that something is off.
				Err(_) => {
					take_panics();
					cx.count("prover gave up");
					continue;
				}
			};
			if st.altered != alter.len() {
				return Err("harness: alteration not applied".into());
			}
			for &(i, m) in &alter {
				p[i] ^= m;
			}
			cx.observe(&p);
			cx.fired(if f.kind == "message" { "consistent wrong message" } else { "fitted wrong message" });
			cx.nontrivial = true;
			if s.verify(cx, p.clone(), "wrong message")? {
				if k < s.c.sys.tables.len() * 4 && s.holds_with_sizes_of(&p) {
					cx.count("accepted with other sizes, for which the statement holds too");
					continue;
				}
				if s.vacuous(cx)? {
					cx.count("vacuous statement");
					return Ok(());
				}
				return Err(format!("accepted: wrong message at byte {k} of {common} accepted"));
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below; challenger wrapped to alter messages"
	}
}

/// A proof is presented for something else, or spliced from two proofs.
struct Replay;
impl Scenario for Replay {
	fn name(&self) -> &'static str {
		"replay"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_small(plan, r, thorough);
		plan.set("other", r.next());
		for _ in 0..5 {
			plan.faults.push(Fault::new(*r.pick(&["digest", "boundary", "splice", "splice", "other"]), &[r.next(), r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let s = Setup::new(plan);
		cx.sample = s.c.sys.describe();
		let proof = s.prove(cx, false)?.transcript;
		cx.observe(&proof);
		cx.key = plan.p("shape") ^ fnv(0, &proof);
		// The same system with another witness.
		let mut r = Rng::derive(plan.p("other"), "data");
		let data = s.c.sys.fill(&mut r);
		let bds = s.c.sys.balance(&mut r, &data);
		let b2 = Sys::boundaries(&bds);
		let other = Setup {
			c: Case { sys: s.c.sys.clone(), data, bds },
			ccs: s.ccs.clone(),
			digest: s.digest,
			b: b2,
			rate: s.rate,
			security: s.security,
		};
		let proof2 = other.prove(cx, false)?.transcript;
		for f in &plan.faults {
			let (a, b) = (f.args[0], f.args[1]);
			let acc = match f.kind.as_str() {
				"digest" => {
					let mut d = s.digest;
					d[(a % 32) as usize] ^= 1 << (b % 8);
					s.verify_as(cx, proof.clone(), "other digest", &d, &s.b)?
				}
				"boundary" => {
					let mut bb = s.b.clone();
					if bb.len() < 2 || bb[0] == bb[1] {
						continue;
					}
					// The same multiset in another order is another statement text.
					bb.swap(0, 1);
					s.verify_as(cx, proof.clone(), "boundaries in another order", &s.digest, &bb)?
				}
				"splice" => {
					let k = (a % proof.len().min(proof2.len()) as u64) as usize;
					let p = [&proof[..k], &proof2[k..]].concat();
					if p == proof || (p == proof2 && s.b == other.b) {
						continue;
					}
					s.verify(cx, p, "splice")?
				}
				_ => {
					if s.b == other.b || proof == proof2 {
						continue;
					}
					s.verify(cx, proof2.clone(), "proof for other boundaries")?
				}
			};
			cx.fired(&f.kind);
			cx.nontrivial = true;
			if acc {
				if s.vacuous(cx)? || other.vacuous(cx)? {
					cx.count("vacuous statement");
					return Ok(());
				}
				return Err(format!("accepted: {} {:?} accepted", f.kind, f.args));
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below"
	}
}

/// Arbitrary bytes instead of a proof.
struct Garbage;
impl Scenario for Garbage {
	fn name(&self) -> &'static str {
		"garbage"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_small(plan, r, thorough);
		for _ in 0..10 {
			plan.faults.push(Fault::new(*r.pick(&["empty", "random", "zeros", "sizes+random", "sizes+zeros"]), &[r.next(), r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let s = Setup::new(plan);
		cx.sample = s.c.sys.describe();
		cx.key = plan.p("shape");
		for f in &plan.faults {
			let n = (f.args[0] % 20000) as usize;
			let mut p = vec![0u8; if f.kind == "empty" { 0 } else { n }];
			if f.kind.ends_with("random") {
				Rng::new(f.args[1]).fill(&mut p);
			}
			if f.kind.starts_with("sizes") {
				for (i, t) in s.c.sys.tables.iter().enumerate() {
					if p.len() >= i * 4 + 4 {
						p[i * 4..i * 4 + 4].copy_from_slice(&(t.size as u32).to_le_bytes());
					}
				}
			}
			cx.fired(&format!("garbage:{}", f.kind));
			cx.nontrivial = true;
			if s.verify(cx, p, &f.kind)? {
				return Err(format!("accepted: garbage ({}, {n} bytes) accepted", f.kind));
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core verify and everything below"
	}
}

fn main() {
	main_for(
		"C04",
		"fault_enumeration",
		"a run counts if at least one altered proof was put to the verifier; identity: proof, alterations and interleaving",
		Budget { secs: (60, 1800), runs: (5000, 1_000_000) },
		&[&Bytes, &Message, &Replay, &Garbage],
	)
}
