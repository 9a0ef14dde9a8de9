//! C14: what is written can be read back and means the same, and damaged bytes give errors.
use binius_core::{
	constraint_system::{ConstraintSystem, channel::Boundary},
	oracle::MultilinearPolyVariant,
	polynomial::MultivariatePoly,
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown,
		step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_field::{
	AESTowerField8b, AESTowerField16b, AESTowerField32b, AESTowerField64b, AESTowerField128b, BinaryField1b, BinaryField2b,
	BinaryField4b, BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, BinaryField128bPolyval,
	Field, PackedBinaryField1x128b, PackedBinaryField2x64b, PackedBinaryField4x32b, PackedBinaryField4x128b,
	PackedBinaryField16x8b, PackedBinaryField128x1b, PackedField, PackedBinaryField2x128b, PackedBinaryField256x1b, PackedBinaryField8x8b,
	arch::OptimalUnderlier, as_packed_field::PackedType, packed::pack_slice,
};
use binius_math::{ArithCircuit, ArithCircuitStep, ArithExpr};
use binius_utils::{
	DeserializeBytes, SerializationError, SerializationMode, SerializeBytes,
	bytes::{Buf, BufMut, buf::UninitSlice},
};
use vsim::{
	e2e::*,
	sys::{B128, LEVELS, Sys, elem},
	*,
};

/// A reader that hands out its bytes in fragments.
struct Fragments<'a> {
	data: &'a [u8],
	rng: Rng,
	max: u64,
	cur: usize,
}

impl<'a> Fragments<'a> {
	fn new(data: &'a [u8], seed: u64, max: u64) -> Self {
		let mut f = Fragments { data, rng: Rng::new(seed), max, cur: 0 };
		f.next();
		f
	}
	fn next(&mut self) {
		self.cur = (self.rng.range(1, self.max) as usize).min(self.data.len());
	}
}

impl Buf for Fragments<'_> {
	fn remaining(&self) -> usize {
		self.data.len()
	}
	fn chunk(&self) -> &[u8] {
		&self.data[..self.cur]
	}
	fn advance(&mut self, n: usize) {
		assert!(n <= self.data.len(), "advanced past the end");
		self.data = &self.data[n..];
		if n < self.cur {
			self.cur -= n;
		} else {
			self.next();
		}
	}
}

/// A writer that takes its bytes in fragments and is full at some point.
struct Slots {
	data: Vec<u8>,
	len: usize,
	rng: Rng,
	max: u64,
	cur: usize,
}

impl Slots {
	fn new(cap: usize, seed: u64, max: u64) -> Self {
		let mut s = Slots { data: vec![0; cap], len: 0, rng: Rng::new(seed), max, cur: 0 };
		s.next();
		s
	}
	fn next(&mut self) {
		self.cur = (self.rng.range(1, self.max) as usize).min(self.data.len() - self.len);
	}
}

unsafe impl BufMut for Slots {
	fn remaining_mut(&self) -> usize {
		self.data.len() - self.len
	}
	unsafe fn advance_mut(&mut self, n: usize) {
		self.len += n;
		if n < self.cur {
			self.cur -= n;
		} else {
			self.next();
		}
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		let (a, b) = (self.len, self.len + self.cur);
		UninitSlice::new(&mut self.data[a..b])
	}
}

type R<T> = Result<T, SerializationError>;

fn caught<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("panic: {what}: {:?}", take_panics()))
}

fn mode(m: u64) -> SerializationMode {
	if m == 0 { SerializationMode::Native } else { SerializationMode::CanonicalTower }
}

/// Everything that must hold of one kind of value: `same` decides whether two mean the same.
fn trip<T: SerializeBytes + DeserializeBytes>(
	cx: &mut Cx,
	what: &str,
	v: &T,
	m: SerializationMode,
	faults: &[Fault],
	same: &dyn Fn(&T, &T) -> Result<(), String>,
	usable: &dyn Fn(&T),
) -> Result<Vec<u8>, String> {
	let write = |v: &T| -> Result<Vec<u8>, String> {
		let mut b = Vec::new();
		caught(&format!("writing {what}"), || v.serialize(&mut b, m))?.map_err(|e| format!("write: {what} cannot be written: {e}"))?;
		Ok(b)
	};
	let bytes = write(v)?;
	cx.observe(&bytes);
	let back = |data: &[u8], rest: usize, seed: u64| -> Verdict {
		let mut f = Fragments::new(data, seed, if seed == 0 { u64::MAX / 2 } else { 1 + seed % 20 });
		let got: R<T> = caught(&format!("reading {what}"), || T::deserialize(&mut f, m))?;
		let got = got.map_err(|e| format!("unreadable: {what} was written but cannot be read back: {e}"))?;
		if f.data.len() != rest {
			return Err(format!("boundary: reading {what} left {} bytes of {rest}", f.data.len()));
		}
		same(v, &got).map_err(|e| format!("changed: {what} reads back differently: {e}"))?;
		if write(&got)? != bytes {
			return Err(format!("changed: {what} is written differently after reading it back"));
		}
		Ok(())
	};
	back(&bytes, 0, 0)?;
	for f in faults {
		let mut r = Rng::new(f.args[0]);
		match f.kind.as_str() {
			"fragmented read" => back(&bytes, 0, r.next() | 1)?,
			"more data behind" => {
				let mut d = bytes.clone();
				let k = r.range(1, 40) as usize;
				d.extend((0..k).map(|_| r.next() as u8));
				back(&d, k, if r.chance(1, 2) { 0 } else { r.next() | 1 })?;
			}
			"cut off" => {
				if bytes.is_empty() {
					continue;
				}
				let n = r.usize(bytes.len());
				let mut f = Fragments::new(&bytes[..n], r.next(), 30);
				if caught(&format!("reading {what} cut off"), || T::deserialize(&mut f, m))?.is_ok() {
					return Err(format!("accepted: {what} cut off after {n} of {} bytes", bytes.len()));
				}
			}
			"damaged" => {
				if bytes.is_empty() {
					continue;
				}
				let mut d = bytes.clone();
				for _ in 0..=r.below(3) {
					let i = r.usize(d.len());
					d[i] = match r.below(4) {
						0 => d[i] ^ 1 << r.below(8),
						1 => 0xff,
						2 => 0,
						_ => r.next() as u8,
					};
				}
				let got = caught(&format!("reading {what} damaged"), || T::deserialize(&mut &d[..], m))?;
				if let Ok(v) = &got {
					caught(&format!("using {what} read from damaged bytes"), || usable(v))?;
				}
				cx.count(if got.is_ok() { "damaged but readable" } else { "damaged and refused" });
			}
			"full" => {
				if bytes.is_empty() {
					continue;
				}
				let cap = r.usize(bytes.len());
				let mut s = Slots::new(cap, r.next(), 20);
				if caught(&format!("writing {what} to a full buffer"), || v.serialize(&mut s, m))?.is_ok() {
					return Err(format!("lost: {what} of {} bytes written to a buffer of {cap}", bytes.len()));
				}
			}
			_ => {
				let mut s = Slots::new(bytes.len(), r.next(), 1 + f.args[0] % 20);
				caught(&format!("writing {what} in fragments"), || v.serialize(&mut s, m))?
					.map_err(|e| format!("write: {what} to a buffer of exactly its size: {e}"))?;
				if s.data != bytes {
					return Err(format!("changed: {what} written in fragments"));
				}
			}
		}
		cx.fired(&f.kind);
	}
	Ok(bytes)
}

fn draw_faults(plan: &mut Plan, r: &mut Rng) {
	for _ in 0..r.range(2, 9) {
		let k = *r.pick(&["fragmented read", "fragmented write", "more data behind", "cut off", "damaged", "damaged", "full"]);
		plan.faults.push(Fault::new(k, &[r.next()]));
	}
}

fn same_poly(a: &dyn MultivariatePoly<B128>, b: &dyn MultivariatePoly<B128>, r: &mut Rng) -> Result<(), String> {
	if (a.n_vars(), a.binary_tower_level()) != (b.n_vars(), b.binary_tower_level()) {
		return Err(format!(
			"{} variables at level {} became {} at {}",
			a.n_vars(),
			a.binary_tower_level(),
			b.n_vars(),
			b.binary_tower_level()
		));
	}
	for _ in 0..3 {
		let p: Vec<B128> = (0..a.n_vars()).map(|_| elem(r, 7)).collect();
		let (x, y) = (a.evaluate(&p).map_err(|e| e.to_string())?, b.evaluate(&p).map_err(|e| e.to_string())?);
		if x != y {
			return Err(format!("evaluates to {y:?}, not {x:?}"));
		}
	}
	Ok(())
}

struct Systems;
impl Scenario for Systems {
	fn name(&self) -> &'static str {
		"system"
	}
	fn weight(&self) -> u32 {
		4
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		draw_case(plan, r, 4);
		plan.set("mode", r.below(2));
		plan.set("prove", u64::from(r.chance(1, 6)));
		plan.set("security", 20);
		draw_faults(plan, r);
	}
	fn floor(&self, p: &str) -> Option<u64> {
		if p == "mode" || p == "prove" { Some(0) } else { case_floor(p) }
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		cx.key = plan.p("shape");
		let ccs = c.sys.build();
		let m = mode(plan.p("mode"));
		let sizes = c.sys.table_sizes();
		let b = Sys::boundaries(&c.bds);
		let seed = plan.p("shape");
		let digest = cs_digest(&ccs);
		let shape = |x: &ConstraintSystem<B128>| {
			let con: Vec<String> = x
				.table_constraints
				.iter()
				.map(|s| format!("{} {} {:?} {:?}", s.table_id, s.log_values_per_row, s.oracle_ids, s.constraints))
				.collect();
			format!(
				"{con:?} {:?} {:?} {:?} {:?} {:?}",
				x.flushes, x.non_zero_oracle_ids, x.exponents, x.channel_count, x.table_size_specs
			)
		};
		let same = |x: &ConstraintSystem<B128>, y: &ConstraintSystem<B128>| -> Result<(), String> {
			if cs_digest(x) != cs_digest(y) {
				return Err("another digest".into());
			}
			if shape(x) != shape(y) {
				return Err("other constraints, flushes, exponents, channels or sizes".into());
			}
			let (p, q) = (
				x.oracles.instantiate(&sizes).map_err(|e| e.to_string())?,
				y.oracles.instantiate(&sizes).map_err(|e| e.to_string())?,
			);
			if p.size() != q.size() {
				return Err("another number of oracles".into());
			}
			let mut r = Rng::new(seed);
			for ((i, o), (j, u)) in p.iter().zip(q.iter()) {
				match (&o.variant, &u.variant) {
					(MultilinearPolyVariant::Transparent(s), MultilinearPolyVariant::Transparent(t)) => {
						same_poly(&**s.poly(), &**t.poly(), &mut r).map_err(|e| format!("transparent oracle {i}: {e}"))?;
						if (o.n_vars, o.tower_level, &o.name) != (u.n_vars, u.tower_level, &u.name) {
							return Err(format!("transparent oracle {i} {o:?} became {u:?}"));
						}
					}
					_ if i != j || o != u => return Err(format!("oracle {i} {o:?} became {u:?}")),
					_ => {}
				}
			}
			Ok(())
		};
		let bytes = trip(cx, "a constraint system", &ccs, m, &plan.faults, &same, &|_| ())?;
		for x in &b {
			trip(cx, "a boundary", x, m, &plan.faults[..plan.faults.len().min(2)], &|x: &Boundary<B128>, y| {
				if x == y { Ok(()) } else { Err(format!("{y:?}")) }
			}, &|_| ())?;
		}
		cx.nontrivial = true;
		// another statement is written differently
		let mut r = Rng::derive(seed, "other");
		for _ in 0..4 {
			let mut d = c.clone();
			let Some(what) = d.sys.mutate(&mut r) else { continue };
			let Ok(other) = d.sys.try_build() else { continue };
			if shape(&other) == shape(&ccs) && format!("{:?}", other.oracles) == format!("{:?}", ccs.oracles) {
				continue;
			}
			let mut ob = Vec::new();
			other.serialize(&mut ob, m).map_err(|e| format!("write: {e}"))?;
			if ob == bytes || cs_digest(&other) == digest {
				return Err(format!("collision: a statement with another {what} has the same bytes or digest"));
			}
			cx.fired("another statement");
		}
		if plan.p("prove") == 1 {
			let de = ConstraintSystem::<B128>::deserialize(&bytes[..], m).map_err(|e| format!("unreadable: {e}"))?;
			let job = Job {
				cs: &ccs,
				digest: &digest,
				boundaries: &b,
				sizes: &sizes,
				log_inv_rate: 1,
				security: 20,
				host_mem: 1 << 16,
				dev_mem: 1 << 20,
			};
			let w = u128b::witness(&c.sys, &c.data);
			let proof = match cx.sim(|| u128b::prove(&job, w)) {
				Ok(Ok(p)) => p,
				// C01's business
				_ => return Ok(()),
			};
			match cx.sim(|| verify(&de, 1, 20, &cs_digest(&de), &b, proof)) {
				Err(_) => return Err(format!("panic: verifying with the system read back: {:?}", take_panics())),
				Ok(Err(e)) => return Err(format!("changed: a proof is rejected with the system read back: {e}")),
				Ok(Ok(())) => cx.count("proofs accepted by a system read back"),
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"SerializeBytes and DeserializeBytes of the constraint system and everything in it, prove and verify"
	}
	fn stub(&self) -> &'static str {
		"the reader and writer (fragmenting, cutting off, damaging, full)"
	}
}

struct Values;
impl Scenario for Values {
	fn name(&self) -> &'static str {
		"value"
	}
	fn weight(&self) -> u32 {
		4
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("mode", r.below(2));
		plan.set("data", r.next());
		draw_faults(plan, r);
	}
	fn floor(&self, p: &str) -> Option<u64> {
		(p == "mode").then_some(0)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let m = mode(plan.p("mode"));
		let mut r = Rng::new(plan.p("data"));
		cx.key = plan.p("data");
		cx.nontrivial = true;
		let fs = &plan.faults;
		macro_rules! plain {
			($t:ty, $v:expr) => {
				plain!($t, $v, |_| ())
			};
			($t:ty, $v:expr, $u:expr) => {{
				let v: $t = $v;
				trip(cx, stringify!($t), &v, m, fs, &|a: &$t, b: &$t| if a == b { Ok(()) } else { Err(format!("{a:?} became {b:?}")) }, &$u)?
			}};
		}
		// a field element in the canonical form is that of the isomorphic tower field element
		macro_rules! iso {
			($t:ty, $c:ty, $v:expr) => {{
				let v: $t = $v;
				let x = plain!($t, v);
				if m == SerializationMode::CanonicalTower {
					let mut y = Vec::new();
					<$c>::from(v).serialize(&mut y, m).map_err(|e| e.to_string())?;
					if x != y {
						return Err(format!("canonical: {v:?} is written as {x:x?}, its canonical form as {y:x?}"));
					}
				}
			}};
		}
		macro_rules! packed {
			($p:ty) => {{
				let v: Vec<<$p as PackedField>::Scalar> =
					(0..<$p>::WIDTH).map(|_| <$p as PackedField>::Scalar::try_from(elem(&mut r, <<$p as PackedField>::Scalar as binius_field::TowerField>::TOWER_LEVEL)).ok().unwrap()).collect();
				let p: $p = <$p>::from_scalars(v);
				plain!($p, p);
				plain!(Vec<$p>, vec![p; r.usize(3)]);
			}};
		}
		let k = r.below(26);
		cx.sample = format!("kind {k}");
		let s = |r: &mut Rng| -> String {
			(0..r.usize(12)).map(|_| *r.pick(&['a', '\0', 'é', '漢', '🦀', ' '])).collect()
		};
		match k {
			0 => drop(plain!(u8, r.next() as u8)),
			1 => drop(plain!(u16, r.next() as u16)),
			2 => drop(plain!(u32, r.next() as u32)),
			3 => drop(plain!(u64, r.next())),
			4 => drop(plain!(u128, r.u128())),
			5 => drop(plain!(usize, r.next() as u32 as usize)),
			6 => drop(plain!(bool, r.chance(1, 2))),
			7 => drop(plain!(String, s(&mut r))),
			8 => drop(plain!(Vec<String>, (0..r.usize(5)).map(|_| s(&mut r)).collect())),
			9 => drop(plain!(Option<u64>, r.chance(1, 2).then(|| r.next()))),
			10 => drop(plain!((Option<bool>, Vec<(u16, String)>), (
				r.chance(1, 2).then(|| r.chance(1, 2)),
				(0..r.usize(4)).map(|_| (r.next() as u16, s(&mut r))).collect()
			))),
			11 => {
				// a length that cannot be written is an error, not another length
				let big = u32::MAX as usize + 1 + r.usize(1000);
				let mut b = Vec::new();
				if caught("writing a large usize", || big.serialize(&mut b, m))?.is_ok() {
					return Err(format!("changed: {big} was written as a 32-bit length"));
				}
			}
			12 => {
				plain!(BinaryField1b, BinaryField1b::from(r.below(2) as u8));
				plain!(BinaryField2b, BinaryField2b::try_from(elem(&mut r, 1)).unwrap());
				plain!(BinaryField4b, BinaryField4b::try_from(elem(&mut r, 2)).unwrap());
			}
			13 => {
				plain!(BinaryField8b, BinaryField8b::new(r.next() as u8));
				plain!(BinaryField16b, BinaryField16b::new(r.next() as u16));
				plain!(BinaryField32b, BinaryField32b::new(r.next() as u32));
			}
			14 => {
				plain!(BinaryField64b, BinaryField64b::new(r.next()));
				plain!(BinaryField128b, elem(&mut r, 7));
				plain!(Vec<BinaryField128b>, (0..r.usize(5)).map(|_| elem(&mut r, 7)).collect());
			}
			15 => iso!(AESTowerField8b, BinaryField8b, AESTowerField8b::new(r.next() as u8)),
			16 => {
				iso!(AESTowerField16b, BinaryField16b, AESTowerField16b::new(r.next() as u16));
				iso!(AESTowerField32b, BinaryField32b, AESTowerField32b::new(r.next() as u32));
			}
			17 => {
				iso!(AESTowerField64b, BinaryField64b, AESTowerField64b::new(r.next()));
				iso!(AESTowerField128b, BinaryField128b, AESTowerField128b::new(r.u128()));
			}
			18 => iso!(BinaryField128bPolyval, BinaryField128b, BinaryField128bPolyval::new(r.u128())),
			19 => {
				packed!(PackedBinaryField128x1b);
				packed!(PackedBinaryField16x8b);
				packed!(PackedBinaryField8x8b);
			}
			20 => {
				packed!(PackedBinaryField4x32b);
				packed!(PackedBinaryField2x64b);
				packed!(PackedBinaryField1x128b);
			}
			21 => {
				packed!(PackedBinaryField2x128b);
				packed!(PackedBinaryField256x1b);
				packed!(PackedBinaryField4x128b);
			}
			22 => {
				let e = expr(&mut r, 0);
				let c: ArithCircuit<B128> = e.into();
				plain!(ArithCircuit<B128>, c, |c: &ArithCircuit<B128>| {
					// nothing astronomical
					let huge = |s: &ArithCircuitStep<B128>| match s {
						ArithCircuitStep::Var(i) => *i > 1000,
						ArithCircuitStep::Pow(_, e) => *e == 0 || *e > 100,
						_ => false,
					};
					if !c.steps().iter().any(huge) {
						let q: Vec<B128> = (0..c.n_vars()).map(|i| B128::new(i as u128)).collect();
						c.evaluate(&q).unwrap();
						c.degree();
					}
				});
			}
			_ => {
				let p = transparent(&mut r);
				let seed = r.next();
				trip(cx, &format!("a transparent polynomial ({p:?})").chars().take(90).collect::<String>(), &p, m, fs, &|a: &Box<dyn MultivariatePoly<B128>>, b| {
					same_poly(&**a, &**b, &mut Rng::new(seed))
				}, &|p: &Box<dyn MultivariatePoly<B128>>| {
					if p.n_vars() < 20 {
						let _ = p.evaluate(&vec![B128::new(77); p.n_vars()]);
					}
				})?;
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"SerializeBytes and DeserializeBytes of primitives, fields, packed fields, circuits and transparent polynomials"
	}
	fn stub(&self) -> &'static str {
		"the reader and writer (fragmenting, cutting off, damaging, full)"
	}
}

fn expr(r: &mut Rng, depth: usize) -> ArithExpr<B128> {
	match r.below(if depth > 4 { 2 } else { 6 }) {
		0 => ArithExpr::Var(r.usize(5)),
		1 => {
			let l = *r.pick(&LEVELS);
			ArithExpr::Const(elem(r, l))
		}
		2 | 3 => expr(r, depth + 1) + expr(r, depth + 1),
		4 => expr(r, depth + 1) * expr(r, depth + 1),
		_ => expr(r, depth + 1).pow(r.range(1, 5)),
	}
}

fn transparent(r: &mut Rng) -> Box<dyn MultivariatePoly<B128>> {
	let n = r.usize(7);
	match r.below(9) {
		0 => Box::new(StepDown::new(n, r.usize((1 << n) + 1)).unwrap()),
		1 => Box::new(StepUp::new(n, r.usize((1 << n) + 1)).unwrap()),
		2 => Box::new(SelectRow::new(n, r.usize(1 << n)).unwrap()),
		3 => {
			macro_rules! con {
				($f:ty, $l:expr) => {
					Box::new(Constant::<B128>::new(n, <$f>::try_from(elem(r, $l)).ok().unwrap()))
				};
			}
			match r.below(4) {
				0 => con!(BinaryField1b, 0),
				1 => con!(BinaryField8b, 3),
				2 => con!(BinaryField32b, 5),
				_ => con!(BinaryField128b, 7),
			}
		}
		4 => Box::new(Powers::new(n, elem(r, 7))),
		5 => {
			let (iota, k) = (r.usize(8), r.usize(8));
			match TowerBasis::new(k, iota) {
				Ok(t) => Box::new(t),
				Err(_) => Box::new(Powers::new(1, B128::ONE)),
			}
		}
		_ => {
			type P = PackedType<OptimalUnderlier, B128>;
			let small = r.chance(1, 3);
			macro_rules! row {
				($f:ty, $l:expr) => {{
					let v: Vec<$f> =
						(0..1usize << n).map(|_| <$f>::try_from(elem(r, if small { 0 } else { $l })).ok().unwrap()).collect();
					Box::new(
						MultilinearExtensionTransparent::<PackedType<OptimalUnderlier, $f>, P, _>::from_values_and_mu(
							pack_slice(&v),
							n,
						)
						.unwrap(),
					)
				}};
			}
			match r.below(6) {
				0 => row!(BinaryField1b, 0),
				1 => row!(BinaryField8b, 3),
				2 => row!(BinaryField16b, 4),
				3 => row!(BinaryField32b, 5),
				4 => row!(BinaryField64b, 6),
				_ => row!(BinaryField128b, 7),
			}
		}
	}
}

fn main() {
	main_for(
		"C14",
		"fault_enumeration",
		"a run counts if something was written and read back; identity: value, mode, faults",
		Budget { secs: (45, 1800), runs: (60_000, 10_000_000) },
		&[&Systems, &Values],
	)
}
