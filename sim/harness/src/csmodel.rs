//! A dense reference model of a compiled constraint system.
//!
//! It holds one value per hypercube point for every oracle, derives the virtual ones from the
//! committed ones with its own definitions, and says which constraints an assignment breaks.
//! Oracles of one table are row-local, so after a change to one row only that row is recomputed.
use std::collections::{BTreeMap, BTreeSet};

use binius_core::{
	constraint_system::{
		ConstraintSystem,
		channel::{Boundary, FlushDirection, OracleOrConst},
	},
	oracle::{MultilinearPolyVariant, ShiftVariant},
};
use binius_field::{BinaryField128b as B128, Field};
use binius_math::{ArithCircuit, ArithCircuitStep};

use crate::Rng;

pub type Var = (usize, usize);

/// Most values are bits.
fn mul(a: B128, b: B128) -> B128 {
	if a == B128::ZERO || b == B128::ONE {
		a
	} else if b == B128::ZERO || a == B128::ONE {
		b
	} else {
		a * b
	}
}

fn pow(x: B128, e: u64) -> B128 {
	if e > 0 && (x == B128::ZERO || x == B128::ONE) {
		return x;
	}
	let (mut r, mut b, mut e) = (B128::ONE, x, e);
	while e > 0 {
		if e & 1 == 1 {
			r *= b;
		}
		b *= b;
		e >>= 1;
	}
	r
}

pub fn eval_steps(steps: &[ArithCircuitStep<B128>], q: &dyn Fn(usize) -> B128) -> B128 {
	let (mut small, mut large) = ([B128::ZERO; 24], Vec::new());
	let v: &mut [B128] = if steps.len() <= small.len() {
		&mut small
	} else {
		large.resize(steps.len(), B128::ZERO);
		&mut large
	};
	for (i, s) in steps.iter().enumerate() {
		let x = match s {
			ArithCircuitStep::Add(a, b) => v[*a] + v[*b],
			ArithCircuitStep::Mul(a, b) => mul(v[*a], v[*b]),
			ArithCircuitStep::Pow(a, e) => pow(v[*a], *e),
			ArithCircuitStep::Const(c) => *c,
			ArithCircuitStep::Var(i) => q(*i),
		};
		v[i] = x;
	}
	v[steps.len() - 1]
}

fn vars_of(c: &ArithCircuit<B128>) -> Vec<usize> {
	let mut s = BTreeSet::new();
	for st in c.steps() {
		if let ArithCircuitStep::Var(i) = st {
			s.insert(*i);
		}
	}
	s.into_iter().collect()
}

#[derive(Clone)]
enum Kind {
	Committed,
	Fixed,
	/// the base's oracle, or its powers by two to the position of each bit
	Exp { bits: Vec<usize>, base: Result<usize, Vec<B128>> },
	Repeating(usize),
	Projected { id: usize, values: Vec<B128>, start: usize },
	/// a projection to bits: k variables from `start` are fixed to `at`
	Picked { id: usize, k: usize, at: usize, start: usize },
	Shifted { id: usize, offset: usize, bits: usize, variant: ShiftVariant },
	Packed { id: usize, log_degree: usize },
	LinComb { offset: B128, terms: Vec<(usize, B128)> },
	ZeroPadded { id: usize, n_pad: usize, nonzero: usize, start: usize },
	Composite { inner: Vec<usize>, steps: Vec<ArithCircuitStep<B128>> },
}

pub struct Con {
	pub name: String,
	pub table: usize,
	pub lv: usize,
	ids: Vec<usize>,
	used: Vec<usize>,
	steps: Vec<ArithCircuitStep<B128>>,
}

pub struct Model {
	pub log_cap: Vec<Option<usize>>,
	pub sizes: Vec<usize>,
	kind: Vec<Kind>,
	/// table, log values per row, tower level, number of variables, label
	pub table: Vec<usize>,
	pub lv: Vec<usize>,
	pub level: Vec<usize>,
	n_vars: Vec<usize>,
	pub label: Vec<String>,
	pub val: Vec<Vec<B128>>,
	pub cons: Vec<Con>,
	nonzero: Vec<usize>,
	/// oracles that depend on the given one, and constraints that use any of those
	deps: Vec<Vec<usize>>,
	cons_of: Vec<Vec<usize>>,
}

/// table_of: which table each oracle belongs to, in oracle order.
impl Model {
	pub fn new(
		cs: &ConstraintSystem<B128>,
		sizes: &[usize],
		table_of: &[usize],
		get: &dyn Fn(usize, usize) -> Option<Vec<B128>>,
		fixed: &dyn Fn(usize) -> Option<Vec<B128>>,
	) -> Result<Self, String> {
		let set = cs.oracles.instantiate(sizes).map_err(|e| format!("instantiate: {e}"))?;
		let n = table_of.len();
		let log_cap: Vec<Option<usize>> =
			sizes.iter().map(|&s| (s > 0).then(|| s.next_power_of_two().trailing_zeros() as usize)).collect();
		let mut m = Model {
			log_cap: log_cap.clone(),
			sizes: sizes.to_vec(),
			kind: vec![Kind::Fixed; n],
			table: table_of.to_vec(),
			lv: vec![0; n],
			level: vec![0; n],
			n_vars: vec![0; n],
			label: vec![String::new(); n],
			val: vec![Vec::new(); n],
			cons: Vec::new(),
			nonzero: cs.non_zero_oracle_ids.iter().map(|i| i.index()).collect(),
			deps: vec![Vec::new(); n],
			cons_of: vec![Vec::new(); n],
		};
		for (id, o) in set.iter() {
			let i = id.index();
			if i >= n {
				return Err(format!("oracle {i} belongs to no column"));
			}
			m.n_vars[i] = o.n_vars();
			m.level[i] = o.binary_tower_level();
			m.label[i] = o.name().unwrap_or("?").to_string();
			let cap = log_cap[table_of[i]].ok_or("an oracle of an empty table is instantiated")?;
			m.lv[i] = o.n_vars().saturating_sub(cap);
			let len = 1usize << o.n_vars();
			m.kind[i] = match &o.variant {
				MultilinearPolyVariant::Committed => Kind::Committed,
				MultilinearPolyVariant::Transparent(p) if fixed(i).is_some_and(|v| v.len() == len) => {
					// what the column was declared to hold, against the polynomial at one point
					let v = fixed(i).unwrap();
					let pt: Vec<B128> =
						(0..o.n_vars()).map(|b| B128::new(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c834 << (b % 64) | i as u128)).collect();
					let mut f = v.clone();
					for r in pt.iter().rev() {
						let h = f.len() / 2;
						f = (0..h).map(|j| f[j] + *r * (f[j] + f[j + h])).collect();
					}
					let e = p.poly().evaluate(&pt).map_err(|e| e.to_string())?;
					if e != f[0] {
						return Err(format!("constant oracle {i} is not what was declared"));
					}
					m.val[i] = v;
					m.lv[i] = o.n_vars();
					Kind::Fixed
				}
				MultilinearPolyVariant::Transparent(p) => {
					for x in 0..len {
						let pt: Vec<B128> =
							(0..o.n_vars()).map(|b| if x >> b & 1 == 1 { B128::ONE } else { B128::ZERO }).collect();
						m.val[i].push(p.poly().evaluate(&pt).map_err(|e| e.to_string())?);
					}
					m.lv[i] = o.n_vars();
					Kind::Fixed
				}
				MultilinearPolyVariant::Structured(c) => {
					m.val[i] = (0..len)
						.map(|x| {
							eval_steps(c.steps(), &|v| {
								if v < o.n_vars() && x >> v & 1 == 1 { B128::ONE } else { B128::ZERO }
							})
						})
						.collect();
					Kind::Fixed
				}
				MultilinearPolyVariant::Repeating { id, .. } => Kind::Repeating(id.index()),
				MultilinearPolyVariant::Projected(p) if p.values().iter().all(|v| v.val() <= 1) => Kind::Picked {
					id: p.id().index(),
					k: p.values().len(),
					at: p.values().iter().enumerate().fold(0, |a, (j, v)| a | (v.val() as usize) << j),
					start: p.start_index(),
				},
				MultilinearPolyVariant::Projected(p) => {
					Kind::Projected { id: p.id().index(), values: p.values().clone(), start: p.start_index() }
				}
				MultilinearPolyVariant::Shifted(s) => Kind::Shifted {
					id: s.id().index(),
					offset: s.shift_offset(),
					bits: s.block_size(),
					variant: s.shift_variant(),
				},
				MultilinearPolyVariant::Packed(p) => Kind::Packed { id: p.id().index(), log_degree: p.log_degree() },
				MultilinearPolyVariant::LinearCombination(l) => Kind::LinComb {
					offset: l.offset(),
					terms: l.polys().map(|i| i.index()).zip(l.coefficients()).collect(),
				},
				MultilinearPolyVariant::ZeroPadded(z) => Kind::ZeroPadded {
					id: z.id().index(),
					n_pad: z.n_pad_vars(),
					nonzero: z.nonzero_index(),
					start: z.start_index(),
				},
				MultilinearPolyVariant::Composite(c) => Kind::Composite {
					inner: c.polys().map(|i| i.index()).collect(),
					steps: c.c().expr().steps().to_vec(),
				},
			};
		}
		for e in &cs.exponents {
			let r = e.exp_result_id.index();
			if log_cap[table_of[r]].is_none() {
				continue;
			}
			m.kind[r] = Kind::Exp {
				bits: e.bits_ids.iter().map(|i| i.index()).collect(),
				base: match e.base {
					OracleOrConst::Oracle(o) => Ok(o.index()),
					OracleOrConst::Const { base, .. } => {
						let mut p = vec![base];
						for i in 1..e.bits_ids.len() {
							p.push(p[i - 1] * p[i - 1]);
						}
						Err(p)
					}
				},
			};
		}
		for i in 0..n {
			if log_cap[table_of[i]].is_none() {
				continue;
			}
			let len = 1usize << m.n_vars[i];
			match m.kind[i] {
				Kind::Fixed => {}
				Kind::Committed => {
					let v = get(i, len).ok_or_else(|| format!("no witness for committed oracle {i} {}", m.label[i]))?;
					m.val[i] = v;
				}
				_ => {
					let v: Vec<B128> = (0..len).map(|x| m.derive(i, x)).collect();
					m.val[i] = v;
				}
			}
		}
		for s in &cs.table_constraints {
			if log_cap[s.table_id].is_none() {
				continue;
			}
			for c in &s.constraints {
				let used = vars_of(&c.composition).into_iter().map(|v| s.oracle_ids[v].index()).collect();
				m.cons.push(Con {
					name: c.name.clone(),
					table: s.table_id,
					lv: s.log_values_per_row,
					ids: s.oracle_ids.iter().map(|i| i.index()).collect(),
					used,
					steps: c.composition.steps().to_vec(),
				});
			}
		}
		// transitive dependents, oracles being in definition order
		let commits: Vec<usize> = (0..n)
			.filter(|&c| matches!(m.kind[c], Kind::Committed) && log_cap[table_of[c]].is_some())
			.collect();
		let words = commits.len() / 64 + 1;
		let mut from: Vec<Vec<u64>> = vec![vec![0; words]; n];
		for (b, &c) in commits.iter().enumerate() {
			from[c][b / 64] |= 1 << (b % 64);
		}
		let members = |set: &[u64]| -> Vec<usize> {
			(0..commits.len()).filter(|b| set[b / 64] >> (b % 64) & 1 == 1).map(|b| commits[b]).collect()
		};
		for o in 0..n {
			for i in m.inner(o) {
				let (lo, hi) = from.split_at_mut(o);
				for (x, y) in hi[0].iter_mut().zip(&lo[i]) {
					*x |= y;
				}
			}
			if !matches!(m.kind[o], Kind::Committed) {
				for c in members(&from[o]) {
					m.deps[c].push(o);
				}
			}
		}
		for k in 0..m.cons.len() {
			let mut set = vec![0; words];
			for &u in &m.cons[k].used {
				for (x, y) in set.iter_mut().zip(&from[u]) {
					*x |= y;
				}
			}
			for c in members(&set) {
				m.cons_of[c].push(k);
			}
		}
		Ok(m)
	}

	fn inner(&self, i: usize) -> Vec<usize> {
		match &self.kind[i] {
			Kind::Committed | Kind::Fixed => vec![],
			Kind::Exp { bits, base } => {
				let mut v = bits.clone();
				if let Ok(b) = base {
					v.push(*b);
				}
				v
			}
			Kind::Repeating(id)
			| Kind::Projected { id, .. }
			| Kind::Picked { id, .. }
			| Kind::Shifted { id, .. }
			| Kind::Packed { id, .. }
			| Kind::ZeroPadded { id, .. } => vec![*id],
			Kind::LinComb { terms, .. } => terms.iter().map(|t| t.0).collect(),
			Kind::Composite { inner, .. } => inner.clone(),
		}
	}

	/// The inner points a virtual oracle's value at one point is made from.
	fn points(&self, i: usize, x: usize) -> Vec<Var> {
		match &self.kind[i] {
			Kind::Committed | Kind::Fixed => vec![],
			Kind::Exp { .. } | Kind::LinComb { .. } | Kind::Composite { .. } => {
				self.inner(i).into_iter().map(|o| (o, x)).collect()
			}
			Kind::Repeating(id) => vec![(*id, x & ((1 << self.n_vars[*id]) - 1))],
			Kind::Projected { id, values, start } => {
				let k = values.len();
				let (lo, hi) = (x & ((1 << start) - 1), x >> start);
				(0..1usize << k).map(|m| (*id, lo | m << start | hi << (start + k))).collect()
			}
			Kind::Picked { id, k, at, start } => {
				let (lo, hi) = (x & ((1 << start) - 1), x >> start);
				vec![(*id, lo | at << start | hi << (start + k))]
			}
			Kind::Shifted { id, offset, bits, variant } => {
				let b = 1usize << bits;
				let (hi, lo) = (x / b * b, x % b);
				match variant {
					ShiftVariant::CircularLeft => vec![(*id, hi + (lo + b - offset) % b)],
					ShiftVariant::LogicalLeft if lo >= *offset => vec![(*id, hi + lo - offset)],
					ShiftVariant::LogicalRight if lo + offset < b => vec![(*id, hi + lo + offset)],
					_ => vec![],
				}
			}
			Kind::Packed { id, log_degree } => (0..1usize << log_degree).map(|j| (*id, x << log_degree | j)).collect(),
			Kind::ZeroPadded { id, n_pad, nonzero, start } => {
				let lo = x & ((1 << start) - 1);
				let mid = x >> start & ((1 << n_pad) - 1);
				let hi = x >> (start + n_pad);
				if mid == *nonzero { vec![(*id, lo | hi << start)] } else { vec![] }
			}
		}
	}

	fn derive(&self, i: usize, x: usize) -> B128 {
		match &self.kind[i] {
			Kind::Committed | Kind::Fixed => self.val[i][x],
			Kind::Exp { bits, base } => {
				let mut b = base.as_ref().map(|o| self.val[*o][x]);
				let mut r = B128::ONE;
				for (i, o) in bits.iter().enumerate() {
					if self.val[*o][x] == B128::ONE {
						r = mul(
							r,
							match &b {
								Ok(b) => *b,
								Err(p) => p[i],
							},
						);
					}
					if let Ok(b) = &mut b {
						*b = mul(*b, *b);
					}
				}
				r
			}
			Kind::LinComb { offset, terms } => terms.iter().fold(*offset, |a, (o, c)| a + mul(self.val[*o][x], *c)),
			Kind::Composite { inner, steps } => eval_steps(steps, &|v| self.val[inner[v]][x]),
			Kind::Projected { values, .. } => {
				let mut acc = B128::ZERO;
				for (m, (o, y)) in self.points(i, x).into_iter().enumerate() {
					let mut w = B128::ONE;
					for (j, v) in values.iter().enumerate() {
						w *= if m >> j & 1 == 1 { *v } else { B128::ONE + *v };
					}
					if w != B128::ZERO {
						acc += mul(w, self.val[o][y]);
					}
				}
				acc
			}
			Kind::Packed { id, .. } => {
				let w = 1u32 << self.level[*id];
				let mut v = 0u128;
				for (j, (o, y)) in self.points(i, x).into_iter().enumerate() {
					v |= u128::from(self.val[o][y].val()) << (j as u32 * w);
				}
				B128::new(v)
			}
			Kind::Repeating(_) | Kind::Picked { .. } | Kind::Shifted { .. } | Kind::ZeroPadded { .. } => {
				self.points(i, x).first().map_or(B128::ZERO, |&(o, y)| self.val[o][y])
			}
		}
	}

	pub fn is_committed(&self, i: usize) -> bool {
		matches!(self.kind[i], Kind::Committed)
	}

	pub fn is_exp(&self, i: usize) -> bool {
		matches!(self.kind[i], Kind::Exp { .. })
	}

	pub fn present(&self, i: usize) -> bool {
		!self.val[i].is_empty()
	}

	/// Set one committed value and recompute its row.
	pub fn set(&mut self, (o, x): Var, v: B128) {
		self.val[o][x] = v;
		let row = x >> self.lv[o];
		for k in 0..self.deps[o].len() {
			let d = self.deps[o][k];
			let lv = self.lv[d];
			for y in row << lv..(row + 1) << lv {
				self.val[d][y] = self.derive(d, y);
			}
		}
	}

	/// Put one row of a table back.
	pub fn restore_row(&mut self, base: &[Vec<B128>], table: usize, row: usize) {
		for o in 0..self.val.len() {
			if self.table[o] == table && self.present(o) && !matches!(self.kind[o], Kind::Fixed) {
				let r = row << self.lv[o]..(row + 1) << self.lv[o];
				self.val[o][r.clone()].copy_from_slice(&base[o][r]);
			}
		}
	}

	fn con_at(&self, c: &Con, x: usize) -> B128 {
		eval_steps(&c.steps, &|v| self.val[c.ids[v]][x])
	}

	/// Constraint values that are not zero, over one row of one table (restricted to constraints
	/// touching a committed oracle if one is given).
	pub fn broken_row(&self, table: usize, row: usize, only: Option<usize>) -> Vec<(usize, usize, B128)> {
		let mut out = Vec::new();
		let mut look = |k: usize| {
			let c = &self.cons[k];
			if c.table != table {
				return;
			}
			for x in row << c.lv..(row + 1) << c.lv {
				let v = self.con_at(c, x);
				if v != B128::ZERO {
					out.push((k, x, v));
				}
			}
		};
		match only {
			Some(o) => self.cons_of[o].iter().for_each(|&k| look(k)),
			None => (0..self.cons.len()).for_each(&mut look),
		}
		out
	}

	pub fn con_value(&self, k: usize, x: usize) -> B128 {
		self.con_at(&self.cons[k], x)
	}

	pub fn cons_touching(&self, o: usize) -> &[usize] {
		&self.cons_of[o]
	}

	/// The first thing the whole assignment breaks, channels aside.
	pub fn broken(&self) -> Option<String> {
		for (t, cap) in self.log_cap.iter().enumerate() {
			let Some(cap) = cap else { continue };
			for row in 0..1usize << cap {
				if let Some((k, x, _)) = self.broken_row(t, row, None).first() {
					return Some(format!("constraint '{}' of table {t} at {x}", self.cons[*k].name));
				}
			}
		}
		self.nonzero_broken()
	}

	pub fn nonzero_broken(&self) -> Option<String> {
		for &o in &self.nonzero {
			if let Some(x) = self.val[o].iter().position(|v| *v == B128::ZERO) {
				return Some(format!("'{}' is zero at {x}", self.label[o]));
			}
		}
		None
	}

	/// Whether pushes and pulls balance on every channel.
	pub fn unbalanced(&self, cs: &ConstraintSystem<B128>, bounds: &[Boundary<B128>]) -> Option<String> {
		let mut bal: BTreeMap<(usize, Vec<u128>), i128> = BTreeMap::new();
		for f in &cs.flushes {
			let size = self.sizes[f.table_id];
			for x in 0..size << f.log_values_per_row {
				if f.selectors.iter().any(|s| self.val[s.index()][x] == B128::ZERO) {
					continue;
				}
				let v: Vec<u128> = f
					.oracles
					.iter()
					.map(|o| match o {
						OracleOrConst::Oracle(i) => self.val[i.index()][x].val(),
						OracleOrConst::Const { base, .. } => base.val(),
					})
					.collect();
				let s = if f.direction == FlushDirection::Push { 1 } else { -1 };
				*bal.entry((f.channel_id, v)).or_insert(0) += s * i128::from(f.multiplicity);
			}
		}
		for b in bounds {
			let v = b.values.iter().map(|x| x.val()).collect();
			let s = if b.direction == FlushDirection::Push { 1 } else { -1 };
			*bal.entry((b.channel_id, v)).or_insert(0) += s * i128::from(b.multiplicity);
		}
		bal.into_iter().find(|(_, n)| *n != 0).map(|((c, v), n)| format!("channel {c} value {v:x?} has balance {n}"))
	}

	/// The committed values a point is made from.
	pub fn vars(&self, o: usize, x: usize, out: &mut BTreeSet<Var>, seen: &mut BTreeSet<Var>) {
		if !seen.insert((o, x)) {
			return;
		}
		if self.is_committed(o) {
			out.insert((o, x));
		}
		for (p, y) in self.points(o, x) {
			self.vars(p, y, out, seen);
		}
	}

	pub fn con_vars(&self, k: usize, x: usize) -> Vec<Var> {
		let (mut out, mut seen) = (BTreeSet::new(), BTreeSet::new());
		for &o in &self.cons[k].used {
			self.vars(o, x, &mut out, &mut seen);
		}
		out.into_iter().collect()
	}

	pub fn committed_of(&self, table: usize) -> Vec<usize> {
		(0..self.kind.len()).filter(|&i| self.table[i] == table && self.present(i) && self.is_committed(i)).collect()
	}

	fn fits(&self, o: usize, v: B128) -> bool {
		self.level[o] >= 7 || v.val() >> (1u32 << self.level[o]) == 0
	}

	/// Try to make one row of an assignment satisfy every constraint again, without touching
	/// `pinned`. Returns whether it worked.
	pub fn repair(&mut self, table: usize, row: usize, pinned: &BTreeSet<Var>, rng: &mut Rng, steps: usize) -> bool {
		let mut broken: BTreeSet<(usize, usize)> =
			self.broken_row(table, row, None).into_iter().map(|(k, x, _)| (k, x)).collect();
		let mut flips: BTreeMap<Var, u32> = BTreeMap::new();
		let greedy = 6 + rng.below(4);
		for _ in 0..steps {
			if broken.is_empty() {
				return true;
			}
			// mostly the first broken one: constraints are written in dataflow order
			let (k, x) = if rng.below(10) < greedy {
				*broken.iter().next().unwrap()
			} else {
				*broken.iter().nth(rng.usize(broken.len())).unwrap()
			};
			let c = self.con_value(k, x);
			let mut cand: Vec<Var> = self.con_vars(k, x).into_iter().filter(|v| !pinned.contains(v)).collect();
			if cand.is_empty() {
				return false;
			}
			// mostly the last defined variable that has not been changed too often
			let late = rng.below(10) < greedy;
			if late {
				cand.sort_by_key(|v| (flips.get(v).copied().unwrap_or(0) / 2, std::cmp::Reverse(v.0)));
			} else {
				for i in (1..cand.len()).rev() {
					cand.swap(i, rng.usize(i + 1));
				}
			}
			let mut done = false;
			for v in cand.into_iter().take(if late { 3 } else { 2 }) {
				let old = self.val[v.0][v.1];
				let mut tries = vec![old + c];
				if self.level[v.0] == 0 {
					tries = vec![old + B128::ONE];
				} else {
					tries.push(B128::new(u128::from(rng.next()) & ((1u128 << (1u32 << self.level[v.0].min(6))) - 1)));
				}
				for t in tries {
					if t == old || !self.fits(v.0, t) {
						continue;
					}
					self.set(v, t);
					if self.con_value(k, x) == B128::ZERO {
						*flips.entry(v).or_insert(0) += 1;
						for kk in self.cons_of[v.0].clone() {
							let lv = self.cons[kk].lv;
							for y in row << lv..(row + 1) << lv {
								if self.con_value(kk, y) == B128::ZERO {
									broken.remove(&(kk, y));
								} else {
									broken.insert((kk, y));
								}
							}
						}
						done = true;
						break;
					}
					self.set(v, old);
				}
				if done {
					break;
				}
			}
			if !done {
				return false;
			}
		}
		broken.is_empty()
	}
}
