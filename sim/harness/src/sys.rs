//! Random constraint systems with an independent reference model.
//!
//! The model works on plain vectors of scalars: it computes virtual columns from their definition
//! and decides whether an assignment satisfies the system. Only scalar field arithmetic is shared
//! with the code under test.
use std::collections::BTreeMap;

use binius_core::{
	constraint_system::{
		ConstraintSystem, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	oracle::{
		Constraint, ConstraintPredicate, ConstraintSet, OracleId, ShiftVariant,
		SymbolicMultilinearOracleSet,
	},
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, select_row::SelectRow,
		step_down::StepDown, step_up::StepUp,
	},
};
use binius_field::{
	BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, Field,
	TowerField, arch::OptimalUnderlier, as_packed_field::PackedType, packed::pack_slice,
};
use binius_math::ArithExpr;

use crate::Rng;

pub type B128 = BinaryField128b;
pub type Expr = ArithExpr<B128>;

pub const LEVELS: [usize; 6] = [0, 3, 4, 5, 6, 7];

pub fn elem(rng: &mut Rng, level: usize) -> B128 {
	let v = rng.u128();
	let bits = 1u32 << level;
	B128::new(if bits == 128 { v } else { v & ((1u128 << bits) - 1) })
}

pub fn nonzero_elem(rng: &mut Rng, level: usize) -> B128 {
	loop {
		let e = elem(rng, level);
		if e != B128::ZERO {
			return e;
		}
	}
}

pub fn eval_expr(e: &Expr, vars: &dyn Fn(usize) -> B128) -> B128 {
	match e {
		ArithExpr::Const(c) => *c,
		ArithExpr::Var(i) => vars(*i),
		ArithExpr::Add(a, b) => eval_expr(a, vars) + eval_expr(b, vars),
		ArithExpr::Mul(a, b) => eval_expr(a, vars) * eval_expr(b, vars),
		ArithExpr::Pow(a, n) => {
			let b = eval_expr(a, vars);
			let mut r = B128::ONE;
			for _ in 0..*n {
				r *= b;
			}
			r
		}
	}
}

pub fn expr_level(e: &Expr, vars: &dyn Fn(usize) -> usize) -> usize {
	match e {
		ArithExpr::Const(c) => up_level(c.min_tower_level()),
		ArithExpr::Var(i) => vars(*i),
		ArithExpr::Add(a, b) | ArithExpr::Mul(a, b) => expr_level(a, vars).max(expr_level(b, vars)),
		ArithExpr::Pow(a, _) => expr_level(a, vars),
	}
}

/// Degree after the simplifications the library applies.
pub fn circuit_degree(e: &Expr) -> usize {
	let mut c = binius_math::ArithCircuit::from(e);
	for _ in 0..4 {
		c.optimize_in_place();
	}
	c.degree()
}

pub fn up_level(l: usize) -> usize {
	LEVELS.iter().copied().find(|&x| x >= l).unwrap()
}

#[derive(Clone, Debug)]
pub enum Kind {
	/// Committed, freely chosen.
	Free(u8),
	/// Committed, and constrained to equal the expression over other columns.
	Defined { expr: Expr, inner: Vec<usize> },
	/// Committed, permuted copy of rows of another column.
	Copy { inner: usize, perm: u64 },
	/// Committed result of an exponentiation.
	Exp { exp: usize },
	Shifted { inner: usize, offset: usize, bits: usize, variant: ShiftVariant },
	Packed { inner: usize, log_degree: usize },
	Projected { inner: usize, values: Vec<B128>, start: usize },
	Repeating { inner: usize },
	ZeroPadded { inner: usize, n_pad: usize, nonzero: usize, start: usize },
	LinComb { offset: B128, terms: Vec<(usize, B128)> },
	Composite { inner: Vec<usize>, expr: Expr },
	Structured { expr: Expr },
	StepDown(usize),
	StepUp(usize),
	SelectRow(usize),
	ConstT(B128),
	/// One row of constants (transparent); made into a column by `Repeating`.
	Row(Vec<B128>),
}

impl Kind {
	pub fn committed(&self) -> bool {
		matches!(self, Kind::Free(_) | Kind::Defined { .. } | Kind::Copy { .. } | Kind::Exp { .. })
	}
	pub fn tag(&self) -> &'static str {
		match self {
			Kind::Free(_) => "free",
			Kind::Defined { .. } => "defined",
			Kind::Copy { .. } => "copy",
			Kind::Exp { .. } => "exp",
			Kind::Shifted { .. } => "shifted",
			Kind::Packed { .. } => "packed",
			Kind::Projected { .. } => "projected",
			Kind::Repeating { .. } => "repeating",
			Kind::ZeroPadded { .. } => "zero_padded",
			Kind::LinComb { .. } => "lincomb",
			Kind::Composite { .. } => "composite",
			Kind::Structured { .. } => "structured",
			Kind::StepDown(_) => "step_down",
			Kind::StepUp(_) => "step_up",
			Kind::SelectRow(_) => "select_row",
			Kind::ConstT(_) => "constant",
			Kind::Row(_) => "row",
		}
	}
}

#[derive(Clone, Debug)]
pub struct Col {
	pub table: usize,
	pub lvpr: usize,
	pub level: usize,
	pub kind: Kind,
	/// A row of constants has its own number of variables.
	pub single_row: bool,
}

#[derive(Clone, Debug)]
pub struct Table {
	pub size: usize,
	pub spec: TableSizeSpec,
}

#[derive(Clone, Debug)]
pub enum Val {
	Col(usize),
	Const(B128, usize),
}

#[derive(Clone, Debug)]
pub struct Fl {
	pub table: usize,
	pub lvpr: usize,
	pub vals: Vec<Val>,
	pub channel: usize,
	pub push: bool,
	pub selectors: Vec<usize>,
	pub mult: u64,
}

#[derive(Clone, Debug)]
pub struct Bd {
	pub values: Vec<B128>,
	pub channel: usize,
	pub push: bool,
	pub mult: u64,
}

#[derive(Clone, Debug)]
pub struct Ex {
	pub bits: Vec<usize>,
	pub base: Val,
	pub result: usize,
}

/// A zero constraint over columns of one partition.
#[derive(Clone, Debug)]
pub struct Zc {
	pub table: usize,
	pub lvpr: usize,
	pub inner: Vec<usize>,
	pub expr: Expr,
}

#[derive(Clone, Debug, Default)]
pub struct Sys {
	pub tables: Vec<Table>,
	pub cols: Vec<Col>,
	pub zcs: Vec<Zc>,
	pub flushes: Vec<Fl>,
	pub nonzero: Vec<usize>,
	pub exps: Vec<Ex>,
	pub channels: usize,
}

pub type Data = Vec<Vec<B128>>;

pub fn log2_ceil(n: usize) -> usize {
	(usize::BITS - n.saturating_sub(1).leading_zeros()) as usize
}

#[derive(Clone, Debug)]
pub struct Shape {
	pub tables: usize,
	pub max_log: usize,
	pub cols: usize,
	pub flushes: usize,
	pub exps: usize,
	pub nonzero: usize,
	pub zero_tables: bool,
	pub max_lvpr: usize,
}

impl Sys {
	pub fn n_vars(&self, c: usize) -> usize {
		let c = &self.cols[c];
		if c.single_row {
			return c.lvpr;
		}
		log2_ceil(self.tables[c.table].size) + c.lvpr
	}

	pub fn alive(&self, c: usize) -> bool {
		self.tables[self.cols[c].table].size > 0
	}

	pub fn table_sizes(&self) -> Vec<usize> {
		self.tables.iter().map(|t| t.size).collect()
	}

	fn committed_bits(&self) -> usize {
		(0..self.cols.len())
			.filter(|&c| self.cols[c].kind.committed() && self.alive(c))
			.map(|c| 1 << (self.n_vars(c) + self.cols[c].level))
			.filter(|b| *b >= 128)
			.sum()
	}

	fn add(&mut self, table: usize, lvpr: usize, level: usize, kind: Kind) -> usize {
		self.cols.push(Col { table, lvpr, level, kind, single_row: false });
		self.cols.len() - 1
	}

	/// Columns of the partition (table, lvpr).
	fn part(&self, table: usize, lvpr: usize) -> Vec<usize> {
		(0..self.cols.len())
			.filter(|&i| {
				let c = &self.cols[i];
				c.table == table && c.lvpr == lvpr && !c.single_row
			})
			.collect()
	}

	fn parts(&self) -> Vec<(usize, usize)> {
		let mut v: Vec<_> =
			self.cols.iter().filter(|c| !c.single_row).map(|c| (c.table, c.lvpr)).collect();
		v.sort();
		v.dedup();
		v
	}

	pub fn draw(rng: &mut Rng, sh: &Shape) -> Sys {
		let mut s = Sys::default();
		for t in 0..sh.tables {
			let log = rng.range(0, sh.max_log as u64) as usize;
			let p = 1usize << log;
			let size = match rng.below(10) {
				0 if sh.zero_tables && t > 0 => 0,
				1 | 2 if p > 2 => p - 1,
				3 if log < sh.max_log => p + 1,
				4 | 5 if log > 0 => rng.range((p / 2) as u64 + 1, p as u64) as usize,
				_ => p,
			};
			let spec = if size.is_power_of_two() {
				match rng.below(4) {
					0 => TableSizeSpec::PowerOfTwo,
					1 => TableSizeSpec::Fixed { log_size: size.trailing_zeros() as usize },
					_ => TableSizeSpec::Arbitrary,
				}
			} else {
				TableSizeSpec::Arbitrary
			};
			s.tables.push(Table { size, spec });
		}
		for t in 0..sh.tables {
			let n_parts = rng.range(1, 3);
			for _ in 0..n_parts {
				let lvpr = match rng.below(4) {
					0 | 1 => 0,
					2 => rng.range(0, sh.max_lvpr as u64) as usize,
					_ => 5.min(sh.max_lvpr),
				};
				let k = rng.range(1, 2);
				for _ in 0..k {
					let level = *rng.pick(&LEVELS);
					let style = rng.below(8) as u8;
					s.add(t, lvpr, level, Kind::Free(style));
				}
				if rng.chance(1, 3) {
					s.add(t, lvpr, 0, Kind::Free(rng.below(3) as u8));
				}
			}
		}
		// The commitment must hold at least two packed elements, or there is nothing to fold.
		if s.committed_bits() < 256 {
			s.add(0, 1, 7, Kind::Free(0));
		}
		for _ in 0..sh.cols {
			if rng.chance(1, 6) {
				s.draw_motif(rng);
			} else {
				s.draw_col(rng);
			}
		}
		for _ in 0..sh.exps {
			s.draw_exp(rng);
		}
		// Virtual columns that something depends on.
		for _ in 0..sh.cols / 4 {
			let i = rng.usize(s.cols.len());
			let c = &s.cols[i];
			if c.single_row || c.kind.committed() {
				continue;
			}
			let (table, lvpr, level) = (c.table, c.lvpr, c.level);
			let expr = match rng.below(3) {
				0 => Expr::Var(0),
				1 => Expr::Var(0) * Expr::Var(0) + Expr::Var(0),
				_ => Expr::Var(0) * (Expr::Var(0) + Expr::Const(elem(rng, level))),
			};
			let d = s.add(table, lvpr, level, Kind::Defined { expr: expr.clone(), inner: vec![i] });
			s.zcs.push(Zc { table, lvpr, inner: vec![i, d], expr: expr - Expr::Var(1) });
		}
		// A few constraints over what is there now.
		if rng.chance(1, 3) {
			s.draw_selector_constraint(rng);
		}
		for _ in 0..sh.nonzero {
			let (t, lvpr) = *rng.pick(&s.parts());
			let level = *rng.pick(&[3usize, 4, 5, 6, 7]);
			let c = s.add(t, lvpr, level, Kind::Free(8));
			s.nonzero.push(c);
		}
		if sh.flushes > 0 {
			s.channels = rng.range(1, 3) as usize;
			let widths: Vec<usize> = (0..s.channels).map(|_| rng.range(1, 3) as usize).collect();
			for _ in 0..sh.flushes {
				s.draw_flush(rng, &widths);
			}
		}
		s
	}

	fn draw_expr(&self, rng: &mut Rng, n: usize, depth: usize, max_level: usize) -> Expr {
		if depth == 0 || rng.chance(1, 4) {
			return if rng.chance(3, 4) {
				Expr::Var(rng.usize(n))
			} else {
				let l = *rng.pick(&LEVELS.iter().copied().filter(|&l| l <= max_level).collect::<Vec<_>>());
				Expr::Const(elem(rng, l))
			};
		}
		let a = self.draw_expr(rng, n, depth - 1, max_level);
		match rng.below(7) {
			0..=2 => a + self.draw_expr(rng, n, depth - 1, max_level),
			3..=5 => a * self.draw_expr(rng, n, depth - 1, max_level),
			_ => a.pow(rng.range(1, 3)),
		}
	}

	/// Nested linear combinations, shifted or packed, used side by side with what they are made of.
	fn draw_motif(&mut self, rng: &mut Rng) {
		let i = rng.usize(self.cols.len());
		if self.cols[i].single_row {
			return;
		}
		let (table, lvpr) = (self.cols[i].table, self.cols[i].lvpr);
		let part = self.part(table, lvpr);
		let mut used = vec![i];
		for _ in 0..rng.range(1, 3) {
			let l = *rng.pick(&LEVELS);
			let mut terms = vec![(*used.last().unwrap(), elem(rng, l))];
			if rng.chance(1, 2) {
				terms.push((*rng.pick(&part), if rng.chance(1, 2) { B128::ONE } else { elem(rng, l) }));
			}
			let offset = if rng.chance(1, 4) { B128::ZERO } else { elem(rng, l) };
			let level = terms.iter().map(|(c, x)| self.cols[*c].level.max(x.min_tower_level())).max().unwrap();
			let level = up_level(level.max(offset.min_tower_level()));
			used.push(self.add(table, lvpr, level, Kind::LinComb { offset, terms }));
		}
		let top = *used.last().unwrap();
		let max = if self.tables[table].size == 0 { lvpr } else { self.n_vars(top) };
		if max > 0 && rng.chance(3, 4) {
			let bits = rng.range(1, max as u64) as usize;
			let offset = rng.range(1, (1 << bits) - 1) as usize;
			let variant = *rng.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
			let level = self.cols[top].level;
			used.push(self.add(table, lvpr, level, Kind::Shifted { inner: top, offset, bits, variant }));
		} else {
			let k = rng.range(1, 2.min(used.len() as u64)) as usize;
			let inner: Vec<usize> = used[used.len() - k..].to_vec();
			let level = inner.iter().map(|&c| self.cols[c].level).max().unwrap();
			let expr = Expr::Var(0) * Expr::Var(k - 1) + Expr::Var(0);
			used.push(self.add(table, lvpr, level, Kind::Composite { inner, expr }));
		}
		rng.shuffle(&mut used);
		for c in used.into_iter().take(3) {
			let level = self.cols[c].level;
			let expr = if rng.chance(1, 2) { Expr::Var(0) } else { Expr::Var(0) * Expr::Var(0) + Expr::Var(0) };
			let d = self.add(table, lvpr, level, Kind::Defined { expr: expr.clone(), inner: vec![c] });
			self.zcs.push(Zc { table, lvpr, inner: vec![c, d], expr: expr - Expr::Var(1) });
		}
	}

	fn draw_col(&mut self, rng: &mut Rng) {
		let i = rng.usize(self.cols.len());
		if self.cols[i].single_row {
			return;
		}
		let (table, lvpr, level) = (self.cols[i].table, self.cols[i].lvpr, self.cols[i].level);
		let n_vars = self.n_vars(i);
		let dead = self.tables[table].size == 0;
		let part = self.part(table, lvpr);
		match rng.below(14) {
			0 | 1 => {
				let max = if dead { lvpr } else { n_vars };
				// Mostly within one row, as applications do.
				let max = if rng.chance(3, 4) { max.min(lvpr) } else { max };
				if max == 0 {
					return;
				}
				let bits = rng.range(1, max as u64) as usize;
				let offset = match rng.below(4) {
					0 => 1,
					1 => (1 << bits) - 1,
					_ => rng.range(1, (1 << bits) - 1) as usize,
				};
				let variant =
					*rng.pick(&[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight]);
				self.add(table, lvpr, level, Kind::Shifted { inner: i, offset, bits, variant });
			}
			2 => {
				let opts: Vec<usize> =
					(1..=lvpr).filter(|d| LEVELS.contains(&(level + d))).collect();
				if opts.is_empty() {
					return;
				}
				let d = *rng.pick(&opts);
				self.add(table, lvpr - d, level + d, Kind::Packed { inner: i, log_degree: d });
			}
			3 | 4 => {
				if lvpr == 0 {
					return;
				}
				let k = rng.range(1, lvpr as u64) as usize;
				let values = (0..k)
					.map(|_| if level == 7 && rng.chance(1, 4) { elem(rng, 7) } else { elem(rng, 0) })
					.collect();
				let start = rng.range(0, (lvpr - k) as u64) as usize;
				self.add(table, lvpr - k, level, Kind::Projected { inner: i, values, start });
			}
			5 => {
				let up = rng.range(0, 2) as usize;
				if lvpr + up > 6 {
					return;
				}
				self.add(table, lvpr + up, level, Kind::Repeating { inner: i });
			}
			6 => {
				let n_pad = rng.range(1, 2) as usize;
				if lvpr + n_pad > 6 {
					return;
				}
				let nonzero = rng.usize(1 << n_pad);
				let start = rng.range(0, if dead { lvpr } else { n_vars } as u64) as usize;
				self.add(table, lvpr + n_pad, level, Kind::ZeroPadded { inner: i, n_pad, nonzero, start });
			}
			7 | 8 => {
				let k = rng.range(1, 4) as usize;
				let mut terms = Vec::new();
				for _ in 0..k {
					let c = *rng.pick(&part);
					let l = *rng.pick(&LEVELS);
					terms.push((c, if rng.chance(1, 2) { B128::ONE } else { elem(rng, l) }));
				}
				let l = *rng.pick(&LEVELS);
				let offset = if rng.chance(1, 2) { B128::ZERO } else { elem(rng, l) };
				let level = terms
					.iter()
					.map(|(c, x)| self.cols[*c].level.max(x.min_tower_level()))
					.max()
					.unwrap()
					.max(offset.min_tower_level());
				self.add(table, lvpr, up_level(level), Kind::LinComb { offset, terms });
			}
			9 => {
				let k = rng.range(1, 3) as usize;
				let mut inner: Vec<usize> = (0..k).map(|_| *rng.pick(&part)).collect();
				inner.sort_unstable();
				inner.dedup();
				rng.shuffle(&mut inner);
				let k = inner.len();
				let level = inner.iter().map(|&c| self.cols[c].level).max().unwrap();
				let expr = self.draw_expr(rng, k, 2, level);
				// Constant compositions are not supported (the front end makes them linear).
				if circuit_degree(&expr) == 0 {
					return;
				}
				self.add(table, lvpr, level, Kind::Composite { inner, expr });
			}
			10 => {
				// A structured column: a low-degree function of the index bits.
				let n = if dead { lvpr.max(1) } else { n_vars };
				let mut e = Expr::Const(elem(rng, 3));
				for b in 0..n {
					let l = *rng.pick(&LEVELS);
					e = e + Expr::Var(b) * Expr::Const(elem(rng, l));
				}
				if n >= 2 && rng.chance(1, 2) {
					e = e + Expr::Var(0) * Expr::Var(n - 1);
				}
				let level = expr_level(&e, &|_| 0);
				self.add(table, lvpr, level, Kind::Structured { expr: e });
			}
			11 => {
				if dead {
					return;
				}
				let n = 1usize << n_vars;
				let k = match rng.below(4) {
					0 => Kind::StepDown(rng.range(0, n as u64) as usize),
					1 => Kind::StepUp(rng.range(0, n as u64) as usize),
					2 => Kind::SelectRow(rng.usize(n)),
					_ => {
						let l = *rng.pick(&[0, 3, 5, 7]);
						Kind::ConstT(elem(rng, l))
					}
				};
				let level = match &k {
					Kind::ConstT(v) => up_level(v.min_tower_level()),
					_ => 0,
				};
				self.add(table, lvpr, level, k);
			}
			12 => {
				let l = *rng.pick(&LEVELS);
				let row: Vec<B128> = (0..1 << lvpr).map(|_| elem(rng, l)).collect();
				let r = self.add(table, lvpr, l, Kind::Row(row));
				self.cols[r].single_row = true;
				self.add(table, lvpr, l, Kind::Repeating { inner: r });
			}
			_ => {
				let k = rng.range(1, 3) as usize;
				let inner: Vec<usize> = (0..k).map(|_| *rng.pick(&part)).collect();
				let expr = self.draw_expr(rng, k, 3, 7);
				let level = expr_level(&expr, &|v| self.cols[inner[v]].level);
				let c = self.add(table, lvpr, level, Kind::Defined { expr: expr.clone(), inner: inner.clone() });
				let mut all = inner;
				let n = all.len();
				all.push(c);
				self.zcs.push(Zc { table, lvpr, inner: all, expr: expr - Expr::Var(n) });
			}
		}
	}

	fn draw_selector_constraint(&mut self, rng: &mut Rng) {
		// b * (b + 1) = 0 for a committed bit in a larger field is tautological for bits; use a
		// free bit column embedded at a higher level.
		let (t, lvpr) = *rng.pick(&self.parts());
		let c = self.add(t, lvpr, 3, Kind::Free(1));
		self.zcs.push(Zc {
			table: t,
			lvpr,
			inner: vec![c],
			expr: Expr::Var(0) * (Expr::Var(0) + Expr::Const(B128::ONE)),
		});
	}

	fn draw_exp(&mut self, rng: &mut Rng) {
		let (t, lvpr) = *rng.pick(&self.parts());
		let k = rng.range(1, 6) as usize;
		let part = self.part(t, lvpr);
		let bitcols: Vec<usize> = part
			.iter()
			.copied()
			.filter(|&c| self.cols[c].level == 0 && self.cols[c].kind.committed())
			.collect();
		let mut bits = Vec::new();
		for _ in 0..k {
			if !bitcols.is_empty() && rng.chance(1, 3) {
				bits.push(*rng.pick(&bitcols));
			} else {
				bits.push(self.add(t, lvpr, 0, Kind::Free(0)));
			}
		}
		let dyn_base: Vec<usize> = part
			.iter()
			.copied()
			.filter(|&c| {
				self.cols[c].level >= 3
					&& matches!(self.cols[c].kind, Kind::Free(_) | Kind::Exp { .. } | Kind::LinComb { .. })
			})
			.collect();
		let (base, level) = if !dyn_base.is_empty() && rng.chance(1, 2) {
			let b = *rng.pick(&dyn_base);
			(Val::Col(b), self.cols[b].level)
		} else {
			let l = *rng.pick(&[3usize, 4, 5, 6, 7]);
			// (A base of one would make the exponent irrelevant; the protocol divides by base - 1.)
			let mut b = elem(rng, l);
			if b == B128::ONE {
				b = B128::new(2);
			}
			(Val::Const(b, l), l)
		};
		let e = self.exps.len();
		let result = self.add(t, lvpr, level, Kind::Exp { exp: e });
		self.exps.push(Ex { bits, base, result });
	}

	fn draw_flush(&mut self, rng: &mut Rng, widths: &[usize]) {
		let (t, lvpr) = *rng.pick(&self.parts());
		let part = self.part(t, lvpr);
		let channel = rng.usize(widths.len());
		let w = widths[channel];
		let must = rng.usize(w);
		let vals: Vec<Val> = (0..w)
			.map(|i| {
				if i == must || rng.chance(3, 4) {
					Val::Col(*rng.pick(&part))
				} else {
					let l = *rng.pick(&LEVELS);
					Val::Const(elem(rng, l), l)
				}
			})
			.collect();
		let sel: Vec<usize> = part.iter().copied().filter(|&c| self.cols[c].level == 0).collect();
		let mut selectors = Vec::new();
		if !sel.is_empty() {
			for _ in 0..*rng.pick(&[0usize, 0, 1, 1, 2]) {
				selectors.push(*rng.pick(&sel));
			}
		}
		let mult = *rng.pick(&[1u64, 1, 1, 2, 3, 7]);
		let push = rng.chance(1, 2);
		let f = Fl { table: t, lvpr, vals, channel, push, selectors, mult };
		self.flushes.push(f.clone());
		// A matching flush in the other direction.
		let large = (self.tables[t].size << lvpr) as u64 * mult > 24;
		if large || rng.chance(1, 2) {
			let mut g = f;
			g.push = !push;
			if g.selectors.is_empty() && rng.chance(2, 3) {
				// From a permuted copy of the columns.
				let perm = rng.next();
				for v in g.vals.iter_mut() {
					if let Val::Col(c) = *v {
						let level = self.cols[c].level;
						*v = Val::Col(self.add(t, lvpr, level, Kind::Copy { inner: c, perm }));
					}
				}
				if rng.chance(1, 4) && g.mult > 1 {
					// Split multiplicities over several flushes.
					let m = g.mult;
					g.mult = 1;
					for _ in 0..m - 1 {
						self.flushes.push(g.clone());
					}
				}
			}
			self.flushes.push(g);
		}
	}

	/// The values of a virtual column, from its definition.
	pub fn derive(&self, c: usize, d: &Data) -> Option<Vec<B128>> {
		let n_vars = self.n_vars(c);
		let n = 1usize << n_vars;
		Some(match &self.cols[c].kind {
			Kind::Free(_) | Kind::Defined { .. } | Kind::Copy { .. } | Kind::Exp { .. } => return None,
			Kind::Shifted { inner, offset, bits, variant } => {
				let b = 1usize << bits;
				(0..n)
					.map(|i| {
						let (hi, lo) = (i / b * b, i % b);
						match variant {
							ShiftVariant::CircularLeft => d[*inner][hi + (lo + b - offset) % b],
							ShiftVariant::LogicalLeft if lo >= *offset => d[*inner][hi + lo - offset],
							ShiftVariant::LogicalRight if lo + offset < b => d[*inner][hi + lo + offset],
							_ => B128::ZERO,
						}
					})
					.collect()
			}
			Kind::Packed { inner, log_degree } => {
				let k = 1usize << log_degree;
				let w = 1u32 << self.cols[*inner].level;
				(0..n)
					.map(|i| {
						let mut v = 0u128;
						for j in 0..k {
							v |= u128::from(d[*inner][i * k + j].val()) << (j as u32 * w);
						}
						B128::new(v)
					})
					.collect()
			}
			Kind::Projected { inner, values, start } => {
				let k = values.len();
				(0..n)
					.map(|i| {
						let lo = i & ((1 << start) - 1);
						let hi = i >> start;
						let mut acc = B128::ZERO;
						for m in 0..1usize << k {
							let mut w = B128::ONE;
							for (j, v) in values.iter().enumerate() {
								w *= if m >> j & 1 == 1 { *v } else { B128::ONE + *v };
							}
							if w != B128::ZERO {
								acc += w * d[*inner][lo | m << start | hi << (start + k)];
							}
						}
						acc
					})
					.collect()
			}
			Kind::Repeating { inner } => {
				let m = d[*inner].len();
				(0..n).map(|i| d[*inner][i % m]).collect()
			}
			Kind::ZeroPadded { inner, n_pad, nonzero, start } => (0..n)
				.map(|i| {
					let lo = i & ((1 << start) - 1);
					let mid = i >> start & ((1 << n_pad) - 1);
					let hi = i >> (start + n_pad);
					if mid == *nonzero { d[*inner][lo | hi << start] } else { B128::ZERO }
				})
				.collect(),
			Kind::LinComb { offset, terms } => (0..n)
				.map(|i| terms.iter().fold(*offset, |a, (c, x)| a + d[*c][i] * *x))
				.collect(),
			Kind::Composite { inner, expr } => {
				(0..n).map(|i| eval_expr(expr, &|v| d[inner[v]][i])).collect()
			}
			Kind::Structured { expr } => (0..n)
				.map(|i| {
					eval_expr(expr, &|v| if v < n_vars && i >> v & 1 == 1 { B128::ONE } else { B128::ZERO })
				})
				.collect(),
			Kind::StepDown(k) => (0..n).map(|i| if i < *k { B128::ONE } else { B128::ZERO }).collect(),
			Kind::StepUp(k) => (0..n).map(|i| if i >= *k { B128::ONE } else { B128::ZERO }).collect(),
			Kind::SelectRow(k) => (0..n).map(|i| if i == *k { B128::ONE } else { B128::ZERO }).collect(),
			Kind::ConstT(v) => vec![*v; n],
			Kind::Row(r) => r.clone(),
		})
	}

	/// An assignment that satisfies everything but possibly the channels.
	pub fn fill(&self, rng: &mut Rng) -> Data {
		let mut d: Data = vec![Vec::new(); self.cols.len()];
		for c in 0..self.cols.len() {
			if !self.alive(c) {
				continue;
			}
			let n = 1usize << self.n_vars(c);
			let level = self.cols[c].level;
			d[c] = match &self.cols[c].kind {
				Kind::Free(style) => {
					let k = elem(rng, level);
					(0..n)
						.map(|i| match style {
							1 => elem(rng, 0),
							3 => B128::ZERO,
							4 => k,
							5 => {
								if rng.chance(1, 8) {
									elem(rng, level)
								} else {
									B128::ZERO
								}
							}
							6 => elem(rng, level.min(3)),
							7 if level >= 5 => B128::new(i as u128 & 0xffff_ffff),
							8 => nonzero_elem(rng, level),
							_ => elem(rng, level),
						})
						.collect()
				}
				Kind::Defined { expr, inner } => {
					(0..n).map(|i| eval_expr(expr, &|v| d[inner[v]][i])).collect()
				}
				Kind::Copy { inner, perm } => {
					let rows = self.tables[self.cols[c].table].size << self.cols[c].lvpr;
					let mut idx: Vec<usize> = (0..rows).collect();
					let mut r = Rng::new(*perm);
					for i in (1..rows).rev() {
						let j = r.usize(i + 1);
						idx.swap(i, j);
					}
					(0..n).map(|i| if i < rows { d[*inner][idx[i]] } else { elem(rng, level) }).collect()
				}
				Kind::Exp { exp } => self.exp_values(*exp, &d),
				_ => self.derive(c, &d).unwrap(),
			};
		}
		d
	}

	pub fn exp_values(&self, e: usize, d: &Data) -> Vec<B128> {
		let ex = &self.exps[e];
		let n = 1usize << self.n_vars(ex.result);
		(0..n)
			.map(|i| {
				let base = match &ex.base {
					Val::Col(c) => d[*c][i],
					Val::Const(b, _) => *b,
				};
				let mut acc = B128::ONE;
				let mut p = base;
				for b in &ex.bits {
					if d[*b][i] == B128::ONE {
						acc *= p;
					}
					p = p * p;
				}
				acc
			})
			.collect()
	}

	/// Net multiset of each channel: tuple to (pushes, pulls).
	pub fn channel_balance(&self, d: &Data, bds: &[Bd]) -> BTreeMap<(usize, Vec<u128>), i128> {
		let mut m: BTreeMap<(usize, Vec<u128>), i128> = BTreeMap::new();
		for f in &self.flushes {
			let rows = self.tables[f.table].size << f.lvpr;
			for i in 0..rows {
				if f.selectors.iter().any(|&s| d[s][i] == B128::ZERO) {
					continue;
				}
				let tuple: Vec<u128> = f
					.vals
					.iter()
					.map(|v| match v {
						Val::Col(c) => u128::from(d[*c][i].val()),
						Val::Const(b, _) => u128::from(b.val()),
					})
					.collect();
				let k = f.mult as i128 * if f.push { 1 } else { -1 };
				*m.entry((f.channel, tuple)).or_default() += k;
			}
		}
		for b in bds {
			let tuple: Vec<u128> = b.values.iter().map(|v| u128::from(v.val())).collect();
			let k = b.mult as i128 * if b.push { 1 } else { -1 };
			*m.entry((b.channel, tuple)).or_default() += k;
		}
		m.retain(|_, v| *v != 0);
		m
	}

	/// Boundaries that balance all channels, in a random order.
	pub fn balance(&self, rng: &mut Rng, d: &Data) -> Vec<Bd> {
		let mut out = Vec::new();
		for ((channel, tuple), k) in self.channel_balance(d, &[]) {
			let values: Vec<B128> = tuple.into_iter().map(B128::new).collect();
			let push = k < 0;
			let k = k.unsigned_abs() as u64;
			if k > 1 && k < 4 && rng.chance(1, 3) {
				for _ in 0..k {
					out.push(Bd { values: values.clone(), channel, push, mult: 1 });
				}
			} else {
				out.push(Bd { values, channel, push, mult: k });
			}
		}
		for i in (1..out.len()).rev() {
			let j = rng.usize(i + 1);
			out.swap(i, j);
		}
		// A pair of boundaries that cancel out.
		if self.channels > 0 && rng.chance(1, 6) {
			let f = self.flushes.first().unwrap();
			let values: Vec<B128> = f.vals.iter().map(|_| elem(rng, 7)).collect();
			for push in [true, false] {
				out.push(Bd { values: values.clone(), channel: f.channel, push, mult: 5 });
			}
		}
		out
	}

	/// The reference decision.
	pub fn satisfied(&self, d: &Data, bds: &[Bd]) -> Result<(), String> {
		for c in 0..self.cols.len() {
			if !self.alive(c) {
				continue;
			}
			if let Some(v) = self.derive(c, d) {
				if let Some(i) = (0..v.len()).find(|&i| v[i] != d[c][i]) {
					return Err(format!("virtual column {c} ({}) differs at {i}", self.cols[c].kind.tag()));
				}
			}
		}
		for (k, z) in self.zcs.iter().enumerate() {
			if self.tables[z.table].size == 0 {
				continue;
			}
			let n = 1usize << self.n_vars(z.inner[0]);
			for i in 0..n {
				if eval_expr(&z.expr, &|v| d[z.inner[v]][i]) != B128::ZERO {
					return Err(format!("constraint {k} not zero at {i}"));
				}
			}
		}
		for &c in &self.nonzero {
			if self.alive(c) && d[c].contains(&B128::ZERO) {
				return Err(format!("nonzero column {c} has a zero"));
			}
		}
		for e in 0..self.exps.len() {
			let r = self.exps[e].result;
			if self.alive(r) {
				let v = self.exp_values(e, d);
				if let Some(i) = (0..v.len()).find(|&i| v[i] != d[r][i]) {
					return Err(format!("exponentiation {e} wrong at {i}"));
				}
			}
		}
		if let Some((k, v)) = self.channel_balance(d, bds).into_iter().next() {
			return Err(format!("channel {} unbalanced by {v}", k.0));
		}
		Ok(())
	}

	/// The columns a column is computed from.
	pub fn inputs(&self, c: usize) -> Vec<usize> {
		match &self.cols[c].kind {
			Kind::Defined { inner, .. } | Kind::Composite { inner, .. } => inner.clone(),
			Kind::Copy { inner, .. }
			| Kind::Shifted { inner, .. }
			| Kind::Packed { inner, .. }
			| Kind::Projected { inner, .. }
			| Kind::Repeating { inner }
			| Kind::ZeroPadded { inner, .. } => vec![*inner],
			Kind::LinComb { terms, .. } => terms.iter().map(|t| t.0).collect(),
			Kind::Exp { exp } => {
				let e = &self.exps[*exp];
				let mut v = e.bits.clone();
				if let Val::Col(c) = e.base {
					v.push(c);
				}
				v
			}
			_ => vec![],
		}
	}

	/// Columns the statement depends on (directly or through virtual columns).
	pub fn relevant(&self) -> Vec<bool> {
		let mut r = vec![false; self.cols.len()];
		for z in &self.zcs {
			z.inner.iter().for_each(|&c| r[c] = true);
		}
		for f in &self.flushes {
			for v in &f.vals {
				if let Val::Col(c) = v {
					r[*c] = true;
				}
			}
			f.selectors.iter().for_each(|&c| r[c] = true);
		}
		self.nonzero.iter().for_each(|&c| r[c] = true);
		for e in &self.exps {
			e.bits.iter().for_each(|&c| r[c] = true);
			if let Val::Col(c) = e.base {
				r[c] = true;
			}
			r[e.result] = true;
		}
		for c in (0..self.cols.len()).rev() {
			if r[c] && !self.cols[c].kind.committed() {
				self.inputs(c).into_iter().for_each(|i| r[i] = true);
			}
		}
		r
	}

	/// Recomputes every column that depends on the changed one (not the changed one itself).
	pub fn propagate(&self, d: &mut Data, changed: usize) {
		let mut dirty = vec![false; self.cols.len()];
		dirty[changed] = true;
		for c in 0..self.cols.len() {
			if c == changed || !self.alive(c) || !self.inputs(c).iter().any(|&i| dirty[i]) {
				continue;
			}
			let n = 1usize << self.n_vars(c);
			let new: Vec<B128> = match &self.cols[c].kind {
				Kind::Defined { expr, inner } => {
					(0..n).map(|i| eval_expr(expr, &|v| d[inner[v]][i])).collect()
				}
				Kind::Copy { inner, perm } => {
					let rows = self.tables[self.cols[c].table].size << self.cols[c].lvpr;
					let mut idx: Vec<usize> = (0..rows).collect();
					let mut r = Rng::new(*perm);
					for i in (1..rows).rev() {
						let j = r.usize(i + 1);
						idx.swap(i, j);
					}
					(0..n).map(|i| if i < rows { d[*inner][idx[i]] } else { d[c][i] }).collect()
				}
				Kind::Exp { exp } => self.exp_values(*exp, d),
				_ => self.derive(c, d).unwrap(),
			};
			if new != d[c] {
				d[c] = new;
				dirty[c] = true;
			}
		}
	}

	/// The committed columns with all virtual columns recomputed from their definitions.
	pub fn rederive(&self, d: &Data) -> Data {
		let mut d = d.clone();
		for c in 0..self.cols.len() {
			if self.alive(c) {
				if let Some(v) = self.derive(c, &d) {
					d[c] = v;
				}
			}
		}
		d
	}

	/// Whether the committed columns satisfy the system, whatever the virtual columns claim.
	pub fn committed_satisfied(&self, d: &Data, bds: &[Bd]) -> Result<(), String> {
		self.satisfied(&self.rederive(d), bds)
	}

	/// Changes one parameter of the system, keeping the structure (columns, sizes, degrees).
	pub fn mutate(&mut self, rng: &mut Rng) -> Option<String> {
		let what = rng.below(10);
		match what {
			0..=4 => {
				let rel = self.relevant();
				let opts: Vec<usize> = (0..self.cols.len())
					.filter(|&c| rel[c] && !self.cols[c].kind.committed())
					.collect();
				if opts.is_empty() {
					return None;
				}
				let c = *rng.pick(&opts);
				let level = self.cols[c].level;
				let n_vars = if self.alive(c) { self.n_vars(c) } else { return None };
				let tag = self.cols[c].kind.tag();
				match &mut self.cols[c].kind {
					Kind::Shifted { offset, bits, variant, .. } => {
						if rng.chance(1, 2) && *bits > 1 {
							let o = rng.range(1, (1 << *bits) - 1) as usize;
							if o == *offset {
								return None;
							}
							*offset = o;
						} else {
							let v = *rng.pick(&[
								ShiftVariant::CircularLeft,
								ShiftVariant::LogicalLeft,
								ShiftVariant::LogicalRight,
							]);
							if v == *variant {
								return None;
							}
							*variant = v;
						}
					}
					Kind::Projected { values, .. } => {
						let i = rng.usize(values.len());
						values[i] += B128::ONE;
					}
					Kind::ZeroPadded { n_pad, nonzero, .. } => {
						*nonzero ^= rng.range(1, (1 << *n_pad) - 1) as usize;
					}
					Kind::LinComb { offset, terms } => {
						if rng.chance(1, 3) {
							*offset += nonzero_elem(rng, level);
						} else {
							let i = rng.usize(terms.len());
							terms[i].1 += B128::ONE;
						}
					}
					Kind::Composite { expr, .. } | Kind::Structured { expr } => {
						*expr = change_const(expr, rng, level)?;
					}
					Kind::StepDown(k) | Kind::StepUp(k) => {
						let n = rng.range(0, 1 << n_vars) as usize;
						if n == *k {
							return None;
						}
						*k = n;
					}
					Kind::SelectRow(k) => {
						let n = rng.usize(1 << n_vars);
						if n == *k {
							return None;
						}
						*k = n;
					}
					Kind::ConstT(v) => *v += nonzero_elem(rng, level),
					Kind::Row(r) => {
						let i = rng.usize(r.len());
						r[i] += nonzero_elem(rng, level);
					}
					_ => return None,
				}
				Some(format!("column:{tag}"))
			}
			5 => {
				// The same constant change in a constraint and in the definition it comes from.
				let zs: Vec<usize> = (0..self.zcs.len()).collect();
				if zs.is_empty() {
					return None;
				}
				let z = *rng.pick(&zs);
				let last = *self.zcs[z].inner.last().unwrap();
				let level = self.cols[last].level;
				let Kind::Defined { expr, .. } = &mut self.cols[last].kind else { return None };
				*expr = change_const(expr, rng, level)?;
				let n = self.zcs[z].inner.len() - 1;
				self.zcs[z].expr = expr.clone() - Expr::Var(n);
				Some("constraint".into())
			}
			6 => {
				if self.exps.is_empty() {
					return None;
				}
				let e = rng.usize(self.exps.len());
				let r = self.exps[e].result;
				match rng.below(3) {
					0 => {
						// The result goes to another column.
						let opts: Vec<usize> = self
							.part(self.cols[r].table, self.cols[r].lvpr)
							.into_iter()
							.filter(|&c| {
								c != r
									&& self.cols[c].level == self.cols[r].level
									&& matches!(self.cols[c].kind, Kind::Free(_))
									&& !self.exps[e].bits.contains(&c)
									&& self.exps.iter().all(|x| !matches!(x.base, Val::Col(b) if b == c))
							})
							.collect();
						if opts.is_empty() {
							return None;
						}
						let n = *rng.pick(&opts);
						self.exps[e].result = n;
						self.cols[n].kind = Kind::Exp { exp: e };
						self.cols[r].kind = Kind::Free(0);
						// Keep dependencies in column order.
						if self.inputs(n).iter().any(|&i| i >= n) {
							return None;
						}
					}
					1 => {
						let l = self.cols[r].level;
						let Val::Const(b, _) = &mut self.exps[e].base else { return None };
						*b += nonzero_elem(rng, l.min(3));
						if *b == B128::ONE {
							return None;
						}
					}
					_ => {
						let b = &mut self.exps[e].bits;
						if b.len() < 2 {
							return None;
						}
						let i = rng.usize(b.len() - 1);
						if b[i] == b[i + 1] {
							return None;
						}
						b.swap(i, i + 1);
					}
				}
				Some("exponent".into())
			}
			7 => {
				if self.nonzero.is_empty() {
					return None;
				}
				let i = rng.usize(self.nonzero.len());
				let c = self.nonzero[i];
				// Another column stands in, and the original may now have a zero.
				let opts: Vec<usize> = self
					.part(self.cols[c].table, self.cols[c].lvpr)
					.into_iter()
					.filter(|&x| x != c && matches!(self.cols[x].kind, Kind::Free(8)))
					.collect();
				if opts.is_empty() {
					return None;
				}
				self.nonzero[i] = *rng.pick(&opts);
				self.cols[c].kind = Kind::Free(5);
				Some("nonzero".into())
			}
			_ => {
				if self.flushes.is_empty() {
					return None;
				}
				let i = rng.usize(self.flushes.len());
				let part = self.part(self.flushes[i].table, self.flushes[i].lvpr);
				let sel: Vec<usize> =
					part.iter().copied().filter(|&c| self.cols[c].level == 0).collect();
				let channels = self.channels;
				let widths: Vec<Option<usize>> = (0..channels)
					.map(|ch| self.flushes.iter().find(|f| f.channel == ch).map(|f| f.vals.len()))
					.collect();
				let f = &mut self.flushes[i];
				match rng.below(6) {
					0 => f.mult = if f.mult == 1 { 2 } else { f.mult - 1 },
					1 => f.push = !f.push,
					2 => {
						if f.selectors.is_empty() || sel.is_empty() {
							return None;
						}
						let k = rng.usize(f.selectors.len());
						let s = *rng.pick(&sel);
						if f.selectors[k] == s {
							return None;
						}
						f.selectors[k] = s;
					}
					3 => {
						let k = rng.usize(f.vals.len());
						match &mut f.vals[k] {
							Val::Const(b, l) => *b += nonzero_elem(rng, *l),
							Val::Col(c) => {
								let n = *rng.pick(&part);
								if n == *c {
									return None;
								}
								*c = n;
							}
						}
					}
					4 => {
						if f.vals.len() < 2 {
							return None;
						}
						f.vals.swap(0, 1);
					}
					_ => {
						let opts: Vec<usize> = (0..channels)
							.filter(|&ch| ch != f.channel && widths[ch] == Some(f.vals.len()))
							.collect();
						if opts.is_empty() {
							return None;
						}
						f.channel = *rng.pick(&opts);
					}
				}
				Some("flush".into())
			}
		}
	}

	/// The constraint system of the code under test.
	pub fn build(&self) -> ConstraintSystem<B128> {
		self.try_build().expect("well-formed constraint system")
	}

	pub fn try_build(&self) -> Result<ConstraintSystem<B128>, binius_core::oracle::Error> {
		let mut o = SymbolicMultilinearOracleSet::<B128>::new();
		let id = OracleId::from_index;
		for (i, c) in self.cols.iter().enumerate() {
			let b = o.add_oracle(c.table, c.lvpr, format!("c{i}"));
			let got = match &c.kind {
				k if k.committed() => b.committed(c.level),
				Kind::Shifted { inner, offset, bits, variant } => {
					b.shifted(id(*inner), *offset, *bits, *variant)?
				}
				Kind::Packed { inner, log_degree } => b.packed(id(*inner), *log_degree)?,
				Kind::Projected { inner, values, start } => b.projected(id(*inner), values.clone(), *start)?,
				Kind::Repeating { inner } => b.repeating(id(*inner))?,
				Kind::ZeroPadded { inner, n_pad, nonzero, start } => {
					b.zero_padded(id(*inner), *n_pad, *nonzero, *start)?
				}
				Kind::LinComb { offset, terms } => b.linear_combination_with_offset(
					*offset,
					terms.iter().map(|(c, x)| (id(*c), *x)),
				)?,
				Kind::Composite { inner, expr } => {
					b.composite_mle(inner.iter().map(|c| id(*c)), expr.clone().into())?
				}
				Kind::Structured { expr } => b.structured(expr.clone().into())?,
				Kind::StepDown(k) => b.transparent(StepDown::new(self.n_vars(i), *k).unwrap())?,
				Kind::StepUp(k) => b.transparent(StepUp::new(self.n_vars(i), *k).unwrap())?,
				Kind::SelectRow(k) => b.transparent(SelectRow::new(self.n_vars(i), *k).unwrap())?,
				Kind::ConstT(v) => {
					let n = self.n_vars(i);
					macro_rules! con {
						($f:ty) => {
							b.transparent(Constant::<B128>::new(n, <$f>::try_from(*v).ok().unwrap()))?
						};
					}
					match self.cols[i].level {
						0 => con!(binius_field::BinaryField1b),
						3 => con!(BinaryField8b),
						4 => con!(BinaryField16b),
						5 => con!(BinaryField32b),
						6 => con!(BinaryField64b),
						_ => con!(B128),
					}
				}
				Kind::Row(r) => {
					type P = PackedType<OptimalUnderlier, B128>;
					macro_rules! row {
						($f:ty) => {{
							let v: Vec<$f> =
								r.iter().map(|x| <$f>::try_from(*x).ok().unwrap()).collect();
							b.transparent(
								MultilinearExtensionTransparent::<PackedType<OptimalUnderlier, $f>, P, _>::from_values_and_mu(
									pack_slice(&v),
									c.lvpr,
								)
								.unwrap(),
							)?
						}};
					}
					match c.level {
						0 => row!(binius_field::BinaryField1b),
						3 => row!(BinaryField8b),
						4 => row!(BinaryField16b),
						5 => row!(BinaryField32b),
						6 => row!(BinaryField64b),
						_ => row!(BinaryField128b),
					}
				}
				_ => unreachable!(),
			};
			assert_eq!(got.index(), i);
		}
		let mut sets: BTreeMap<(usize, usize), ConstraintSet<B128>> = BTreeMap::new();
		for (k, z) in self.zcs.iter().enumerate() {
			let e = sets.entry((z.table, z.lvpr)).or_insert_with(|| ConstraintSet {
				table_id: z.table,
				log_values_per_row: z.lvpr,
				oracle_ids: vec![],
				constraints: vec![],
			});
			let mut map = Vec::new();
			for &c in &z.inner {
				let p = e.oracle_ids.iter().position(|x| x.index() == c).unwrap_or_else(|| {
					e.oracle_ids.push(id(c));
					e.oracle_ids.len() - 1
				});
				map.push(p);
			}
			e.constraints.push(Constraint {
				name: format!("z{k}"),
				composition: remap(&z.expr, &map).into(),
				predicate: ConstraintPredicate::Zero,
			});
		}
		let val = |v: &Val| match v {
			Val::Col(c) => OracleOrConst::Oracle(id(*c)),
			Val::Const(b, l) => OracleOrConst::Const { base: *b, tower_level: *l },
		};
		Ok(ConstraintSystem {
			oracles: o,
			table_constraints: sets.into_values().collect(),
			non_zero_oracle_ids: self.nonzero.iter().map(|c| id(*c)).collect(),
			flushes: self
				.flushes
				.iter()
				.map(|f| Flush {
					table_id: f.table,
					log_values_per_row: f.lvpr,
					oracles: f.vals.iter().map(val).collect(),
					channel_id: f.channel,
					direction: if f.push { FlushDirection::Push } else { FlushDirection::Pull },
					selectors: f.selectors.iter().map(|c| id(*c)).collect(),
					multiplicity: f.mult,
				})
				.collect(),
			exponents: self
				.exps
				.iter()
				.map(|e| Exp {
					bits_ids: e.bits.iter().map(|c| id(*c)).collect(),
					base: val(&e.base),
					exp_result_id: id(e.result),
				})
				.collect(),
			channel_count: self.channels,
			table_size_specs: self.tables.iter().map(|t| t.spec).collect(),
		})
	}

	pub fn boundaries(bds: &[Bd]) -> Vec<Boundary<B128>> {
		bds.iter()
			.map(|b| Boundary {
				values: b.values.clone(),
				channel_id: b.channel,
				direction: if b.push { FlushDirection::Push } else { FlushDirection::Pull },
				multiplicity: b.mult,
			})
			.collect()
	}

	pub fn describe(&self) -> String {
		let mut k: BTreeMap<&str, usize> = BTreeMap::new();
		for c in &self.cols {
			*k.entry(c.kind.tag()).or_default() += 1;
		}
		if std::env::var("VSIM_VERBOSE").is_ok() {
			let mut o = format!("{:?}\n", self.table_sizes());
			for (i, c) in self.cols.iter().enumerate() {
				o += &format!("{i}: t{} lvpr{} lev{} {:?}\n", c.table, c.lvpr, c.level, c.kind);
			}
			return o + &format!("zcs {:?}\nflushes {:?}\nexps {:?}\nnonzero {:?}", self.zcs, self.flushes, self.exps, self.nonzero);
		}
		format!(
			"tables {:?}, columns {k:?}, {} zero constraints, {} flushes over {} channels, {} exponentiations, {} nonzero",
			self.table_sizes(),
			self.zcs.len(),
			self.flushes.len(),
			self.channels,
			self.exps.len(),
			self.nonzero.len()
		)
	}
}

pub fn remap(e: &Expr, map: &[usize]) -> Expr {
	match e {
		ArithExpr::Const(c) => Expr::Const(*c),
		ArithExpr::Var(i) => Expr::Var(map[*i]),
		ArithExpr::Add(a, b) => remap(a, map) + remap(b, map),
		ArithExpr::Mul(a, b) => remap(a, map) * remap(b, map),
		ArithExpr::Pow(a, n) => remap(a, map).pow(*n),
	}
}

/// Changes one constant of an expression, or adds one.
pub fn change_const(e: &Expr, rng: &mut Rng, level: usize) -> Option<Expr> {
	fn consts(e: &Expr) -> usize {
		match e {
			ArithExpr::Const(_) => 1,
			ArithExpr::Var(_) => 0,
			ArithExpr::Add(a, b) | ArithExpr::Mul(a, b) => consts(a) + consts(b),
			ArithExpr::Pow(a, _) => consts(a),
		}
	}
	fn go(e: &Expr, k: &mut usize, new: &mut dyn FnMut(B128) -> B128) -> Expr {
		match e {
			ArithExpr::Const(c) => {
				*k = k.wrapping_sub(1);
				if *k == usize::MAX { Expr::Const(new(*c)) } else { Expr::Const(*c) }
			}
			ArithExpr::Var(i) => Expr::Var(*i),
			ArithExpr::Add(a, b) => go(a, k, new) + go(b, k, new),
			ArithExpr::Mul(a, b) => go(a, k, new) * go(b, k, new),
			ArithExpr::Pow(a, n) => go(a, k, new).pow(*n),
		}
	}
	let n = consts(e);
	if n == 0 || rng.chance(1, 4) {
		return Some(e.clone() + Expr::Const(nonzero_elem(rng, level)));
	}
	let mut k = rng.usize(n);
	let out = go(e, &mut k, &mut |c| c + nonzero_elem(rng, level.min(3)));
	(circuit_degree(&out) == circuit_degree(e)).then_some(out)
}
