//! C06: every compute layer computes the documented results.
use std::fmt::Debug;

use binius_compute::{
	ComputeData, ComputeHolder, ComputeLayer, ComputeLayerExecutor, KernelBuffer, KernelExecutor, KernelMemMap,
	alloc::ComputeAllocator,
	cpu::layer::CpuLayerHolder,
	layer::{Error, FSlice, FSliceMut},
	memory::{ComputeMemory, SizedSlice, SlicesBatch, SubfieldSlice},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField32b, BinaryField128b as B128, Field, PackedBinaryField1x128b, PackedBinaryField2x128b,
	PackedBinaryField4x128b, tower::CanonicalTowerFamily,
};
use binius_math::{ArithCircuit, ArithExpr};
use binius_ntt::{AdditiveNTT, SingleThreadedNTT};
use vsim::*;

type B32 = BinaryField32b;

fn rb(r: &mut Rng) -> B128 {
	match r.below(12) {
		0 => B128::ZERO,
		1 => B128::ONE,
		2 => B128::new(r.below(256) as u128),
		_ => B128::new(r.u128()),
	}
}

/// Part of a buffer, as reached through the memory interface.
#[derive(Clone, Debug)]
enum View {
	Whole,
	/// Repeated halving, taking the right half where true.
	Halves(Vec<bool>),
	/// In units of the largest alignment.
	Range(usize, usize),
	/// The first 2^n elements.
	First(usize),
	/// One of the chunks of 2^n elements.
	Chunk(usize, usize),
}

impl View {
	fn draw(r: &mut Rng, len: usize) -> View {
		let log = len.ilog2() as usize;
		match r.below(8) {
			0 | 1 if log > 0 => View::Halves((0..r.range(1, log as u64)).map(|_| r.chance(1, 2)).collect()),
			2 if len >= 8 => {
				let units = len / 4;
				let n = 1 << r.below(units.ilog2() as u64 + 1);
				let lo = r.usize(units - n + 1);
				View::Range(lo * 4, (lo + n) * 4)
			}
			3 if log > 0 => View::First(r.range(0, log as u64) as usize),
			4 if len >= 8 => {
				let n = r.range(2, log as u64) as usize;
				View::Chunk(n, r.usize(len >> n))
			}
			_ => View::Whole,
		}
	}
	/// Of exactly 2^log elements, if possible.
	fn of_log(r: &mut Rng, len: usize, log: usize) -> Option<View> {
		let l = len.ilog2() as usize;
		if log > l {
			return None;
		}
		Some(match r.below(4) {
			_ if log == l => View::Whole,
			0 if log >= 2 => {
				let lo = r.usize((len - (1 << log)) / 4 + 1) * 4;
				View::Range(lo, lo + (1 << log))
			}
			1 => View::First(log),
			2 if log >= 2 => View::Chunk(log, r.usize(1 << (l - log))),
			_ => View::Halves((log..l).map(|_| r.chance(1, 2)).collect()),
		})
	}
	fn range(&self, len: usize) -> std::ops::Range<usize> {
		match self {
			View::Whole => 0..len,
			View::Halves(v) => {
				let (mut lo, mut n) = (0, len);
				for &b in v {
					n /= 2;
					if b {
						lo += n
					}
				}
				lo..lo + n
			}
			View::Range(a, b) => *a..*b,
			View::First(n) => 0..(1usize << n).min(len),
			View::Chunk(n, i) => (i << n)..((i + 1) << n),
		}
	}
	fn of<'a, M: ComputeMemory<B128>>(&self, data: M::FSlice<'a>) -> M::FSlice<'a> {
		match self {
			View::Whole => data,
			View::Halves(v) => v.iter().fold(data, |d, &b| {
				let (x, y) = M::split_half(d);
				if b { y } else { x }
			}),
			View::Range(a, b) => M::slice(data, *a..*b),
			View::First(n) => {
				let mut d = data;
				while d.len() > 1 << n {
					d = M::split_half(d).0;
				}
				d
			}
			View::Chunk(n, i) => M::slice_chunks(data, 1 << n).nth(*i).unwrap(),
		}
	}
	fn of_mut<'a, M: ComputeMemory<B128>>(&self, data: &'a mut M::FSliceMut<'_>) -> M::FSliceMut<'a> {
		match self {
			View::Whole => M::slice_mut(data, ..),
			View::Halves(v) => {
				let mut d = M::slice_mut(data, ..);
				for &b in v {
					let (x, y) = M::split_half_mut(d);
					d = if b { y } else { x };
				}
				d
			}
			View::Range(a, b) => M::slice_mut(data, *a..*b),
			View::First(n) => M::slice_power_of_two_mut(data, 1 << n),
			View::Chunk(n, i) => M::slice_chunks_mut(M::slice_mut(data, ..), 1 << n).nth(*i).unwrap(),
		}
	}
}

type Arg = (usize, View);

#[derive(Clone, Debug)]
enum Op {
	H2d(Arg, Vec<B128>),
	Fill(Arg, B128),
	D2d(Arg, Arg),
	D2h(Arg),
	/// Operations that the executor runs concurrently.
	Exec { tree: bool, subs: Vec<Sub> },
	/// Disjoint parts of one buffer, processed concurrently.
	Parts { buf: usize, view: View, depth: usize, other: Arg, z: Vec<B128> },
}

#[derive(Clone, Debug)]
enum Sub {
	Tensor { out: Arg, log_n: usize, coords: Vec<B128> },
	Inner { a: Arg, level: usize, b: Arg },
	FoldLeft { mat: Arg, level: usize, vec: Arg, out: Arg },
	FoldRight { mat: Arg, level: usize, vec: Arg, out: Arg },
	Fri { log_len: usize, batch: usize, ch: Vec<B128>, input: Arg, out: Arg, dom: usize },
	Line { out: Arg, other: Arg, z: B128 },
	Composite { ins: Vec<Arg>, out: Arg, expr: ArithExpr<B128> },
	/// Sums of compositions over chunks; optionally through a local buffer; `fail`: this kernel call fails.
	Acc { ins: Vec<Arg>, exprs: Vec<(ArithExpr<B128>, B128)>, min: usize, local: u8, fail: bool },
	/// out += src, or out = src0 + src1.
	MapAdd { out: Arg, srcs: Vec<Arg>, min: usize, fail: bool },
	Product { input: Arg, outs: Vec<Arg> },
	/// The closure itself fails.
	Fail,
	/// Documented to be refused.
	Bad(Bad),
}

#[derive(Clone, Debug)]
enum Bad {
	TensorLen { out: Arg, log_n: usize, coords: usize },
	InnerLen { a: Arg, level: usize, b: Arg },
	FoldLen { left: bool, mat: Arg, level: usize, vec: Arg, out: Arg },
	LineLen { out: Arg, other: Arg },
	Level { which: u8, a: Arg, b: Arg, out: Arg, level: usize },
	Arity { ins: Vec<Arg>, out: Arg },
	CompLen { ins: Vec<Arg>, out: Arg },
	Unpow { which: u8, a: usize, b: usize },
}

impl Sub {
	fn outs(&self) -> Vec<usize> {
		match self {
			Sub::Tensor { out, .. }
			| Sub::FoldLeft { out, .. }
			| Sub::FoldRight { out, .. }
			| Sub::Fri { out, .. }
			| Sub::Line { out, .. }
			| Sub::Composite { out, .. }
			| Sub::MapAdd { out, .. } => vec![out.0],
			Sub::Product { outs, .. } => outs.iter().map(|a| a.0).collect(),
			Sub::Bad(b) => match b {
				Bad::TensorLen { out, .. }
				| Bad::FoldLen { out, .. }
				| Bad::LineLen { out, .. }
				| Bad::Level { out, .. }
				| Bad::Arity { out, .. }
				| Bad::CompLen { out, .. } => vec![out.0],
				Bad::Unpow { a, .. } => vec![*a],
				_ => vec![],
			},
			_ => vec![],
		}
	}
	fn fails(&self) -> bool {
		match self {
			Sub::Acc { fail, .. } | Sub::MapAdd { fail, .. } => *fail,
			Sub::Fail | Sub::Bad(_) => true,
			_ => false,
		}
	}
	/// Whether failing may leave the output changed.
	fn dirty(&self) -> Vec<usize> {
		match self {
			Sub::MapAdd { out, fail: true, .. } => vec![out.0],
			_ => vec![],
		}
	}
}

fn expr(r: &mut Rng, n: usize, depth: usize) -> ArithExpr<B128> {
	if depth == 0 || r.chance(1, 4) {
		return if r.chance(1, 5) { ArithExpr::Const(rb(r)) } else { ArithExpr::Var(r.usize(n)) };
	}
	match r.below(5) {
		0 | 1 => expr(r, n, depth - 1) + expr(r, n, depth - 1),
		2 | 3 => expr(r, n, depth - 1) * expr(r, n, depth - 1),
		_ => expr(r, n, depth - 1).pow(r.range(1, 4)),
	}
}

fn eval(e: &ArithExpr<B128>, q: &[B128]) -> B128 {
	match e {
		ArithExpr::Const(c) => *c,
		ArithExpr::Var(i) => q[*i],
		ArithExpr::Add(a, b) => eval(a, q) + eval(b, q),
		ArithExpr::Mul(a, b) => eval(a, q) * eval(b, q),
		ArithExpr::Pow(a, k) => {
			let x = eval(a, q);
			(0..*k).fold(B128::ONE, |p, _| p * x)
		}
	}
}

/// An expression that uses all of its variables.
fn full_expr(r: &mut Rng, n: usize) -> ArithExpr<B128> {
	let d = r.range(1, 3) as usize;
	let e = expr(r, n, d);
	// The compiled circuit has as many variables as the highest one it mentions.
	e + ArithExpr::Var(n - 1) * ArithExpr::Const(B128::new(r.u128()))
}

struct Gen<'a> {
	lens: &'a [usize],
	r: Rng,
	/// Not to be used.
	taken: Vec<bool>,
}

impl Gen<'_> {
	/// A part of some buffer, with 2^log elements if given.
	fn arg(&mut self, log: Option<usize>) -> Option<Arg> {
		let k = self.r.usize(self.lens.len());
		for i in 0..self.lens.len() {
			let b = (k + i) % self.lens.len();
			if self.taken[b] {
				continue;
			}
			match log {
				None => return Some((b, View::draw(&mut self.r, self.lens[b]))),
				Some(l) => {
					if let Some(v) = View::of_log(&mut self.r, self.lens[b], l) {
						return Some((b, v));
					}
				}
			}
		}
		None
	}
	fn out(&mut self, log: Option<usize>) -> Option<Arg> {
		let a = self.arg(log)?;
		self.taken[a.0] = true;
		Some(a)
	}
	fn log(&self, a: &Arg) -> usize {
		a.1.range(self.lens[a.0]).len().ilog2() as usize
	}
	fn sub(&mut self, has_product: bool) -> Option<Sub> {
		Some(match self.r.below(13) {
			0 => {
				let out = self.out(None)?;
				let log = self.log(&out);
				let log_n = self.r.usize(log + 1);
				Sub::Tensor { coords: (log_n..log).map(|_| rb(&mut self.r)).collect(), out, log_n }
			}
			1 | 2 => {
				let b = self.arg(None)?;
				let level = *self.r.pick(&[0usize, 3, 4, 5, 6, 7].into_iter().filter(|l| 7 - l <= self.log(&b)).collect::<Vec<_>>());
				let a = self.arg(Some(self.log(&b) - (7 - level)))?;
				Sub::Inner { a, level, b }
			}
			3 | 4 => {
				let out = self.out(None)?;
				let mat = self.arg(None)?;
				let level = *self.r.pick(&[0, 3, 4, 5, 6, 7]);
				let log_mat = self.log(&mat) + 7 - level;
				if log_mat < self.log(&out) {
					return None;
				}
				let vec = self.arg(Some(log_mat - self.log(&out)))?;
				if self.r.chance(1, 2) {
					Sub::FoldLeft { mat, level, vec, out }
				} else {
					Sub::FoldRight { mat, level, vec, out }
				}
			}
			5 => {
				let input = self.arg(None)?;
				let total = self.log(&input);
				let batch = self.r.usize(total + 1);
				let log_len = total - batch;
				let eta = self.r.usize(log_len + 1);
				let keep = self.taken.clone();
				self.taken[input.0] = true;
				let out = self.out(Some(log_len - eta));
				self.taken[input.0] = keep[input.0];
				Sub::Fri {
					log_len,
					batch,
					ch: (0..batch + eta).map(|_| rb(&mut self.r)).collect(),
					input,
					out: out?,
					dom: self.r.usize(3),
				}
			}
			6 => {
				let out = self.out(None)?;
				let l = self.log(&out);
				Sub::Line { other: self.arg(Some(l))?, out, z: rb(&mut self.r) }
			}
			7 => {
				let out = self.out(None)?;
				let l = self.log(&out);
				let n = self.r.range(1, 4) as usize;
				let ins = (0..n).map(|_| self.arg(Some(l))).collect::<Option<Vec<_>>>()?;
				Sub::Composite { ins, out, expr: full_expr(&mut self.r, n) }
			}
			8 | 9 => {
				let n = self.r.range(1, 4) as usize;
				let a = self.arg(None)?;
				let l = self.log(&a);
				let mut ins = vec![a];
				for _ in 1..n {
					ins.push(self.arg(Some(l))?);
				}
				let k = self.r.range(1, 3);
				Sub::Acc {
					exprs: (0..k).map(|_| (full_expr(&mut self.r, n), rb(&mut self.r))).collect(),
					ins,
					min: self.r.usize(l + 2),
					local: *self.r.pick(&[0, 0, 0, 1, 2]),
					fail: self.r.chance(1, 8),
				}
			}
			10 => {
				let out = self.out(None)?;
				let l = self.log(&out);
				let k = self.r.range(1, 2);
				let srcs = (0..k).map(|_| self.arg(Some(l))).collect::<Option<Vec<_>>>()?;
				Sub::MapAdd { out, srcs, min: self.r.usize(l + 2), fail: self.r.chance(1, 8) }
			}
			11 if has_product => {
				let input = self.arg(None)?;
				let l = self.log(&input);
				if l == 0 {
					return None;
				}
				let was = self.taken[input.0];
				self.taken[input.0] = true;
				let outs = (0..l).rev().map(|k| self.out(Some(k))).collect::<Option<Vec<_>>>();
				self.taken[input.0] = was;
				Sub::Product { input, outs: outs? }
			}
			12 if self.r.chance(1, 3) => match self.r.below(10) {
				0 | 1 => Sub::Fail,
				2 => {
					let out = self.out(None)?;
					let l = self.log(&out);
					let log_n = self.r.usize(l + 2);
					let coords = self.r.usize(5);
					if log_n + coords == l {
						return None;
					}
					Sub::Bad(Bad::TensorLen { out, log_n, coords })
				}
				3 => {
					let (a, b) = (self.arg(None)?, self.arg(None)?);
					let level = *self.r.pick(&[0, 3, 4, 5, 6, 7]);
					if self.log(&a) + 7 - level == self.log(&b) {
						return None;
					}
					Sub::Bad(Bad::InnerLen { a, level, b })
				}
				4 => {
					let out = self.out(None)?;
					let (mat, vec) = (self.arg(None)?, self.arg(None)?);
					let level = *self.r.pick(&[0, 3, 4, 5, 6, 7]);
					if self.log(&mat) + 7 - level == self.log(&vec) + self.log(&out) {
						return None;
					}
					Sub::Bad(Bad::FoldLen { left: self.r.chance(1, 2), mat, level, vec, out })
				}
				5 => {
					let out = self.out(None)?;
					let other = self.arg(None)?;
					if self.log(&out) == self.log(&other) {
						return None;
					}
					Sub::Bad(Bad::LineLen { out, other })
				}
				6 => {
					let out = self.out(None)?;
					Sub::Bad(Bad::Level {
						which: self.r.below(3) as u8,
						a: self.arg(None)?,
						b: self.arg(None)?,
						out,
						level: 8 + self.r.usize(3),
					})
				}
				7 => {
					let out = self.out(None)?;
					let l = self.log(&out);
					let ins = vec![self.arg(Some(l))?, self.arg(Some(l))?];
					Sub::Bad(Bad::Arity { ins, out })
				}
				8 => {
					let out = self.out(None)?;
					let a = self.arg(None)?;
					let l = self.log(&a);
					if l == self.log(&out) {
						return None;
					}
					Sub::Bad(Bad::CompLen { ins: vec![a.clone(), a], out })
				}
				_ => {
					// Lengths that are not powers of two: 12 elements of two buffers.
					let big: Vec<usize> =
						(0..self.lens.len()).filter(|&i| self.lens[i] >= 16 && !self.taken[i]).collect();
					if big.len() < 2 {
						return None;
					}
					self.taken[big[0]] = true;
					Sub::Bad(Bad::Unpow { which: self.r.below(3) as u8, a: big[0], b: big[1] })
				}
			},
			_ => return None,
		})
	}
	fn op(&mut self, has_product: bool) -> Option<Op> {
		self.taken.fill(false);
		Some(match self.r.below(12) {
			0 | 1 => {
				let a = self.arg(None)?;
				let n = a.1.range(self.lens[a.0]).len();
				Op::H2d(a, (0..n).map(|_| rb(&mut self.r)).collect())
			}
			2 => Op::Fill(self.arg(None)?, rb(&mut self.r)),
			3 => {
				let d = self.out(None)?;
				let l = self.log(&d);
				Op::D2d(self.arg(Some(l))?, d)
			}
			4 => Op::D2h(self.arg(None)?),
			5 | 6 => {
				let (buf, view) = self.out(None)?;
				let n = view.range(self.lens[buf]).len();
				let depth = self.r.range(1, 3) as usize;
				let l = n.ilog2() as usize;
				if depth > l {
					return None;
				}
				let other = self.arg(Some(l - depth))?;
				Op::Parts { buf, view, depth, other, z: (0..1 << depth).map(|_| rb(&mut self.r)).collect() }
			}
			_ => {
				let n = *self.r.pick(&[1, 1, 2, 3, 4]);
				let mut subs = vec![];
				for _ in 0..n * 3 {
					if subs.len() < n {
						let keep = self.taken.clone();
						match self.sub(has_product) {
							Some(s) => subs.push(s),
							None => self.taken = keep,
						}
					}
				}
				if subs.is_empty() {
					return None;
				}
				// What one writes no other may read.
				let outs: Vec<Vec<usize>> = subs.iter().map(Sub::outs).collect();
				let mut all = subs.clone();
				all.retain(|s| {
					let mine = s.outs();
					!reads(s).iter().any(|i| {
						mine.contains(i) || outs.iter().any(|o| o.contains(i))
					})
				});
				if all.is_empty() {
					return None;
				}
				Op::Exec { tree: self.r.chance(1, 2), subs: all }
			}
		})
	}
}

fn reads(s: &Sub) -> Vec<usize> {
	let f = |v: &[&Arg]| v.iter().map(|a| a.0).collect::<Vec<_>>();
	match s {
		Sub::Tensor { .. } | Sub::Fail => vec![],
		Sub::Inner { a, b, .. } => f(&[a, b]),
		Sub::FoldLeft { mat, vec, .. } | Sub::FoldRight { mat, vec, .. } => f(&[mat, vec]),
		Sub::Fri { input, .. } | Sub::Product { input, .. } => f(&[input]),
		Sub::Line { other, .. } => f(&[other]),
		Sub::Composite { ins, .. } | Sub::Acc { ins, .. } => ins.iter().map(|a| a.0).collect(),
		Sub::MapAdd { srcs, .. } => srcs.iter().map(|a| a.0).collect(),
		Sub::Bad(b) => match b {
			Bad::TensorLen { .. } => vec![],
			Bad::InnerLen { a, b, .. } => f(&[a, b]),
			Bad::FoldLen { mat, vec, .. } => f(&[mat, vec]),
			Bad::LineLen { other, .. } => f(&[other]),
			Bad::Level { a, b, .. } => f(&[a, b]),
			Bad::Arity { ins, .. } | Bad::CompLen { ins, .. } => ins.iter().map(|a| a.0).collect(),
			Bad::Unpow { b, .. } => vec![*b],
		},
	}
}

// ---------------------------------------------------------------- model

type Mem = Vec<Vec<B128>>;

fn get(m: &Mem, a: &Arg) -> Vec<B128> {
	m[a.0][a.1.range(m[a.0].len())].to_vec()
}
fn put(m: &mut Mem, a: &Arg, v: &[B128]) {
	let r = a.1.range(m[a.0].len());
	m[a.0][r].copy_from_slice(v);
}
fn subfield(v: &[B128], level: usize) -> Vec<B128> {
	let bits = 1usize << level;
	v.iter()
		.flat_map(|x| {
			let x = u128::from(*x);
			(0..128 / bits).map(move |i| {
				let y = x >> (i * bits);
				B128::new(if bits == 128 { y } else { y & ((1 << bits) - 1) })
			})
		})
		.collect()
}
fn line(a: B128, b: B128, z: B128) -> B128 {
	a + (b - a) * z
}

fn ntt(dom: usize, log_len: usize) -> SingleThreadedNTT<B32> {
	match dom {
		0 => SingleThreadedNTT::new(log_len.max(1)).unwrap(),
		1 => SingleThreadedNTT::new(log_len + 2).unwrap(),
		_ => SingleThreadedNTT::with_canonical_field(log_len.max(1)).unwrap(),
	}
}

fn fri_model(dom: usize, log_len: usize, batch: usize, ch: &[B128], input: &[B128]) -> Vec<B128> {
	let t = ntt(dom, log_len);
	let mut v: Vec<B128> = input.to_vec();
	for c in &ch[..batch] {
		v = v.chunks(2).map(|p| line(p[0], p[1], *c)).collect();
	}
	for (i, c) in ch[batch..].iter().enumerate() {
		v = v
			.chunks(2)
			.enumerate()
			.map(|(k, p)| {
				let tw = t.get_subspace_eval(log_len - i, k);
				let b = p[0] + p[1];
				let a = p[0] + b * tw;
				line(a, b, *c)
			})
			.collect();
	}
	v
}

/// Result of a sub-operation; `None`: it fails.
fn model_sub(m: &mut Mem, s: &Sub) -> Option<Vec<B128>> {
	if s.fails() {
		return None;
	}
	Some(match s {
		Sub::Tensor { out, log_n, coords } => {
			let mut v = get(m, out)[..1 << log_n].to_vec();
			for r in coords {
				let hi: Vec<B128> = v.iter().map(|x| *x * *r).collect();
				let lo: Vec<B128> = v.iter().map(|x| *x * (B128::ONE - *r)).collect();
				v = [lo, hi].concat();
			}
			put(m, out, &v);
			vec![]
		}
		Sub::Inner { a, level, b } => {
			let a = subfield(&get(m, a), *level);
			vec![a.iter().zip(get(m, b)).map(|(x, y)| *x * y).sum()]
		}
		Sub::FoldLeft { mat, level, vec, out } => {
			let a = subfield(&get(m, mat), *level);
			let v = get(m, vec);
			let rows = a.len() / v.len();
			let o: Vec<B128> =
				(0..rows).map(|i| v.iter().enumerate().map(|(j, q)| *q * a[j * rows + i]).sum()).collect();
			put(m, out, &o);
			vec![]
		}
		Sub::FoldRight { mat, level, vec, out } => {
			let a = subfield(&get(m, mat), *level);
			let v = get(m, vec);
			let o: Vec<B128> =
				a.chunks(v.len()).map(|c| c.iter().zip(&v).map(|(x, y)| *x * *y).sum()).collect();
			put(m, out, &o);
			vec![]
		}
		Sub::Fri { log_len, batch, ch, input, out, dom } => {
			let o = fri_model(*dom, *log_len, *batch, ch, &get(m, input));
			put(m, out, &o);
			vec![]
		}
		Sub::Line { out, other, z } => {
			let o: Vec<B128> = get(m, out).iter().zip(get(m, other)).map(|(a, b)| line(*a, b, *z)).collect();
			put(m, out, &o);
			vec![]
		}
		Sub::Composite { ins, out, expr } => {
			let rows: Vec<Vec<B128>> = ins.iter().map(|a| get(m, a)).collect();
			let o: Vec<B128> = (0..rows[0].len())
				.map(|i| eval(expr, &rows.iter().map(|r| r[i]).collect::<Vec<_>>()))
				.collect();
			put(m, out, &o);
			vec![]
		}
		Sub::Acc { ins, exprs, .. } => {
			let rows: Vec<Vec<B128>> = ins.iter().map(|a| get(m, a)).collect();
			exprs
				.iter()
				.map(|(e, c)| {
					*c * (0..rows[0].len())
						.map(|i| eval(e, &rows.iter().map(|r| r[i]).collect::<Vec<_>>()))
						.sum::<B128>()
				})
				.collect()
		}
		Sub::MapAdd { out, srcs, .. } => {
			let a = get(m, &srcs[0]);
			let b = if srcs.len() == 2 { get(m, &srcs[1]) } else { get(m, out) };
			let o: Vec<B128> = a.iter().zip(b).map(|(x, y)| *x + y).collect();
			put(m, out, &o);
			vec![]
		}
		Sub::Product { input, outs } => {
			let mut v = get(m, input);
			for o in outs {
				v = v.chunks(2).map(|p| p[0] * p[1]).collect();
				put(m, o, &v);
			}
			vec![]
		}
		Sub::Fail | Sub::Bad(_) => unreachable!(),
	})
}

// ---------------------------------------------------------------- device

type Ev<'a, H> = <<H as ComputeLayer<B128>>::Exec<'a> as ComputeLayerExecutor<B128>>::ExprEval;

/// The buffers that a sub-operation writes, and a way to read the others.
struct Access<'a, 'i, 'b, H: ComputeLayer<B128>> {
	outs: Vec<(usize, FSliceMut<'b, B128, H>)>,
	ins: &'a [Option<FSlice<'i, B128, H>>],
}

fn sub_exprs(s: &Sub) -> Vec<ArithExpr<B128>> {
	match s {
		Sub::Composite { expr, .. } => vec![expr.clone()],
		Sub::Acc { exprs, .. } => exprs.iter().map(|(e, _)| e.clone()).collect(),
		Sub::Bad(Bad::Arity { ins, .. }) => {
			vec![(0..ins.len() + 1).map(ArithExpr::Var).reduce(|a, b| a + b).unwrap()]
		}
		Sub::Bad(Bad::CompLen { .. }) => vec![ArithExpr::Var(0) * ArithExpr::Var(1)],
		Sub::Bad(Bad::Unpow { .. }) => vec![ArithExpr::Var(0) + ArithExpr::Const(B128::ONE)],
		_ => vec![],
	}
}

fn fault() -> Error {
	Error::DeviceError("injected".into())
}

fn dev_sub<'e, H: ComputeLayer<B128> + 'e>(
	exec: &mut H::Exec<'e>,
	s: &Sub,
	acc: &mut Access<'_, '_, '_, H>,
	evs: &[Ev<'e, H>],
) -> Result<Vec<<H::Exec<'e> as ComputeLayerExecutor<B128>>::OpValue>, Error> {
	let ins_ = acc.ins;
	let rd = |a: &Arg| a.1.of::<H::DevMem>(ins_[a.0].unwrap());
	fn out<'x, H: ComputeLayer<B128>>(
		outs: &'x mut [(usize, FSliceMut<'_, B128, H>)],
		a: &Arg,
	) -> FSliceMut<'x, B128, H> {
		let (_, m) = outs.iter_mut().find(|(i, _)| *i == a.0).unwrap();
		a.1.of_mut::<H::DevMem>(m)
	}
	match s {
		Sub::Tensor { out: o, log_n, coords } => {
			exec.tensor_expand(*log_n, coords, &mut out::<H>(&mut acc.outs, o))?;
		}
		Sub::Inner { a, level, b } => {
			return Ok(vec![exec.inner_product(SubfieldSlice::new(rd(a), *level), rd(b))?]);
		}
		Sub::FoldLeft { mat, level, vec, out: o } => {
			exec.fold_left(SubfieldSlice::new(rd(mat), *level), rd(vec), &mut out::<H>(&mut acc.outs, o))?;
		}
		Sub::FoldRight { mat, level, vec, out: o } => {
			exec.fold_right(SubfieldSlice::new(rd(mat), *level), rd(vec), &mut out::<H>(&mut acc.outs, o))?;
		}
		Sub::Fri { log_len, batch, ch, input, out: o, dom } => {
			let t = ntt(*dom, *log_len);
			exec.fri_fold(&t, *log_len, *batch, ch, rd(input), &mut out::<H>(&mut acc.outs, o))?;
		}
		Sub::Line { out: o, other, z } => {
			exec.extrapolate_line(&mut out::<H>(&mut acc.outs, o), rd(other), *z)?;
		}
		Sub::Composite { ins, out: o, .. } => {
			let rows: Vec<_> = ins.iter().map(rd).collect();
			let n = rows[0].len();
			exec.compute_composite(&SlicesBatch::new(rows, n), &mut out::<H>(&mut acc.outs, o), &evs[0])?;
		}
		Sub::Acc { ins, exprs, min, local, fail } => {
			let rows: Vec<_> = ins.iter().map(rd).collect();
			let log = rows[0].len().ilog2() as usize;
			let mut maps: Vec<KernelMemMap<'_, B128, H::DevMem>> = rows
				.iter()
				.map(|d| KernelMemMap::Chunked { data: *d, log_min_chunk_size: *min })
				.collect();
			if *local != 0 {
				maps.push(KernelMemMap::Local { log_size: log });
			}
			let n = rows.len();
			return exec.accumulate_kernels(
				|k, log_chunks, mut bufs| {
					let mut vals = vec![];
					let mut bad = false;
					for (i, (_, c)) in exprs.iter().enumerate() {
						let mut v = k.decl_value(B128::ZERO)?;
						let len = bufs[0].len();
						if len != 1 << (log - log_chunks) {
							bad = true;
						}
						if *local != 0 {
							// Through the local buffer: row 0 + row 0 + row 0, or zeros + row 0.
							let mut it = bufs.split_off(n);
							let KernelBuffer::Mut(l) = &mut it[0] else { return Err(fault()) };
							let r0 = bufs[0].to_ref();
							if *local == 1 {
								k.add(log - log_chunks, r0, r0, l)?;
							}
							if *local == 1 || i == 0 {
								k.add_assign(log - log_chunks, r0, l)?;
							}
							{
								let mut rows = vec![it[0].to_ref()];
								rows.extend(bufs[1..].iter().map(|b| b.to_ref()));
								k.sum_composition_evals(&SlicesBatch::new(rows, len), &evs[i], *c, &mut v)?;
							}
							bufs.extend(it);
						} else {
							let rows: Vec<_> = bufs.iter().map(|b| b.to_ref()).collect();
							k.sum_composition_evals(&SlicesBatch::new(rows, len), &evs[i], *c, &mut v)?;
						}
						vals.push(v);
					}
					if *fail {
						return Err(fault());
					}
					if bad {
						return Err(Error::InputValidation("harness: chunk size".into()));
					}
					Ok(vals)
				},
				maps,
			);
		}
		Sub::MapAdd { out: o, srcs, min, fail } => {
			let rows: Vec<_> = srcs.iter().map(rd).collect();
			let log = rows[0].len().ilog2() as usize;
			let mut maps: Vec<KernelMemMap<'_, B128, H::DevMem>> = vec![KernelMemMap::ChunkedMut {
				data: out::<H>(&mut acc.outs, o),
				log_min_chunk_size: *min,
			}];
			maps.extend(
				rows.iter().map(|d| KernelMemMap::Chunked { data: H::DevMem::narrow(d), log_min_chunk_size: *min }),
			);
			exec.map_kernels(
				|k, log_chunks, mut bufs| {
					let (a, b) = bufs.split_at_mut(1);
					let KernelBuffer::Mut(dst) = &mut a[0] else { return Err(fault()) };
					let n = log - log_chunks;
					if b.len() == 2 {
						k.add(n, b[0].to_ref(), b[1].to_ref(), dst)?;
					} else {
						k.add_assign(n, b[0].to_ref(), dst)?;
					}
					if *fail { Err(fault()) } else { Ok(()) }
				},
				maps,
			)?;
		}
		Sub::Product { input, outs } => {
			let i = rd(input);
			let mut slots: Vec<(usize, FSliceMut<'_, B128, H>)> = acc
				.outs
				.iter_mut()
				.map(|(k, m)| {
					let a = outs.iter().find(|a| a.0 == *k).unwrap();
					(*k, a.1.of_mut::<H::DevMem>(m))
				})
				.collect();
			slots.sort_by_key(|(k, _)| outs.iter().position(|a| a.0 == *k).unwrap());
			let mut v: Vec<_> = slots.into_iter().map(|(_, m)| m).collect();
			exec.pairwise_product_reduce(i, &mut v)?;
		}
		Sub::Fail => return Err(fault()),
		Sub::Bad(b) => match b {
			Bad::TensorLen { out: o, log_n, coords } => {
				exec.tensor_expand(*log_n, &vec![B128::new(3); *coords], &mut out::<H>(&mut acc.outs, o))?;
			}
			Bad::InnerLen { a, level, b } => {
				exec.inner_product(SubfieldSlice::new(rd(a), *level), rd(b))?;
			}
			Bad::FoldLen { left, mat, level, vec, out: o } => {
				let (m, v) = (SubfieldSlice::new(rd(mat), *level), rd(vec));
				let mut o = out::<H>(&mut acc.outs, o);
				if *left { exec.fold_left(m, v, &mut o)? } else { exec.fold_right(m, v, &mut o)? }
			}
			Bad::LineLen { out: o, other } => {
				exec.extrapolate_line(&mut out::<H>(&mut acc.outs, o), rd(other), B128::new(5))?;
			}
			Bad::Level { which, a, b, out: o, level } => {
				let m = SubfieldSlice::new(rd(a), *level);
				let mut o = out::<H>(&mut acc.outs, o);
				match which {
					0 => {
						exec.inner_product(m, rd(b))?;
					}
					1 => exec.fold_left(m, rd(b), &mut o)?,
					_ => exec.fold_right(m, rd(b), &mut o)?,
				}
			}
			Bad::Arity { ins, out: o } | Bad::CompLen { ins, out: o } => {
				let rows: Vec<_> = ins.iter().map(rd).collect();
				let n = rows[0].len();
				exec.compute_composite(&SlicesBatch::new(rows, n), &mut out::<H>(&mut acc.outs, o), &evs[0])?;
			}
			Bad::Unpow { which, a, b } => {
				let r = rd(&(*b, View::Range(0, 12)));
				let mut o = out::<H>(&mut acc.outs, &(*a, View::Range(0, 12)));
				match which {
					0 => exec.extrapolate_line(&mut o, r, B128::new(7))?,
					1 => exec.compute_composite(&SlicesBatch::new(vec![r], 12), &mut o, &evs[0])?,
					_ => {
						exec.inner_product(SubfieldSlice::new(r, 7), r)?;
					}
				}
			}
		},
	}
	Ok(vec![])
}

/// Runs the program; calls `check` after each step with all buffers and the step's result.
fn run<H: ComputeLayer<B128>>(
	mut holder: impl ComputeHolder<B128, H>,
	lens: &[usize],
	init: &Mem,
	ops: &[Op],
	check: &mut dyn FnMut(usize, Result<Vec<B128>, String>, &Mem) -> Result<(), String>,
) -> Result<(), String>
where
	H: Sync,
{
	let e2s = |e: Error| e.to_string();
	let ComputeData { hal, dev_alloc, .. } = holder.to_data();
	let mut bufs: Vec<FSliceMut<'_, B128, H>> = vec![];
	for (n, v) in lens.iter().zip(init) {
		let mut b = dev_alloc.alloc(*n).map_err(|e| format!("alloc: {e}"))?;
		if b.len() != *n {
			return Err(format!("alloc: {} elements for {n}", b.len()));
		}
		hal.copy_h2d(v, &mut b).map_err(e2s)?;
		bufs.push(b);
	}
	let mut host: Mem = lens.iter().map(|n| vec![B128::new(77); *n]).collect();
	for step in 0..=ops.len() {
		let res: Result<Vec<B128>, String> = if step == 0 {
			Ok(vec![])
		} else {
			match &ops[step - 1] {
				Op::H2d(a, v) => hal
					.copy_h2d(v, &mut a.1.of_mut::<H::DevMem>(&mut bufs[a.0]))
					.map(|_| vec![])
					.map_err(e2s),
				Op::Fill(a, z) => {
					hal.fill(&mut a.1.of_mut::<H::DevMem>(&mut bufs[a.0]), *z).map(|_| vec![]).map_err(e2s)
				}
				Op::D2d(s, d) => {
					let (src, dst) = two::<H>(&mut bufs, s.0, d.0);
					hal.copy_d2d(
						s.1.of::<H::DevMem>(H::DevMem::as_const(src)),
						&mut d.1.of_mut::<H::DevMem>(dst),
					)
					.map(|_| vec![])
					.map_err(e2s)
				}
				Op::D2h(a) => {
					let v = a.1.of::<H::DevMem>(H::DevMem::as_const(&bufs[a.0]));
					let mut o = vec![B128::new(99); v.len()];
					hal.copy_d2h(v, &mut o).map(|_| o).map_err(e2s)
				}
				Op::Parts { buf, view, depth, other, z } => {
					let (src, dst) = two::<H>(&mut bufs, other.0, *buf);
					let src = other.1.of::<H::DevMem>(H::DevMem::as_const(src));
					let mut parts = vec![view.of_mut::<H::DevMem>(dst)];
					for _ in 0..*depth {
						parts = parts
							.into_iter()
							.flat_map(|p| {
								let (a, b) = H::DevMem::split_half_mut(p);
								[a, b]
							})
							.collect();
					}
					hal.execute(|exec| {
						exec.map(parts.into_iter().zip(z), |e, (mut p, z)| {
							e.extrapolate_line(&mut p, src, *z)?;
							e.inner_product(SubfieldSlice::new(src, 7), H::DevMem::as_const(&p))
						})
					})
					.map_err(e2s)
				}
				Op::Exec { tree, subs } => {
					let mut evs = vec![];
					for s in subs {
						let mut v = vec![];
						for e in sub_exprs(s) {
							v.push(hal.compile_expr(&ArithCircuit::from(&e)).map_err(e2s)?);
						}
						evs.push(v);
					}
					let outs: Vec<Vec<usize>> = subs.iter().map(|s| s.outs()).collect();
					let mut slots: Vec<Option<FSliceMut<'_, B128, H>>> = vec![];
					let mut ins: Vec<Option<FSlice<'_, B128, H>>> = vec![];
					for (i, b) in bufs.iter_mut().enumerate() {
						if outs.iter().any(|o| o.contains(&i)) {
							slots.push(Some(H::DevMem::slice_mut(b, ..)));
							ins.push(None);
						} else {
							slots.push(None);
							ins.push(Some(H::DevMem::as_const(b)));
						}
					}
					let mut jobs: Vec<(&Sub, Access<'_, '_, '_, H>, &[_])> = vec![];
					for ((s, o), ev) in subs.iter().zip(&outs).zip(&evs) {
						let outs = o.iter().map(|i| (*i, slots[*i].take().unwrap())).collect();
						jobs.push((s, Access { outs, ins: &ins }, &ev[..]));
					}
					hal.execute(|exec| {
						if *tree {
							let a = jobs.split_off(jobs.len() / 2);
							let (x, y) = exec.join(
								|e| {
									let mut v = vec![];
									for (s, mut acc, ev) in jobs {
										v.extend(dev_sub::<H>(e, s, &mut acc, ev)?);
									}
									Ok(v)
								},
								|e| {
									let mut v = vec![];
									for (s, mut acc, ev) in a {
										v.extend(dev_sub::<H>(e, s, &mut acc, ev)?);
									}
									Ok(v)
								},
							)?;
							Ok(x.into_iter().chain(y).collect())
						} else {
							Ok(exec
								.map(jobs.into_iter(), |e, (s, mut acc, ev)| dev_sub::<H>(e, s, &mut acc, ev))?
								.into_iter()
								.flatten()
								.collect())
						}
					})
					.map_err(e2s)
				}
			}
		};
		for (b, h) in bufs.iter().zip(&mut host) {
			h.fill(B128::new(55));
			hal.copy_d2h(H::DevMem::as_const(b), h).map_err(|e| format!("readback: {e}"))?;
		}
		check(step, res, &host)?;
	}
	Ok(())
}

fn two<'x, 'y, H: ComputeLayer<B128>>(
	bufs: &'x mut [FSliceMut<'y, B128, H>],
	s: usize,
	d: usize,
) -> (&'x FSliceMut<'y, B128, H>, &'x mut FSliceMut<'y, B128, H>) {
	assert_ne!(s, d);
	if s < d {
		let (a, b) = bufs.split_at_mut(d);
		(&a[s], &mut b[0])
	} else {
		let (a, b) = bufs.split_at_mut(s);
		(&b[0], &mut a[d])
	}
}

struct Programs;

impl Scenario for Programs {
	fn name(&self) -> &'static str {
		"programs"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		plan.set("shape", r.next());
		plan.set("backend", *r.pick(&[0, 1, 1, 2, 2, 3, 3]));
		plan.set("nops", r.range(1, if thorough { 40 } else { 20 }));
		plan.set("log", r.range(1, if thorough { 11 } else { 9 }));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"nops" => Some(1),
			"log" => Some(1),
			_ => None,
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let backend = plan.p("backend");
		let mut r = Rng::derive(plan.p("shape"), "bufs");
		let n = r.range(4, 8);
		let top = plan.p("log");
		let lens: Vec<usize> = (0..n)
			.map(|i| 1usize << if i == 0 { top } else { r.range(0, top) })
			.collect();
		let init: Mem = lens.iter().map(|n| (0..*n).map(|_| rb(&mut r)).collect()).collect();
		let mut ops = vec![];
		for i in 0..plan.p("nops") {
			for k in 0..20u64 {
				let mut g = Gen {
					lens: &lens,
					r: Rng::derive(plan.p("shape") ^ (i << 8 | k), "op"),
					taken: vec![false; lens.len()],
				};
				if let Some(o) = g.op(backend == 0) {
					ops.push(o);
					break;
				}
			}
		}
		cx.sample = format!("{:?} on backend {backend}: {}", lens, ops.iter().map(short).collect::<Vec<_>>().join("; "));
		let mut model = init.clone();
		let mut compared = 0u64;
		let mut dig = vec![];
		let mut done = vec![];
		let mut check = |step: usize, res: Result<Vec<B128>, String>, mem: &Mem| -> Result<(), String> {
			let op = if step == 0 { None } else { Some(&ops[step - 1]) };
			let name = op.map_or("start".to_string(), short);
			let mut unknown: Vec<usize> = vec![];
			let want: Option<Vec<B128>> = match op {
				None => Some(vec![]),
				Some(Op::H2d(a, v)) => {
					put(&mut model, a, v);
					Some(vec![])
				}
				Some(Op::Fill(a, z)) => {
					let n = get(&model, a).len();
					put(&mut model, a, &vec![*z; n]);
					Some(vec![])
				}
				Some(Op::D2d(s, d)) => {
					let v = get(&model, s);
					put(&mut model, d, &v);
					Some(vec![])
				}
				Some(Op::D2h(a)) => Some(get(&model, a)),
				Some(Op::Parts { buf, view, depth, other, z }) => {
					let o = get(&model, other);
					let mut v = get(&model, &(*buf, view.clone()));
					let mut out = vec![];
					let _ = depth;
					for (c, z) in v.chunks_mut(o.len()).zip(z) {
						for (x, y) in c.iter_mut().zip(&o) {
							*x = line(*x, *y, *z);
						}
						out.push(c.iter().zip(&o).map(|(a, b)| *a * *b).sum());
					}
					put(&mut model, &(*buf, view.clone()), &v);
					Some(out)
				}
				Some(Op::Exec { subs, .. }) => {
					if subs.iter().any(|s| s.fails()) {
						// What the others have done by then is open.
						unknown = subs
							.iter()
							.flat_map(|s| if s.fails() { s.dirty() } else { s.outs() })
							.collect();
						None
					} else {
						Some(subs.iter().flat_map(|s| model_sub(&mut model, s).unwrap()).collect())
					}
				}
			};
			match (&res, &want) {
				(Ok(a), Some(b)) if a == b => {}
				(Ok(a), Some(b)) => {
					let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
					return Err(format!(
						"wrong-value: step {step} {name}: {} values, {} expected, first difference at {k}",
						a.len(),
						b.len()
					));
				}
				(Err(e), Some(_)) => return Err(format!("refused: step {step} {name}: {e}")),
				(Ok(_), None) => return Err(format!("error-lost: step {step} {name} reported success")),
				(Err(_), None) => done.push("refusals"),
			}
			for (i, (a, b)) in mem.iter().zip(&mut model).enumerate() {
				if unknown.contains(&i) {
					b.clone_from(a);
					continue;
				}
				if a != b {
					let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
					return Err(format!("wrong-memory: step {step} {name}: buffer {i} of {} differs at {k}", a.len()));
				}
				for x in a {
					dig.extend_from_slice(&u128::from(*x).to_le_bytes());
				}
			}
			compared += 1;
			Ok(())
		};
		let dev: usize = lens.iter().map(|l| (*l).max(4)).sum::<usize>() + 4;
		type T = CanonicalTowerFamily;
		let r = cx.sim(|| match backend {
			0 => run(CpuLayerHolder::<B128>::new(4, dev), &lens, &init, &ops, &mut check),
			1 => run(FastCpuLayerHolder::<T, PackedBinaryField1x128b>::new(4, dev), &lens, &init, &ops, &mut check),
			2 => run(FastCpuLayerHolder::<T, PackedBinaryField2x128b>::new(4, dev), &lens, &init, &ops, &mut check),
			_ => run(FastCpuLayerHolder::<T, PackedBinaryField4x128b>::new(4, dev), &lens, &init, &ops, &mut check),
		});
		for o in &ops {
			cx.count(&format!("op {}", short(o).split(' ').next().unwrap()));
		}
		for d in done {
			cx.fired(d);
		}
		cx.observe(&dig);
		let r = match r {
			Err(_) => Err(format!("panic: {:?}", take_panics())),
			Ok(r) => r,
		};
		cx.nontrivial = compared > 1;
		cx.key = plan.p("shape");
		r
	}
	fn real(&self) -> &'static str {
		"compute (CpuLayer, allocators, memory views), fast_compute (layer, memory, circuits), math folds, ntt fri fold, field"
	}
}

fn short(o: &Op) -> String {
	fn a(x: &Arg) -> String {
		format!("{}{}", x.0, match &x.1 {
			View::Whole => String::new(),
			v => format!("{v:?}"),
		})
	}
	fn name(d: &dyn Debug) -> String {
		format!("{d:?}").split([' ', '(', '{']).next().unwrap().to_string()
	}
	match o {
		Op::H2d(x, _) => format!("h2d {}", a(x)),
		Op::Fill(x, _) => format!("fill {}", a(x)),
		Op::D2d(x, y) => format!("d2d {}->{}", a(x), a(y)),
		Op::D2h(x) => format!("d2h {}", a(x)),
		Op::Parts { buf, view, depth, other, .. } => format!("parts {buf}{view:?}/{depth} with {}", a(other)),
		Op::Exec { subs, tree } => format!(
			"{} {}",
			if *tree { "join" } else { "map" },
			subs.iter()
				.map(|s| {
					let mut n = name(s);
					match s {
						Sub::Bad(b) => n += &format!(":{b:?}"),
						Sub::Acc { fail: true, .. } | Sub::MapAdd { fail: true, .. } => n += "!",
						_ => {}
					}
					format!("{n}{:?}->{:?}", reads(s), s.outs())
				})
				.collect::<Vec<_>>()
				.join(" & ")
		),
	}
}

/// Two documented operations that do not work; see known_findings.json.
struct Probes;

impl Scenario for Probes {
	fn name(&self) -> &'static str {
		"probes"
	}
	fn weight(&self) -> u32 {
		0
	}
	fn draw(&self, _: &mut Plan, _: &mut Rng, _: bool) {}
	fn fixed(&self, _: bool) -> Vec<Plan> {
		(0..2)
			.map(|i| {
				let mut p = Plan::draw("probes", i);
				p.set("probe", i);
				p
			})
			.collect()
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		cx.nontrivial = true;
		cx.key = plan.p("probe");
		if plan.p("probe") == 0 {
			let r = cx.sim(|| {
				let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(64, 64);
				let d = h.to_data();
				let input: Vec<B128> = (1..9).map(|i| B128::new(i << 60)).collect();
				let mut i = d.dev_alloc.alloc(8)?;
				d.hal.copy_h2d(&input, &mut i)?;
				let mut outs = [4, 2, 2].map(|n| d.dev_alloc.alloc(n).unwrap());
				d.hal.execute(|e| {
					e.pairwise_product_reduce(DM::as_const(&i), &mut outs)?;
					Ok(vec![])
				})?;
				let mut got = vec![B128::ZERO; 4];
				d.hal.copy_d2h(DM::as_const(&outs[0]), &mut got)?;
				Ok::<_, Error>(got == (0..4).map(|k| input[2 * k] * input[2 * k + 1]).collect::<Vec<_>>())
			});
			match r {
				Err(_) => Err(format!("panic: pairwise_product_reduce of the fast layer: {:?}", take_panics())),
				Ok(Ok(true)) => Ok(()),
				Ok(e) => Err(format!("wrong: pairwise_product_reduce of the fast layer: {e:?}")),
			}
		} else {
			let mut data = [PackedBinaryField4x128b::default()];
			let r = cx.sim(|| {
				let whole = binius_fast_compute::memory::PackedMemorySliceMut::new_slice(&mut data);
				let (_l, mut right) = <M4 as ComputeMemory<B128>>::split_half_mut(whole);
				let mut view = M4::to_owned_mut(&mut right);
				let s = view.as_slice_mut();
				s[0] = binius_field::PackedField::from_fn(|i| B128::new(i as u128 + 7));
			});
			let got: Vec<B128> = binius_field::PackedField::iter(&data[0]).collect();
			let want = [0, 0, 7, 8].map(B128::new);
			match r {
				Err(_) => Err(format!("panic: to_owned_mut of a part of a packed element: {:?}", take_panics())),
				Ok(()) if got == want => Ok(()),
				Ok(()) => Err(format!("wrong: to_owned_mut of a part of a packed element: {got:?}")),
			}
		}
	}
	fn real(&self) -> &'static str {
		"fast_compute layer and memory"
	}
}

type DM = binius_fast_compute::memory::PackedMemory<PackedBinaryField2x128b>;
type M4 = binius_fast_compute::memory::PackedMemory<PackedBinaryField4x128b>;

fn main() {
	main_for(
		"C06",
		"exploration",
		"a run counts if at least one operation was compared with the model; identity: program and interleaving",
		Budget { secs: (60, 1800), runs: (200_000, 20_000_000) },
		&[&Programs, &Probes],
	)
}
