//! Witness filling and lookups: who fills which row, what a failing filler leaves behind, and
//! whether lookup counts balance.
use std::{
	cmp::Reverse,
	sync::{
		Mutex,
		atomic::{AtomicUsize, Ordering},
	},
};

use binius_core::constraint_system::channel::{Boundary, FlushDirection};
use binius_field::packed::get_packed_slice;
use binius_m3::{
	builder::{FlushOpts, IndexedLookup, TableWitnessIndex, tally},
	gadgets::{
		indexed_lookup::{and, incr},
		lookup::LookupProducer,
	},
};
use rayon::prelude::*;

use super::*;

fn h(a: u64, b: u64, c: u64) -> u64 {
	let mut x = a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ c.wrapping_mul(0x94d0_49bb_1331_11eb);
	for _ in 0..3 {
		x ^= x >> 29;
		x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
	}
	x ^ x >> 32
}

#[derive(Clone, Copy)]
enum C {
	Bit(Col<B1>),
	Bit8(Col<B1, 8>),
	Bit32(Col<B1, 32>),
	Bit128(Col<B1, 128>),
	Byte(Col<B8>),
	Byte4(Col<B8, 4>),
	Word(Col<B32>),
	Word2(Col<B32, 2>),
	Long(Col<B64>),
	Big(Col<B128>),
}

macro_rules! each {
	($c:expr, $x:ident => $e:expr) => {
		match $c {
			C::Bit($x) => $e,
			C::Bit8($x) => $e,
			C::Bit32($x) => $e,
			C::Bit128($x) => $e,
			C::Byte($x) => $e,
			C::Byte4($x) => $e,
			C::Word($x) => $e,
			C::Word2($x) => $e,
			C::Long($x) => $e,
			C::Big($x) => $e,
		}
	};
}

impl C {
	/// values per row, bits per value
	fn shape(self) -> (usize, u32) {
		match self {
			C::Bit(_) => (1, 1),
			C::Bit8(_) => (8, 1),
			C::Bit32(_) => (32, 1),
			C::Bit128(_) => (128, 1),
			C::Byte(_) => (1, 8),
			C::Byte4(_) => (4, 8),
			C::Word(_) => (1, 32),
			C::Word2(_) => (2, 32),
			C::Long(_) => (1, 64),
			C::Big(_) => (1, 128),
		}
	}
	fn id(self) -> ColumnId {
		each!(self, c => c.id())
	}
}

/// One column and where its values come from.
#[derive(Clone)]
enum Def {
	/// drawn from the event
	Own,
	/// the same bits as another column
	Alias(usize),
	/// sum of two others, written with eval_expr
	Sum(usize, usize),
	Constant(Vec<u128>),
}

struct Tab {
	id: TableId,
	cols: Vec<(C, Def)>,
}

fn mask(w: u32) -> u128 {
	if w == 128 { u128::MAX } else { (1 << w) - 1 }
}

fn cell(t: &Tab, e: u64, k: usize, j: usize) -> u128 {
	let (_, w) = t.cols[k].0.shape();
	match &t.cols[k].1 {
		Def::Own => (u128::from(h(e, k as u64, j as u64)) | u128::from(h(e, k as u64 + 1000, j as u64)) << 64) & mask(w),
		Def::Sum(a, b) => cell(t, e, *a, j) ^ cell(t, e, *b, j),
		Def::Constant(v) => v[j],
		Def::Alias(a) => {
			let (_, wa) = t.cols[*a].0.shape();
			let r = (w / wa) as usize;
			(0..r).fold(0, |v, i| v | cell(t, e, *a, j * r + i) << (i as u32 * wa))
		}
	}
}

fn draw_table(cs: &mut ConstraintSystem, name: &str, shape: u64, consts: u64) -> Tab {
	let mut r = Rng::new(shape);
	let mut t = cs.add_table(name);
	let id = t.id();
	let mut cols: Vec<(C, Def)> = Vec::new();
	let wide = r.chance(1, 2);
	for k in 0..r.range(1, 5) {
		let n = format!("c{k}");
		let c = match if wide { r.range(2, 9) } else { r.below(10) } {
			0 => C::Bit(t.add_committed(n)),
			1 => C::Bit8(t.add_committed(n)),
			2 => C::Bit32(t.add_committed(n)),
			3 => C::Bit128(t.add_committed(n)),
			4 => C::Byte4(t.add_committed(n)),
			5 if !wide => C::Byte(t.add_committed(n)),
			5 | 6 => C::Word(t.add_committed(n)),
			7 => C::Word2(t.add_committed(n)),
			8 => C::Long(t.add_committed(n)),
			_ => C::Big(t.add_committed(n)),
		};
		cols.push((c, Def::Own));
		let i = cols.len() - 1;
		if r.chance(1, 3) {
			let n = format!("p{k}");
			let p = match c {
				C::Bit32(c) => Some(C::Word(t.add_packed(n, c))),
				C::Bit128(c) => Some(C::Big(t.add_packed(n, c))),
				C::Bit8(c) => Some(C::Byte(t.add_packed(n, c))),
				C::Byte4(c) => Some(C::Word(t.add_packed(n, c))),
				C::Word2(c) => Some(C::Long(t.add_packed(n, c))),
				_ => None,
			};
			cols.extend(p.map(|p| (p, Def::Alias(i))));
		}
		if r.chance(1, 4) {
			let n = format!("k{k}");
			let v = |n: usize, w: u32, k: u64| -> Vec<u128> {
				(0..n).map(|j| u128::from(h(consts, k, j as u64)) & mask(w)).collect()
			};
			let q = match r.below(3) {
				0 => {
					let d = v(1, 1, k);
					(C::Bit(t.add_constant(n, [B1::from(d[0] == 1)])), Def::Constant(d))
				}
				1 => {
					let d = v(32, 1, k);
					(C::Bit32(t.add_constant(n, array::from_fn(|j| B1::from(d[j] == 1)))), Def::Constant(d))
				}
				_ => {
					let d = v(2, 32, k);
					(C::Word2(t.add_constant(n, array::from_fn(|j| B32::new(d[j] as u32)))), Def::Constant(d))
				}
			};
			cols.push(q);
		}
	}
	// sums of two committed columns of one type
	for a in 0..cols.len() {
		for b in a + 1..cols.len() {
			if !matches!((&cols[a].1, &cols[b].1), (Def::Own, Def::Own)) || !r.chance(1, 2) {
				continue;
			}
			let n = format!("s{a}_{b}");
			macro_rules! sum {
				($($v:ident),*) => {
					match (cols[a].0, cols[b].0) {
						$((C::$v(x), C::$v(y)) => Some(C::$v(t.add_computed(n, x + y))),)*
						_ => None,
					}
				};
			}
			if let Some(c) = sum!(Bit, Bit8, Bit32, Bit128, Byte, Byte4, Word, Word2, Long, Big) {
				cols.push((c, Def::Sum(a, b)));
			}
		}
	}
	Tab { id, cols }
}

fn b128(v: u128) -> B128 {
	B128::new(v)
}

/// Write one segment the way a filler would; `api` picks the accessors.
fn write(t: &Tab, rows: &[u64], w: &Seg, api: u64) -> Result<(), M3Error> {
	for (k, (c, def)) in t.cols.iter().enumerate() {
		let (n, _) = c.shape();
		match def {
			Def::Own => {}
			Def::Sum(a, b) => {
				macro_rules! sum {
					($($v:ident),*) => {
						match (*c, t.cols[*a].0, t.cols[*b].0) {
							$((C::$v(z), C::$v(x), C::$v(y)) => {
								let v = w.eval_expr(&(x + y))?;
								for (d, v) in w.get_mut(z)?.iter_mut().zip(v) {
									*d = v;
								}
							})*
							_ => unreachable!(),
						}
					};
				}
				sum!(Bit, Bit8, Bit32, Bit128, Byte, Byte4, Word, Word2, Long, Big);
				continue;
			}
			_ => continue,
		}
		let put = |i: usize, j: usize| cell(t, rows[i], k, j);
		let pick = h(api, k as u64, 7) % 3;
		match *c {
			C::Bit32(c) if pick == 0 => {
				let mut d = w.get_mut_as::<u32, _, 32>(c)?;
				for i in 0..rows.len() {
					d[i] = (0..32).fold(0, |v, j| v | (put(i, j) as u32) << j);
				}
			}
			C::Byte4(c) if pick == 0 => {
				let mut d = w.get_scalars_mut(c)?;
				for i in 0..rows.len() {
					for j in 0..4 {
						d[i * 4 + j] = B8::new(put(i, j) as u8);
					}
				}
			}
			C::Long(c) if pick == 0 => {
				let mut d = w.get_mut_as::<u64, _, 1>(c)?;
				for i in 0..rows.len() {
					d[i] = put(i, 0) as u64;
				}
			}
			c if pick == 1 => {
				let mut d = w.get_dyn_mut(c.id())?;
				for i in 0..rows.len() {
					for j in 0..n {
						d.set(i * n + j, b128(put(i, j)))?;
					}
				}
			}
			c => each!(c, c => {
				let mut d = w.get_mut(c)?;
				for i in 0..rows.len() {
					for j in 0..n {
						set_packed_slice(&mut d, i * n + j, b128(put(i, j)).try_into().expect("masked"));
					}
				}
			}),
		}
	}
	Ok(())
}

/// What a filled table must hold.
fn check_table(t: &Tab, events: &[u64], get: &dyn Fn(usize, usize) -> u128, cap: usize, what: &str) -> Result<(), String> {
	for row in 0..cap {
		let matches = |e: u64| -> Option<usize> {
			(0..t.cols.len()).find(|&k| {
				let (n, _) = t.cols[k].0.shape();
				(0..n).any(|j| get(k, row * n + j) != cell(t, e, k, j))
			})
		};
		if row < events.len() {
			if let Some(k) = matches(events[row]) {
				let (n, _) = t.cols[k].0.shape();
				return Err(format!(
					"wrong-row: {what}: row {row} of {} does not hold event {row} in column {k} ({n} values, first {:x}, want {:x})",
					events.len(),
					get(k, row * n),
					cell(t, events[row], k, 0)
				));
			}
		} else if !events.iter().rev().any(|e| matches(*e).is_none()) {
			return Err(format!("padding: {what}: row {row} (of {cap}, {} events) repeats no event", events.len()));
		}
	}
	Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mis {
	None,
	ErrAt(u64),
	PanicAt(u64),
	Mismatch(u64),
	Borrow(u64),
}

struct TabFiller<'a> {
	t: &'a Tab,
	other: Option<&'a Tab>,
	events: &'a [u64],
	api: u64,
	mis: Mis,
	problems: &'a Mutex<Vec<String>>,
	calls: &'a AtomicUsize,
	id: TableId,
}

fn as_u8<F: binius_field::TowerField, const V: usize>(w: &Seg, c: Col<F, V>) -> Result<(), M3Error>
where
	P: binius_field::PackedExtension<F>,
	B128: binius_field::ExtensionField<F>,
{
	w.get_as::<u8, F, V>(c).map(|_| ())
}
fn as_u8_mut<F: binius_field::TowerField, const V: usize>(w: &Seg, c: Col<F, V>) -> Result<(), M3Error>
where
	P: binius_field::PackedExtension<F>,
	B128: binius_field::ExtensionField<F>,
{
	w.get_mut_as::<u8, F, V>(c).map(|_| ())
}

impl TableFiller<P> for TabFiller<'_> {
	type Event = (usize, u64);
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[(usize, u64)], w: &mut Seg) -> anyhow::Result<()> {
		self.calls.fetch_add(1, Ordering::SeqCst);
		let complain = |s: String| self.problems.lock().unwrap().push(s);
		// the documented contract: the segment is exactly as large as the rows it is given
		if rows.len() != w.size() {
			complain(format!("a segment of {} rows came with {} events", w.size(), rows.len()));
		}
		let start = w.index() << w.log_size();
		for (i, (n, _)) in rows.iter().enumerate() {
			if *n != (start + i).min(self.events.len() - 1) {
				complain(format!("row {} was given event {n} of {}", start + i, self.events.len()));
				break;
			}
		}
		let hit = |k: u64| rows.iter().any(|(n, _)| *n as u64 == k);
		match self.mis {
			Mis::ErrAt(k) if hit(k) => {
				let half: Vec<u64> = rows.iter().map(|r| r.1 ^ 1).collect();
				write(self.t, &half, w, self.api)?;
				anyhow::bail!("filler stopped at event {k}");
			}
			Mis::PanicAt(k) if hit(k) => panic!("filler panicked at event {k}"),
			Mis::Mismatch(a) => {
				let o = self.other.expect("two tables");
				let c = o.cols[0].0;
				let r: Vec<(&str, Option<M3Error>)> = each!(c, c => vec![
					("get", w.get(c).map(|_| ()).err()),
					("get_mut", w.get_mut(c).map(|_| ()).err()),
					("get_as", as_u8(w, c).err()),
					("get_mut_as", as_u8_mut(w, c).err()),
				]);
				let (n, e) = &r[a as usize % r.len()];
				if !matches!(e, Some(M3Error::TableMismatch { .. })) {
					complain(format!("{n} of a column of table {} in table {} gives {e:?}", o.id, self.t.id));
				}
			}
			Mis::Borrow(a) => {
				let k = a as usize % self.t.cols.len();
				let base = match self.t.cols[k].1 {
					Def::Alias(b) => b,
					_ => k,
				};
				each!(self.t.cols[base].0, c => {
					let _held = w.get_mut(c)?;
					let e = w.get_dyn(self.t.cols[k].0.id()).err();
					if !matches!(e, Some(M3Error::WitnessBorrow(_))) {
						complain(format!("a column is readable while it is borrowed mutably: {e:?}"));
					}
					let e = w.get_dyn_mut(self.t.cols[k].0.id()).err();
					if !matches!(e, Some(M3Error::WitnessBorrowMut(_))) {
						complain(format!("a column is borrowed mutably twice: {e:?}"));
					}
				});
			}
			_ => {}
		}
		let e: Vec<u64> = rows.iter().map(|r| r.1).collect();
		write(self.t, &e, w, self.api)?;
		Ok(())
	}
}

fn read_index(t: &Tab, ix: &mut TableWitnessIndex<'_, '_, P>) -> Vec<Vec<u128>> {
	let cap = ix.capacity();
	let seg = ix.full_segment();
	t.cols
		.iter()
		.map(|(c, _)| {
			let (n, _) = c.shape();
			each!(*c, c => {
				let d = seg.get(c).expect("readable after filling");
				(0..cap * n).map(|i| B128::from(get_packed_slice(&d, i)).val()).collect()
			})
		})
		.collect()
}

fn run_fill(
	w: &mut WitnessIndex<'_, '_, P>,
	f: &TabFiller,
	rows: &[(usize, u64)],
	mode: u64,
	seg: usize,
) -> Result<(), M3Error> {
	match mode {
		0 => w.fill_table_sequential(f, rows),
		1 => w.fill_table_parallel(f, rows),
		2 | 3 => {
			let t = match w.get_table(f.id) {
				Some(t) => t,
				None => w.init_table(f.id, rows.len())?,
			};
			if mode == 2 {
				t.fill_sequential_with_segment_size(f, rows, seg)
			} else {
				t.fill_parallel_with_segment_size(f, rows, seg)
			}
		}
		_ => {
			// the segments themselves
			let t = match w.get_table(f.id) {
				Some(t) => t,
				None => w.init_table(f.id, rows.len())?,
			};
			let (lo, hi) = (t.min_log_segment_size(), t.log_capacity());
			let want = seg.min(hi).max(lo);
			let seen = Mutex::new(Vec::new());
			t.par_segments(seg).try_for_each(|mut s| {
				let n = s.size();
				if s.log_size() != want {
					f.problems.lock().unwrap().push(format!("a segment of log size {} instead of {want}", s.log_size()));
				}
				seen.lock().unwrap().push(s.index());
				let start = s.index() * n;
				let r: Vec<(usize, u64)> = (start..start + n).map(|i| rows[i.min(rows.len() - 1)]).collect();
				f.fill(&r, &mut s).map_err(M3Error::TableFill)
			})?;
			let mut seen = seen.into_inner().unwrap();
			seen.sort();
			if seen != (0..1usize << (hi - want)).collect::<Vec<_>>() {
				f.problems.lock().unwrap().push(format!("segments {seen:?} of a table of log capacity {hi}, log size {want}"));
			}
			Ok(())
		}
	}
}

pub struct Fills;
impl Scenario for Fills {
	fn name(&self) -> &'static str {
		"fill"
	}
	fn weight(&self) -> u32 {
		8
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("shape", r.next());
		plan.set("rows", *r.pick(&[1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 200, 257, 400]));
		plan.set("rows2", r.range(1, 40));
		plan.set("mode", *r.pick(&[0, 1, 2, 3, 3, 3, 4, 4]));
		plan.set("seg", *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 63]));
		plan.set("data", r.next());
		for _ in 0..r.below(3) {
			let k = *r.pick(&["filler error", "filler error", "filler panic", "filler panic", "column of another table", "column borrowed twice", "wrong number of events", "no events", "initialised twice", "no such table"]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut cs = ConstraintSystem::new();
		let data = plan.p("data");
		let a = draw_table(&mut cs, "a", plan.p("shape"), data);
		let b = draw_table(&mut cs, "b", plan.p("shape") ^ 0x5555, data);
		let (n, n2) = (plan.p("rows").max(1) as usize, plan.p("rows2").max(1) as usize);
		let (mode, seg) = (plan.p("mode").min(4), plan.p("seg") as usize);
		let ev = |n: usize, k: u64| -> Vec<u64> { (0..n).map(|i| h(data, i as u64, k)).collect() };
		let (ea, eb) = (ev(n, 1), ev(n2, 2));
		let rows = |e: &[u64]| -> Vec<(usize, u64)> { e.iter().copied().enumerate().collect() };
		let (ra, rb) = (rows(&ea), rows(&eb));
		cx.sample = format!("table of {} columns and {n} rows, mode {mode}, log segment {seg}", a.cols.len());
		cx.key = plan.p("shape") ^ (n as u64) << 8 ^ mode << 4 ^ seg as u64;
		let mut alloc = CpuComputeAllocator::<P>::new(1 << 16);
		let alloc = alloc.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&cs, &alloc);
		let problems = Mutex::new(Vec::new());
		let calls = AtomicUsize::new(0);
		let filler = |mis: Mis, id: TableId| TabFiller {
			t: &a,
			other: Some(&b),
			events: &ea,
			api: data,
			mis,
			problems: &problems,
			calls: &calls,
			id,
		};
		let trouble = |what: &str| -> Verdict {
			match std::mem::take(&mut *problems.lock().unwrap()).first() {
				Some(p) => Err(format!("segments: {what}: {p}")),
				None => Ok(()),
			}
		};
		for f in &plan.faults {
			let k = f.args[0];
			let what = f.kind.clone();
			let kept = mode >= 2;
			match f.kind.as_str() {
				"filler error" | "filler panic" | "column of another table" | "column borrowed twice" => {
					let at = k % n as u64;
					let mis = match f.kind.as_str() {
						"filler error" => Mis::ErrAt(at),
						"filler panic" => Mis::PanicAt(at),
						"column of another table" => Mis::Mismatch(k),
						_ => Mis::Borrow(k),
					};
					let fl = filler(mis, a.id);
					let already = w.table_sizes()[a.id] > 0;
					let g = OneThread((&mut w, &fl, &ra));
					let r = cx.sim(move || {
						let (w, fl, ra) = g.get();
						run_fill(w, fl, ra, mode, seg)
					});
					let _ = take_panics();
					cx.fired(&what);
					trouble(&what)?;
					match (mis, r) {
						(Mis::ErrAt(k), Ok(Err(M3Error::TableFill(e)))) if e.to_string().contains(&format!("stopped at event {k}")) => {}
						(Mis::ErrAt(_), r) => {
							return Err(format!("swallowed: a filler error comes out as {:?} ({})", r.map_err(|_| "panic"), cx.sample));
						}
						(Mis::PanicAt(_), Err(_)) => {}
						(Mis::PanicAt(_), Ok(r)) => {
							return Err(format!("swallowed: a filler panic comes out as {r:?} ({})", cx.sample));
						}
						(_, Ok(Ok(()))) => {}
						(_, r) => {
							return Err(format!("fill: {what} leaves {:?} ({})", r.map_err(|_| "panic"), cx.sample));
						}
					}
					let there = w.table_sizes()[a.id];
					let want = if kept || already || matches!(mis, Mis::Mismatch(_) | Mis::Borrow(_)) { n } else { 0 };
					if there != want {
						return Err(format!("half-filled: after a {what} the table has size {there}, not {want} ({})", cx.sample));
					}
				}
				"wrong number of events" => {
					let there = w.table_sizes()[a.id] > 0;
					if !there && !kept {
						continue;
					}
					let more = rows(&ev(if k % 2 == 0 || n == 1 { n + 1 } else { n - 1 }, 1));
					let before = calls.load(Ordering::SeqCst);
					let fl = filler(Mis::None, a.id);
					if !there {
						w.init_table(a.id, n).map_err(|e| format!("fill: init_table fails: {e}"))?;
					}
					let g = OneThread((&mut w, &fl, &more));
					let m = if mode == 4 { 3 } else { mode };
					let r = cx.sim(move || {
						let (w, fl, ra) = g.get();
						run_fill(w, fl, ra, m, seg)
					});
					cx.fired(&what);
					match caught(&what, r)? {
						Err(M3Error::IncorrectNumberOfTableEvents { expected, actual }) if expected == n && actual == more.len() => {}
						r => return Err(format!("events: {} events for {n} rows give {r:?} ({})", more.len(), cx.sample)),
					}
					if calls.load(Ordering::SeqCst) != before {
						return Err("events: the filler was called all the same".into());
					}
				}
				"no events" => {
					cx.fired(&what);
					if w.table_sizes()[a.id] > 0 {
						continue;
					}
					if !matches!(w.init_table(a.id, 0), Err(M3Error::EmptyTable { table_id }) if table_id == a.id) {
						return Err("empty: init_table of no rows is not refused".into());
					}
					let fl = filler(Mis::None, a.id);
					let g = OneThread((&mut w, &fl));
					let r = cx.sim(move || {
						let (w, fl) = g.get();
						if k % 2 == 0 { w.fill_table_parallel(fl, &[]) } else { w.fill_table_sequential(fl, &[]) }
					});
					let r = caught(&what, r)?;
					if r.is_err() || w.table_sizes()[a.id] != 0 {
						return Err(format!("empty: filling with no events gives {r:?}"));
					}
				}
				"initialised twice" => {
					cx.fired(&what);
					if w.table_sizes()[a.id] == 0 {
						if !kept {
							continue;
						}
						w.init_table(a.id, n).map_err(|e| format!("fill: init_table fails: {e}"))?;
					}
					if !matches!(w.init_table(a.id, n), Err(M3Error::TableIndexAlreadyInitialized { table_id }) if table_id == a.id) {
						return Err("twice: a second init_table is not refused".into());
					}
				}
				_ => {
					cx.fired(&what);
					let id = 2 + k as usize % 3;
					let fl = filler(Mis::None, id);
					let r = w.fill_table_sequential(&fl, &ra);
					if !matches!(r, Err(M3Error::MissingTable { table_id }) if table_id == id) || !matches!(w.init_table(id, 1), Err(M3Error::MissingTable { .. })) {
						return Err(format!("missing: filling a table that is not there gives {r:?}"));
					}
				}
			}
		}
		// then everything goes right
		let before = calls.load(Ordering::SeqCst);
		let fa = filler(Mis::None, a.id);
		let fb = TabFiller { t: &b, other: None, events: &eb, api: data ^ 9, mis: Mis::None, problems: &problems, calls: &calls, id: b.id };
		let g = OneThread((&mut w, &fa, &fb, &ra, &rb));
		let r = cx.sim(move || -> Result<(), M3Error> {
			let (w, fa, fb, ra, rb) = g.get();
			run_fill(w, fa, ra, mode, seg)?;
			run_fill(w, fb, rb, data % 5, seg)?;
			w.fill_constant_cols()
		});
		caught("filling", r)?.map_err(|e| format!("fill: honest fill fails: {e} ({})", cx.sample))?;
		trouble("honest fill")?;
		cx.count_n("segments filled", (calls.load(Ordering::SeqCst) - before) as u64);
		cx.nontrivial = true;
		if w.table_sizes() != [n, n2] {
			return Err(format!("sizes: {:?} for {n} and {n2} rows", w.table_sizes()));
		}
		for (t, e) in [(&a, &ea), (&b, &eb)] {
			let ix = w.get_table(t.id).ok_or("missing: a filled table is not there")?;
			let cap = ix.capacity();
			if cap < e.len() || !cap.is_power_of_two() {
				return Err(format!("sizes: capacity {cap} for {} rows", e.len()));
			}
			let d = read_index(t, ix);
			check_table(t, e, &|k, i| d[k][i], cap, &cx.sample)?;
		}
		cs.compile().map_err(|e| format!("compile: {e}"))?;
		let mp = map(&cs);
		let wit = w.into_multilinear_extension_index();
		for (t, e) in [(&a, &ea), (&b, &eb)] {
			let cap = e.len().next_power_of_two();
			let d: Vec<Vec<B128>> = t
				.cols
				.iter()
				.map(|(c, _)| {
					let o = mp.oracle[&c.id()];
					dense(&wit, o, cap * c.shape().0).ok_or_else(|| format!("sizes: no polynomial of the right size for {:?}", c.id()))
				})
				.collect::<Result<_, _>>()?;
			check_table(t, e, &|k, i| d[k][i].val(), cap, &format!("{} (as polynomials)", cx.sample))?;
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		REAL
	}
	fn stub(&self) -> &'static str {
		"the fillers (scripted, with the errors, panics and misuse of the fault plan)"
	}
}

// ---------------------------------------------------------------- lookups

struct Vals(Vec<B128>);
impl IndexedLookup<B128> for Vals {
	fn log_size(&self) -> usize {
		self.0.len().trailing_zeros() as usize
	}
	fn entry_to_index(&self, entry: &[B128]) -> usize {
		self.0.iter().position(|v| *v == entry[0]).expect("a value of the table")
	}
	fn index_to_entry(&self, index: usize, entry: &mut [B128]) {
		entry[0] = self.0[index];
	}
}

enum Looker {
	Incr(incr::IncrLooker),
	And(and::BitAndLooker),
	And4(Col<B8, 4>, Col<B8, 4>, and::BitAnd<4>),
	Plain(Col<B128>),
}

enum Producer {
	Incr(incr::IncrLookup),
	And(and::BitAndLookup),
	Plain(TableId, Col<B128>, LookupProducer),
}

struct LookFiller<'a> {
	id: TableId,
	l: &'a Looker,
	vals: &'a Vals,
}
impl TableFiller<P> for LookFiller<'_> {
	type Event = u64;
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[u64], w: &mut Seg) -> anyhow::Result<()> {
		match self.l {
			Looker::Incr(l) => {
				let e: Vec<(u8, bool)> = rows.iter().map(|r| (*r as u8, r >> 8 & 1 == 1)).collect();
				l.populate(w, e.iter())
			}
			Looker::And(l) => {
				let e: Vec<(u8, u8)> = rows.iter().map(|r| (*r as u8, (r >> 8) as u8)).collect();
				l.populate(w, e.iter())
			}
			Looker::And4(a, b, l) => {
				for (c, s) in [(a, 0), (b, 32)] {
					let mut d = w.get_mut_as::<u32, _, 4>(*c)?;
					for (i, r) in rows.iter().enumerate() {
						d[i] = (r >> s) as u32;
					}
				}
				l.populate(w)
			}
			Looker::Plain(c) => {
				let mut d = w.get_scalars_mut(*c)?;
				for (i, r) in rows.iter().enumerate() {
					d[i] = self.vals.0[*r as usize % self.vals.0.len()];
				}
				Ok(())
			}
		}
	}
}

struct ProdFiller<'a> {
	id: TableId,
	p: &'a Producer,
	vals: &'a Vals,
}
impl TableFiller<P> for ProdFiller<'_> {
	type Event = (usize, u32);
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[(usize, u32)], w: &mut Seg) -> anyhow::Result<()> {
		match self.p {
			Producer::Incr(p) => p.fill(rows, w),
			Producer::And(p) => p.fill(rows, w),
			Producer::Plain(_, c, p) => {
				{
					let mut d = w.get_scalars_mut(*c)?;
					for (i, r) in rows.iter().enumerate() {
						d[i] = self.vals.0[r.0];
					}
				}
				p.populate(w, rows.iter().map(|r| r.1))
			}
		}
	}
}

/// The lookups one event makes, as table entries.
fn entries(kind: u64, four: bool, e: u64, vals: &Vals) -> Vec<u128> {
	match kind {
		0 => vec![incr_entry(e)],
		1 if four => (0..4)
			.map(|j| and_entry((e >> (8 * j)) as u8, (e >> (32 + 8 * j)) as u8))
			.collect(),
		1 => vec![and_entry(e as u8, (e >> 8) as u8)],
		_ => vec![vals.0[e as usize % vals.0.len()].val()],
	}
}
fn incr_entry(e: u64) -> u128 {
	let (i, c) = (e as u8, e >> 8 & 1);
	let s = u64::from(i) + c;
	u128::from(u64::from(i) | (s & 255) << 8 | c << 16 | (s >> 8) << 17)
}
fn and_entry(a: u8, b: u8) -> u128 {
	u128::from(a) | u128::from(b) << 8 | u128::from(a & b) << 16
}

pub struct Lookups;
impl Scenario for Lookups {
	fn name(&self) -> &'static str {
		"lookup"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("kind", if r.chance(1, 16) { 1 } else { *r.pick(&[0, 0, 2, 2, 2]) });
		plan.set("rows", *r.pick(&[1, 2, 3, 5, 8, 13, 40, 100, 260]));
		plan.set("rows2", *r.pick(&[0, 0, 1, 4, 9, 30]));
		plan.set("bounds", *r.pick(&[0, 0, 1, 2, 3]));
		plan.set("spread", *r.pick(&[1, 2, 5, 1 << 16]));
		plan.set("bits", *r.pick(&[3, 6, 9, 12, 32]));
		plan.set("mult", *r.pick(&[1, 1, 1, 2, 5]));
		plan.set("data", r.next());
		plan.set("mode", r.below(2));
		for _ in 0..r.range(1, 5) {
			plan.faults.push(Fault::new("forge", &[r.below(5), r.next()]));
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let kind = plan.p("kind").min(2);
		let data = plan.p("data");
		let mut r = Rng::new(data);
		let vals = Vals((0..1usize << r.range(1, 6)).map(|_| b128(u128::from(r.next()) << 64 | u128::from(r.next()))).collect());
		let mut cs = ConstraintSystem::new();
		let (chan, perm) = (cs.add_channel("lookup"), cs.add_channel("permutation"));
		let nbits = plan.p("bits") as usize;
		let four = r.chance(1, 2);
		let mult = plan.p("mult").max(1) as u32;
		let mk_looker = |cs: &mut ConstraintSystem, name: &str, four: bool| {
			let mut t = cs.add_table(name);
			let l = match kind {
				0 => Looker::Incr(incr::IncrLooker::new(&mut t, chan)),
				1 if four => {
					let (a, b) = (t.add_committed("a"), t.add_committed("b"));
					Looker::And4(a, b, and::BitAnd::new(&mut t, chan, a, b))
				}
				1 => Looker::And(and::BitAndLooker::new(&mut t, chan)),
				_ => {
					let c = t.add_committed::<B128, 1>("v");
					t.pull_with_opts(chan, [c], FlushOpts { multiplicity: mult, selectors: vec![] });
					Looker::Plain(c)
				}
			};
			(t.id(), l)
		};
		let mult = if kind == 2 { mult } else { 1 };
		let first = r.chance(1, 2);
		let mk_prod = |cs: &mut ConstraintSystem, log: usize| {
			let mut t = cs.add_table("table");
			match kind {
				0 => Producer::Incr(incr::IncrLookup::new(&mut t, chan, perm, nbits)),
				1 => Producer::And(and::BitAndLookup::new(&mut t, chan, perm, nbits)),
				_ => {
					t.require_fixed_size(log);
					let c = t.add_committed::<B128, 1>("values");
					let p = LookupProducer::new(&mut t, chan, &[c], nbits);
					Producer::Plain(t.id(), c, p)
				}
			}
		};
		let mut prod = first.then(|| mk_prod(&mut cs, vals.log_size()));
		let (id1, l1) = mk_looker(&mut cs, "one", four);
		let (id2, l2) = mk_looker(&mut cs, "two", false);
		let prod = match prod.take() {
			Some(p) => p,
			None => mk_prod(&mut cs, vals.log_size()),
		};
		let prod_id = match &prod {
			Producer::Incr(p) => p.id(),
			Producer::And(p) => p.id(),
			Producer::Plain(id, ..) => *id,
		};
		let spread = plan.p("spread").max(1);
		let mut ev = |n: u64| -> Vec<u64> {
			(0..n).map(|_| if spread < 1 << 16 { h(data, r.below(spread), 3) } else { r.next() }).collect()
		};
		let (e1, e2) = (ev(plan.p("rows").max(1)), ev(plan.p("rows2")));
		let be = ev(plan.p("bounds"));
		// what is read how often
		let mut want: BTreeMap<u128, u64> = BTreeMap::new();
		for e in &e1 {
			for v in entries(kind, four, *e, &vals) {
				*want.entry(v).or_default() += u64::from(mult);
			}
		}
		for e in &e2 {
			for v in entries(kind, false, *e, &vals) {
				*want.entry(v).or_default() += u64::from(mult);
			}
		}
		let mut bounds = Vec::new();
		for (i, e) in be.iter().enumerate() {
			let v = entries(kind, false, *e, &vals)[0];
			let m = 1 + h(data, i as u64, 11) % 3;
			*want.entry(v).or_default() += m;
			bounds.push(Boundary { values: vec![b128(v)], channel_id: chan, direction: FlushDirection::Pull, multiplicity: m });
		}
		cx.sample = format!("lookup kind {kind}, {}+{} rows, {} boundaries, {nbits} bits", e1.len(), e2.len(), bounds.len());
		cx.key = data;
		let mut alloc = CpuComputeAllocator::<P>::new(1 << 18);
		let alloc = alloc.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&cs, &alloc);
		let par = plan.p("mode") == 1;
		let (f1, f2) = (LookFiller { id: id1, l: &l1, vals: &vals }, LookFiller { id: id2, l: &l2, vals: &vals });
		let pf = ProdFiller { id: prod_id, p: &prod, vals: &vals };
		let g = OneThread((&mut w, &f1, &f2, &e1, &e2, &pf, &cs, &bounds, &vals));
		let r2 = cx.sim(move || -> Result<Result<Vec<u32>, M3Error>, M3Error> {
			let (w, f1, f2, e1, e2, pf, cs, bounds, vals) = g.get();
			if par {
				w.init_table(f1.id, e1.len())?.fill_parallel_with_segment_size(f1, e1, 0)?;
				w.fill_table_parallel(f2, e2)?;
			} else {
				w.fill_table_sequential(f1, e1)?;
				w.fill_table_sequential(f2, e2)?;
			}
			let counts = match kind {
				0 => tally(cs, w, bounds, chan, &incr::IncrIndexedLookup),
				1 => tally(cs, w, bounds, chan, &and::BitAndIndexedLookup),
				_ => tally(cs, w, bounds, chan, vals),
			}?;
			let mut sorted: Vec<(usize, u32)> = counts.iter().copied().enumerate().collect();
			sorted.sort_by_key(|x| Reverse(x.1));
			let filled = if par { w.fill_table_parallel(pf, &sorted) } else { w.fill_table_sequential(pf, &sorted) };
			Ok(filled.map(|()| counts))
		});
		let filled = caught(&format!("filling {}", cx.sample), r2)?.map_err(|e| format!("fill: {} fails: {e}", cx.sample))?;
		let most = want.values().copied().max().unwrap_or(0);
		let fits = nbits >= 32 || most < 1 << nbits;
		let counts = match filled {
			Ok(_) if !fits => return Err(format!("overflow: {most} reads of one entry are accepted with {nbits} bits ({})", cx.sample)),
			Err(M3Error::TableFill(_)) if !fits => {
				cx.count("too many reads refused");
				cx.nontrivial = true;
				return Ok(());
			}
			Err(e) => return Err(format!("fill: {} fails: {e}", cx.sample)),
			Ok(c) => c,
		};
		// the counts are the reads
		let mut got: BTreeMap<u128, u64> = BTreeMap::new();
		for (i, c) in counts.iter().enumerate().filter(|c| *c.1 > 0) {
			let mut e = [B128::ZERO];
			match kind {
				0 => incr::IncrIndexedLookup.index_to_entry(i, &mut e),
				1 => and::BitAndIndexedLookup.index_to_entry(i, &mut e),
				_ => vals.index_to_entry(i, &mut e),
			}
			*got.entry(e[0].val()).or_default() += u64::from(*c);
		}
		if got != want {
			let d = want.iter().find(|(k, v)| got.get(k) != Some(v));
			return Err(format!("tally: {} counts differ from the reads, e.g. {d:x?} (value, reads) counted {:?}", cx.sample, d.and_then(|d| got.get(d.0))));
		}
		let ccs = cs.compile().map_err(|e| format!("compile: {e}"))?;
		let sizes = w.table_sizes();
		let wit = w.into_multilinear_extension_index();
		let mp = map(&cs);
		let mut m = model(&ccs, &sizes, &mp, &wit).map_err(|e| format!("model: {e}"))?;
		honest_columns(&m, &wit).map_err(|e| format!("{e} ({}, honest fill)", cx.sample))?;
		if let Some(b) = m.broken().or_else(|| m.unbalanced(&ccs, &bounds)) {
			return Err(format!("incomplete: an honest fill of {} breaks: {b}", cx.sample));
		}
		if kind != 1 || data % 4 == 0 {
			let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| validate_witness(&ccs, &bounds, &sizes, &wit)));
			caught(&format!("validate_witness of {}", cx.sample), v)?
				.map_err(|e| format!("validate: honest {} refused: {e}", cx.sample))?;
		}
		cx.nontrivial = true;
		cx.count(["increment lookups", "bitwise-and lookups", "plain lookups"][kind as usize]);
		// forged reads: some committed values differ, everything else is kept
		let base = m.val.clone();
		for f in &plan.faults {
			let mut r = Rng::new(f.args[1]);
			let t = [id1, id1, id1, prod_id, prod_id][f.args[0] as usize % 5];
			let committed = m.committed_of(t);
			let row = r.usize(sizes[t]);
			let what = ["forge a read", "forge a read", "forge two reads", "forge an entry", "forge an entry and a read"][f.args[0] as usize % 5];
			let mut touched = vec![(t, row)];
			let flip = |m: &mut Model, o: usize, x: usize, r: &mut Rng| {
				let b = r.below(1 << m.level[o]) as u32;
				let v = m.val[o][x].val() ^ 1u128 << b;
				m.set((o, x), b128(v));
			};
			let o = *r.pick(&committed);
			let x = (row << m.lv[o]) + r.usize(1 << m.lv[o]);
			flip(&mut m, o, x, &mut r);
			if f.args[0] == 2 {
				let row = r.usize(sizes[t]);
				let o = *r.pick(&committed);
				let x = (row << m.lv[o]) + r.usize(1 << m.lv[o]);
				flip(&mut m, o, x, &mut r);
				touched.push((t, row));
			}
			if f.args[0] == 4 {
				let c = m.committed_of(id1);
				let row = r.usize(sizes[id1]);
				let o = *r.pick(&c);
				let x = (row << m.lv[o]) + r.usize(1 << m.lv[o]);
				flip(&mut m, o, x, &mut r);
				touched.push((id1, row));
			}
			cx.fired(what);
			// nothing is unread: any change to what is read or offered shows up in a channel,
			// unless it undoes itself or swaps two rows
			let same_reads = |m: &Model| -> bool {
				let reads = |v: &[Vec<B128>], m: &Model| -> BTreeMap<(usize, u128), i64> {
					let mut b = BTreeMap::new();
					for fl in &ccs.flushes {
						let Some(binius_core::constraint_system::channel::OracleOrConst::Oracle(o)) = fl.oracles.first().copied() else { continue };
						for x in 0..m.sizes[fl.table_id] << fl.log_values_per_row {
							if fl.selectors.iter().all(|s| v[s.index()][x] != B128::ZERO) {
								let s = if fl.direction == FlushDirection::Push { 1 } else { -1 };
								*b.entry((fl.channel_id, v[o.index()][x].val())).or_insert(0) += s * i64::from(fl.multiplicity as u32);
							}
						}
					}
					b.retain(|_, n| *n != 0);
					b
				};
				reads(&m.val, m) == reads(&base, m)
			};
			let bad = m.broken().or_else(|| m.unbalanced(&ccs, &bounds));
			match bad {
				Some(_) => cx.count("forgeries refused"),
				None if same_reads(&m) => cx.count("forgeries without effect"),
				None => return Err(format!("unsound: {} accepts another set of reads ({what})", cx.sample)),
			}
			// the relation itself: every read of a looker is an entry of the table
			if bad.is_none() {
				for (l, four, id, n) in [(&l1, four, id1, e1.len()), (&l2, false, id2, e2.len())] {
					let _ = four;
					for row in 0..n {
						if !read_ok(&m, &mp, &cs, l, id, row, &vals) {
							return Err(format!("unsound: {} accepts a wrong read in row {row} ({what})", cx.sample));
						}
					}
				}
			}
			for (t, row) in touched {
				m.restore_row(&base, t, row);
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		REAL
	}
	fn stub(&self) -> &'static str {
		STUB
	}
}

fn col_by_name(cs: &ConstraintSystem, t: TableId, name: &str) -> Option<ColumnId> {
	cs.tables[t].columns.iter().find(|c| c.name == name || c.name.ends_with(&format!("::{name}"))).map(|c| c.id)
}

fn read_ok(m: &Model, mp: &Map, cs: &ConstraintSystem, l: &Looker, id: TableId, row: usize, vals: &Vals) -> bool {
	let v = |name: &str, x: usize| -> u64 {
		col_by_name(cs, id, name).map_or(0, |c| m.val[mp.oracle[&c]][x].val() as u64)
	};
	match l {
		Looker::Incr(_) => {
			let s = v("input", row) + v("carry_in", row);
			v("output", row) == s & 255 && v("carry_out", row) == s >> 8
		}
		Looker::And(_) => v("output", row) == v("in_a", row) & v("in_b", row),
		Looker::And4(..) => (0..4).all(|j| v("output", row * 4 + j) == v("a", row * 4 + j) & v("b", row * 4 + j)),
		Looker::Plain(c) => vals.0.contains(&m.val[mp.oracle[&c.id()]][row]),
	}
}
