//! C12: M3 gadgets and witness filling: an honest fill satisfies the constraints and computes the
//! documented function in every schedule, and no corrupted assignment that satisfies the
//! constraints computes anything else.
use std::{
	array,
	collections::{BTreeMap, BTreeSet},
	sync::Arc,
};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{
	constraint_system::{
		validate::validate_witness,
	},
	oracle::{OracleId, ShiftVariant},
	witness::MultilinearExtensionIndex,
};
use binius_field::{
	Field,
	arch::OptimalUnderlier,
	as_packed_field::PackedType,
	packed::set_packed_slice,
};
use binius_m3::{
	builder::{
		B1, B8, B32, B64, B128, Col, ColumnDef, ColumnId, ConstraintSystem, Error as M3Error,
		StructuredDynSize, TableBuilder, TableFiller, TableId, TableWitnessIndex, TableWitnessSegment, WitnessIndex,
	},
	gadgets::{
		add::{Incr, U32Add, U32AddFlags, U32AddStacked, WideAdd},
		barrel_shifter::BarrelShifter,
		div::{DivSS32, DivUU32},
		hash::{groestl, keccak, sha256},
		mul::{MulSS32, MulSU32, MulUU32, MulUU64, SignConverter, TwosComplement},
		structured::fill_incrementing_b32,
		sub::{U32Sub, U32SubFlags, WideSub},
	},
};
use binius_math::MultilinearPoly;
use vsim::{csmodel::Model, *};

mod merkle;
mod tables;

type P = PackedType<OptimalUnderlier, B128>;
type Seg<'a> = TableWitnessSegment<'a, P>;
type Ev = Vec<u64>;

const REAL: &str = "the M3 table builder, compiler, witness index and fillers, the gadgets, rayon's parallel iterators and \
	validate_witness";
const STUB: &str = "the proof system itself (a reference model decides whether an assignment satisfies the compiled constraints)";

// ---------------------------------------------------------------- gadgets

#[derive(Clone)]
enum Port {
	/// little-endian bits, one column each
	Bits(Vec<ColumnId>),
	/// `v` cells of `w` bits per row
	Cells(ColumnId, usize, u32),
}

type Fill = Box<dyn Fn(&[Ev], &mut Seg) -> anyhow::Result<()> + Send + Sync>;
type Rel = Box<dyn Fn(&[u128], &[u128]) -> bool + Send + Sync>;

struct Gadget {
	cs: ConstraintSystem,
	table: TableId,
	name: String,
	ins: Vec<Port>,
	outs: Vec<Port>,
	fill: Fill,
	rel: Rel,
	/// inputs drawn from the event, in the order of `ins`
	event: fn(&mut Rng) -> Ev,
	big: bool,
	/// reads the outputs back through the gadget, one state per row
	probe: Option<Probe>,
	/// what may be read through a channel: the table behind it is assumed to hold just that
	reads: Option<fn(u128) -> bool>,
}
type Probe = Box<dyn Fn(&mut TableWitnessIndex<'_, '_, P>) -> anyhow::Result<Vec<[B8; 64]>>>;

struct Filler<'a> {
	id: TableId,
	f: &'a (dyn Fn(&[Ev], &mut Seg) -> anyhow::Result<()> + Send + Sync),
}

impl TableFiller<P> for Filler<'_> {
	type Event = Ev;
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[Ev], w: &mut Seg) -> anyhow::Result<()> {
		(self.f)(rows, w)
	}
}

fn bits<const N: usize>(c: &[Col<B1>; N]) -> Port {
	Port::Bits(c.iter().map(|c| c.id()).collect())
}
fn v32(c: Col<B1, 32>) -> Port {
	Port::Cells(c.id(), 32, 1)
}
fn bit(c: Col<B1>) -> Port {
	Port::Bits(vec![c.id()])
}
fn b32(c: Col<B32>) -> Port {
	Port::Cells(c.id(), 1, 32)
}
fn b64(c: Col<B64>) -> Port {
	Port::Cells(c.id(), 1, 64)
}

fn put_bits<const N: usize>(w: &Seg, cols: &[Col<B1>; N], rows: &[Ev], k: usize) -> anyhow::Result<()> {
	for (j, c) in cols.iter().enumerate() {
		let mut d = w.get_mut(*c)?;
		for (i, r) in rows.iter().enumerate() {
			set_packed_slice(&mut d, i, B1::from(r[k] >> j & 1 == 1));
		}
	}
	Ok(())
}

fn put32(w: &Seg, col: Col<B1, 32>, rows: &[Ev], k: usize) -> anyhow::Result<()> {
	let mut d = w.get_mut_as::<u32, _, 32>(col)?;
	for (i, r) in rows.iter().enumerate() {
		d[i] = r[k] as u32;
	}
	Ok(())
}

fn e32(r: &mut Rng) -> u64 {
	match r.below(10) {
		0 => 0,
		1 => 1,
		2 => 0xffff_ffff,
		3 => 0x8000_0000,
		4 => 0x7fff_ffff,
		5 => r.below(16),
		6 => 0xffff_ffff - r.below(16),
		7 => 1 << r.below(32),
		_ => r.next() & 0xffff_ffff,
	}
}

fn e64(r: &mut Rng) -> u64 {
	match r.below(10) {
		0 => 0,
		1 => 1,
		2 => u64::MAX,
		3 => 1 << 63,
		4 => e32(r),
		5 => r.below(16),
		6 => u64::MAX - r.below(16),
		7 => 1 << r.below(64),
		_ => r.next(),
	}
}

fn ev2(r: &mut Rng) -> Ev {
	vec![e32(r), e32(r), r.below(2)]
}
fn ev2w(r: &mut Rng) -> Ev {
	vec![e64(r), e64(r), r.below(2)]
}
fn ev_div(r: &mut Rng) -> Ev {
	let (mut p, mut q) = (e32(r), e32(r));
	if q == 0 {
		q = 1 + r.below(7);
	}
	if r.chance(1, 4) {
		p = (p / q) * q;
	}
	if r.chance(1, 6) {
		p = (r.next() as u32).wrapping_mul(q as u32).into();
	}
	vec![p, q]
}
fn ev_div_s(r: &mut Rng) -> Ev {
	let mut e = ev_div(r);
	if r.chance(1, 4) {
		// an exact multiple
		let d = (e[0] as u32 as i32).checked_div(e[1] as u32 as i32).unwrap_or(1);
		if let Some(p) = d.checked_mul(e[1] as u32 as i32) {
			e[0] = u64::from(p as u32);
		}
	}
	if e[0] == 0x8000_0000 && e[1] == 0xffff_ffff {
		e[1] = 1;
	}
	e
}
fn ev_shift(r: &mut Rng) -> Ev {
	vec![e32(r), r.below(1 << 16)]
}
fn ev_state(r: &mut Rng) -> Ev {
	let k = r.below(4);
	(0..25).map(|_| if k == 0 { 0 } else { e64(r) }).collect()
}
fn ev_bytes(r: &mut Rng) -> Ev {
	let k = r.below(4);
	(0..64).map(|_| if k == 0 { 0 } else { r.below(256) }).collect()
}
fn ev_words(r: &mut Rng) -> Ev {
	(0..16).map(|_| e32(r)).collect()
}

fn mk(
	cs: ConstraintSystem,
	name: impl ToString,
	ins: Vec<Port>,
	outs: Vec<Port>,
	event: fn(&mut Rng) -> Ev,
	fill: Fill,
	rel: Rel,
) -> Gadget {
	Gadget { cs, table: 0, name: name.to_string(), ins, outs, fill, rel, event, big: false, probe: None, reads: None }
}

const N_KINDS: u64 = 26;

fn signed(v: u128) -> i64 {
	v as u32 as i32 as i64
}

fn build(kind: u64, flags: u64) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let (f0, f1, f2) = (flags & 1 == 1, flags >> 1 & 1 == 1, flags >> 2 & 1 == 1);
	match kind {
		0 => {
			let x = t.add_committed::<B1, 32>("x");
			let y = t.add_committed::<B1, 32>("y");
			let c = f0.then(|| t.add_committed::<B1, 32>("c"));
			let g = U32Add::new(
				&mut t,
				x,
				y,
				U32AddFlags { carry_in_bit: c, commit_zout: f1, expose_final_carry: f2 },
			);
			let mut ins = vec![v32(x), v32(y)];
			ins.extend(c.map(v32));
			let mut outs = vec![v32(g.zout)];
			outs.extend(g.final_carry.map(bit));
			mk(
				cs,
				format!("U32Add{flags}"),
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					put32(w, x, rows, 0)?;
					put32(w, y, rows, 1)?;
					if let Some(c) = c {
						put32(w, c, rows, 2)?;
					}
					g.populate(w)
				}),
				Box::new(|i, o| {
					// the carry input is documented to be zero but for its first bit
					let c = i.get(2).copied().unwrap_or(0);
					if c > 1 {
						return true;
					}
					let s = i[0] + i[1] + c;
					o[0] == s & 0xffff_ffff && o.get(1).is_none_or(|c| *c == s >> 32)
				}),
			)
		}
		1 => {
			const V: usize = 128;
			let x = t.add_committed::<B1, V>("x");
			let y = t.add_committed::<B1, V>("y");
			let c = f0.then(|| t.add_committed::<B1, V>("c"));
			let g = U32AddStacked::<V>::new(&mut t, x, y, f1, c);
			let p = |c: Col<B1, V>| Port::Cells(c.id(), V, 1);
			let mut ins = vec![p(x), p(y)];
			ins.extend(c.map(p));
			let outs = vec![p(g.zout)];
			mk(
				cs,
				format!("U32AddStacked{flags}"),
				ins,
				outs,
				|r| {
					let mut e: Ev = (0..8).map(|_| e32(r)).collect();
					e.extend((0..4).map(|_| r.below(2)));
					e
				},
				Box::new(move |rows, w| {
					let put = |col: Col<B1, V>, k: usize| -> anyhow::Result<()> {
						let mut d = w.get_mut_as::<u32, _, V>(col)?;
						for (i, r) in rows.iter().enumerate() {
							for j in 0..4 {
								d[4 * i + j] = r[k + j] as u32;
							}
						}
						Ok(())
					};
					put(x, 0)?;
					put(y, 4)?;
					if let Some(c) = c {
						put(c, 8)?;
					}
					g.populate(w)
				}),
				Box::new(|i, o| {
					(0..4).all(|j| {
						let l = |v: u128| v >> (32 * j) & 0xffff_ffff;
						let c = i.get(2).map_or(0, |v| l(*v));
						c > 1 || l(o[0]) == (l(i[0]) + l(i[1]) + c) & 0xffff_ffff
					})
				}),
			)
		}
		2 => wide_add::<u32, 32>(cs, flags, ev2),
		3 => wide_add::<u64, 64>(cs, flags, ev2w),
		4 => {
			let x = t.add_committed::<B1, 32>("x");
			let y = t.add_committed::<B1, 32>("y");
			let c = f0.then(|| t.add_committed::<B1, 32>("b"));
			let g = U32Sub::new(
				&mut t,
				x,
				y,
				U32SubFlags { borrow_in_bit: c, commit_zout: f1, expose_final_borrow: f2 },
			);
			let mut ins = vec![v32(x), v32(y)];
			ins.extend(c.map(v32));
			let mut outs = vec![v32(g.zout)];
			outs.extend(g.final_borrow.map(bit));
			mk(
				cs,
				format!("U32Sub{flags}"),
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					put32(w, x, rows, 0)?;
					put32(w, y, rows, 1)?;
					if let Some(c) = c {
						put32(w, c, rows, 2)?;
					}
					g.populate(w)
				}),
				Box::new(|i, o| {
					let c = i.get(2).copied().unwrap_or(0);
					if c > 1 {
						return true;
					}
					let s = (i[0] | 1 << 32) - i[1] - c;
					o[0] == s & 0xffff_ffff && o.get(1).is_none_or(|b| *b == 1 - (s >> 32))
				}),
			)
		}
		5 => wide_sub::<u32, 32>(cs, flags, ev2),
		6 => wide_sub::<u64, 64>(cs, flags, ev2w),
		7 => incr_gadget::<u32, 32>(cs, ev2),
		8 => incr_gadget::<u64, 64>(cs, ev2w),
		9 => twos::<u32, 32>(cs, ev2),
		10 => twos::<u64, 64>(cs, ev2w),
		11 => {
			let g = MulUU32::new(&mut t);
			let (ins, outs) = (vec![b32(g.xin), b32(g.yin)], vec![b32(g.out_low), b32(g.out_high)]);
			mk(
				cs,
				"MulUU32",
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B32::new(r[k] as u32));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| o[0] | o[1] << 32 == i[0] * i[1]),
			)
		}
		12 => {
			let g = MulUU64::new(&mut t);
			let (ins, outs) = (vec![b64(g.xin), b64(g.yin)], vec![b64(g.out_low), b64(g.out_high)]);
			mk(
				cs,
				"MulUU64",
				ins,
				outs,
				ev2w,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B64::new(r[k]));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| o[0] | o[1] << 64 == i[0] * i[1]),
			)
		}
		13 => {
			let g = MulSS32::new(&mut t);
			let (ins, outs) = (vec![b32(g.xin), b32(g.yin)], vec![b32(g.out_low), b32(g.out_high), bits(&g.out_bits)]);
			mk(
				cs,
				"MulSS32",
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B32::new(r[k] as u32));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| {
					let s = (signed(i[0]) * signed(i[1])) as u64 as u128;
					o[0] | o[1] << 32 == s && o[2] == s
				}),
			)
		}
		14 => {
			let g = MulSU32::new(&mut t);
			let (ins, outs) = (vec![b32(g.xin), b32(g.yin)], vec![b32(g.out_low), b32(g.out_high)]);
			mk(
				cs,
				"MulSU32",
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B32::new(r[k] as u32));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| {
					o[0] | o[1] << 32 == signed(i[0]).wrapping_mul(i[1] as i64) as u64 as u128
				}),
			)
		}
		15 => {
			let g = DivUU32::new(&mut t);
			let (ins, outs) = (vec![b32(g.p_in), b32(g.q_in)], vec![b32(g.out_div), b32(g.out_rem)]);
			mk(
				cs,
				"DivUU32",
				ins,
				outs,
				ev_div,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B32::new(r[k] as u32));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| i[1] != 0 && o[0] == i[0] / i[1] && o[1] == i[0] % i[1]),
			)
		}
		16 => {
			let g = DivSS32::new(&mut t);
			let (ins, outs) = (
				vec![b32(g.p_in), b32(g.q_in)],
				vec![b32(g.out_div), b32(g.out_rem), bits(&g.out_div_bits), bits(&g.out_rem_bits)],
			);
			mk(
				cs,
				"DivSS32",
				ins,
				outs,
				ev_div_s,
				Box::new(move |rows, w| {
					let v = |k: usize| rows.iter().map(move |r| B32::new(r[k] as u32));
					g.populate_with_inputs(w, v(0), v(1))
				}),
				Box::new(|i, o| {
					let (p, q) = (signed(i[0]), signed(i[1]));
					q != 0
						&& o[0] == u128::from((p / q) as i32 as u32)
						&& (p / q) == signed(o[0])
						&& o[1] == u128::from((p % q) as i32 as u32)
						&& o[2] == o[0] && o[3] == o[1]
				}),
			)
		}
		17 => {
			let x = t.add_committed::<B1, 32>("x");
			let s = t.add_committed::<B1, 16>("s");
			let variant =
				[ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight, ShiftVariant::CircularLeft][flags as usize % 3];
			let g = BarrelShifter::new(&mut t, x, s, variant);
			let (ins, outs) = (vec![v32(x), Port::Cells(s.id(), 16, 1)], vec![v32(g.output)]);
			mk(
				cs,
				format!("BarrelShifter{:?}", variant),
				ins,
				outs,
				ev_shift,
				Box::new(move |rows, w| {
					put32(w, x, rows, 0)?;
					{
						let mut d = w.get_mut_as::<u16, _, 16>(s)?;
						for (i, r) in rows.iter().enumerate() {
							d[i] = r[1] as u16;
						}
					}
					g.populate(w)
				}),
				Box::new(move |i, o| {
					let (x, k) = (i[0] as u32, (i[1] & 31) as u32);
					u128::from(match variant {
						ShiftVariant::LogicalLeft => x << k,
						ShiftVariant::LogicalRight => x >> k,
						ShiftVariant::CircularLeft => x.rotate_left(k),
					}) == o[0]
				}),
			)
		}
		18 => sign::<u32, 32>(cs, ev2),
		19 => sign::<u64, 64>(cs, ev2w),
		20 => {
			let g = keccak::stacked::Keccakf::new(&mut t);
			keccak_gadget(cs, g)
		}
		21 => {
			let variant = if f0 { groestl::PermutationVariant::Q } else { groestl::PermutationVariant::P };
			let st: [Col<B8, 8>; 8] = t.add_committed_multiple("state");
			let g = Arc::new(groestl::Permutation::new(&mut t, variant, st));
			let g2 = g.clone();
			let p = |c: Col<B8, 8>| Port::Cells(c.id(), 8, 8);
			let (ins, outs) = (g.state_in().map(p).to_vec(), g.state_out().map(p).to_vec());
			let mut gd = mk(
				cs,
				format!("Groestl{}", if f0 { "Q" } else { "P" }),
				ins,
				outs,
				ev_bytes,
				Box::new(move |rows, w| {
					let st: Vec<[B8; 64]> =
						rows.iter().map(|r| array::from_fn(|i| B8::new(r[i] as u8))).collect();
					g.populate_state_in(w, &st)?;
					g.populate(w)
				}),
				Box::new(move |i, o| {
					let s: [B8; 64] = array::from_fn(|k| B8::new((i[k % 8] >> (8 * (k / 8))) as u8));
					let want = groestl_ref(s, f0);
					(0..64).all(|k| (o[k % 8] >> (8 * (k / 8))) as u8 == want[k].val())
				}),
			);
			gd.probe = Some(Box::new(move |ix| {
				let mut seg = ix.full_segment();
				Ok(g2.read_state_outs(&mut seg)?.collect())
			}));
			gd.big = true;
			gd
		}
		22 => {
			let g = sha256::Sha256::new(&mut t);
			let (ins, outs) = (g.state_in.map(v32).to_vec(), g.state_out.map(v32).to_vec());
			let mut gd = mk(
				cs,
				"Sha256",
				ins,
				outs,
				ev_words,
				Box::new(move |rows, w| {
					let b: Vec<[u32; 16]> = rows.iter().map(|r| array::from_fn(|i| r[i] as u32)).collect();
					g.populate(w, b.iter())
				}),
				Box::new(|i, o| {
					let m: [u32; 16] = array::from_fn(|k| i[k] as u32);
					let want = sha_ref(&m);
					(0..8).all(|k| o[k] as u32 == want[k])
				}),
			);
			gd.big = true;
			gd
		}
		24 => {
			let mut cs = ConstraintSystem::new();
			let chan = cs.add_channel("lookup");
			let mut t = cs.add_table("t");
			let g = keccak::lookedup::KeccakfLookedup::new(&mut t, chan);
			let mut gd = keccak_gadget2(cs, g);
			gd.reads = Some(|v| v >> 24 == 0 && (v >> 16) as u8 == v as u8 & (v >> 8) as u8);
			gd
		}
		25 => {
			t.require_power_of_two_size();
			let x = t.add_committed::<B32, 1>("x");
			let i = t.add_structured::<B32>(
				"index",
				StructuredDynSize::Incrementing { max_size_log: [32, 12, 20, 10][flags as usize & 3] },
			);
			let z = t.add_computed("z", x + i);
			let (ins, outs) = (vec![b32(x)], vec![b32(i), b32(z)]);
			mk(
				cs,
				format!("Incrementing{}", flags & 3),
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					fill_incrementing_b32(w, i)?;
					let mut xs = w.get_mut_as::<u32, _, 1>(x)?;
					let mut zs = w.get_mut_as::<u32, _, 1>(z)?;
					let is = w.get_as::<u32, _, 1>(i)?;
					for k in 0..is.len() {
						xs[k] = rows[k.min(rows.len() - 1)][0] as u32;
						zs[k] = xs[k] ^ is[k];
					}
					Ok(())
				}),
				Box::new(|i, o| o[1] == o[0] ^ i[0]),
			)
		}
		_ => {
			// chained: (x + y) - y, then shifted: what one gadget hands to the next
			let x: [Col<B1>; 32] = t.add_committed_multiple("x");
			let y: [Col<B1>; 32] = t.add_committed_multiple("y");
			let a = WideAdd::<u32, 32>::new(
				&mut t,
				x,
				y,
				U32AddFlags { commit_zout: f0, ..Default::default() },
			);
			let s = WideSub::<u32, 32>::new(
				&mut t,
				a.z_out,
				y,
				U32SubFlags { commit_zout: f1, expose_final_borrow: true, ..Default::default() },
			);
			let (ins, outs) = (
				vec![bits(&x), bits(&y)],
				vec![bits(&a.z_out), bit(a.final_carry_out), bits(&s.zout), bit(s.final_borrow.unwrap())],
			);
			mk(
				cs,
				format!("AddSub{}", flags & 3),
				ins,
				outs,
				ev2,
				Box::new(move |rows, w| {
					put_bits(w, &x, rows, 0)?;
					put_bits(w, &y, rows, 1)?;
					a.populate(w)?;
					s.populate(w)
				}),
				Box::new(|i, o| {
					let z = i[0] + i[1];
					o[0] == z & 0xffff_ffff && o[1] == z >> 32 && o[2] == i[0] && o[3] == z >> 32
				}),
			)
		}
	}
}

fn wide_add<U: binius_m3::gadgets::add::UnsignedAddPrimitives + Send + Sync + 'static, const N: usize>(
	_: ConstraintSystem,
	flags: u64,
	event: fn(&mut Rng) -> Ev,
) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let y: [Col<B1>; N] = t.add_committed_multiple("y");
	let c = (flags & 1 == 1).then(|| t.add_committed::<B1, 32>("c"));
	let g = WideAdd::<U, N>::new(
		&mut t,
		x,
		y,
		U32AddFlags { carry_in_bit: c, commit_zout: flags >> 1 & 1 == 1, expose_final_carry: true },
	);
	let mut ins = vec![bits(&x), bits(&y)];
	ins.extend(c.map(v32));
	let outs = vec![bits(&g.z_out), bit(g.final_carry_out)];
	mk(
		cs,
		format!("WideAdd{N}_{}", flags & 3),
		ins,
		outs,
		event,
		Box::new(move |rows, w| {
			put_bits(w, &x, rows, 0)?;
			put_bits(w, &y, rows, 1)?;
			if let Some(c) = c {
				put32(w, c, rows, 2)?;
			}
			g.populate(w)
		}),
		Box::new(|i, o| {
			let c = i.get(2).copied().unwrap_or(0);
			let s = i[0] + i[1] + (c & 1);
			c > 1 || (o[0] == s & ((1 << N) - 1) && o[1] == s >> N)
		}),
	)
}

fn wide_sub<U: binius_m3::gadgets::add::UnsignedAddPrimitives + Send + Sync + 'static, const N: usize>(
	_: ConstraintSystem,
	flags: u64,
	event: fn(&mut Rng) -> Ev,
) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let y: [Col<B1>; N] = t.add_committed_multiple("y");
	let c = (flags & 1 == 1).then(|| t.add_committed::<B1, 32>("b"));
	let g = WideSub::<U, N>::new(
		&mut t,
		x,
		y,
		U32SubFlags {
			borrow_in_bit: c,
			commit_zout: flags >> 1 & 1 == 1,
			expose_final_borrow: flags >> 2 & 1 == 1,
		},
	);
	let mut ins = vec![bits(&x), bits(&y)];
	ins.extend(c.map(v32));
	let mut outs = vec![bits(&g.zout)];
	outs.extend(g.final_borrow.map(bit));
	mk(
		cs,
		format!("WideSub{N}_{}", flags & 7),
		ins,
		outs,
		event,
		Box::new(move |rows, w| {
			put_bits(w, &x, rows, 0)?;
			put_bits(w, &y, rows, 1)?;
			if let Some(c) = c {
				put32(w, c, rows, 2)?;
			}
			g.populate(w)
		}),
		Box::new(|i, o| {
			let c = i.get(2).copied().unwrap_or(0);
			let s = (i[0] | 1 << N) - i[1] - (c & 1);
			c > 1 || (o[0] == s & ((1 << N) - 1) && o.get(1).is_none_or(|b| *b == 1 - (s >> N)))
		}),
	)
}

fn incr_gadget<U: binius_m3::gadgets::add::UnsignedAddPrimitives + Send + Sync + 'static, const N: usize>(
	_: ConstraintSystem,
	event: fn(&mut Rng) -> Ev,
) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let g = Incr::<U, N>::new(&mut t, x);
	let (ins, outs) = (vec![bits(&x)], vec![bits(&g.zout), bit(g.final_carry_out)]);
	mk(
		cs,
		format!("Incr{N}"),
		ins,
		outs,
		event,
		Box::new(move |rows, w| {
			put_bits(w, &x, rows, 0)?;
			g.populate(w)
		}),
		Box::new(|i, o| o[0] == (i[0] + 1) & ((1 << N) - 1) && o[1] == (i[0] + 1) >> N),
	)
}

fn twos<U: binius_m3::gadgets::add::UnsignedAddPrimitives + Send + Sync + 'static, const N: usize>(
	_: ConstraintSystem,
	event: fn(&mut Rng) -> Ev,
) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let g = TwosComplement::<U, N>::new(&mut t, x);
	let (ins, outs) = (vec![bits(&x)], vec![bits(&g.result_bits)]);
	mk(
		cs,
		format!("TwosComplement{N}"),
		ins,
		outs,
		event,
		Box::new(move |rows, w| {
			put_bits(w, &x, rows, 0)?;
			g.populate(w)
		}),
		Box::new(|i, o| (o[0] + i[0]) & ((1 << N) - 1) == 0),
	)
}

fn sign<U: binius_m3::gadgets::add::UnsignedAddPrimitives + Send + Sync + 'static, const N: usize>(
	_: ConstraintSystem,
	event: fn(&mut Rng) -> Ev,
) -> Gadget {
	let mut cs = ConstraintSystem::new();
	let mut t: TableBuilder = cs.add_table("t");
	let x: [Col<B1>; N] = t.add_committed_multiple("x");
	let c: [Col<B1>; 1] = t.add_committed_multiple("cond");
	let g = SignConverter::<U, N>::new(&mut t, x, c[0].into());
	let (ins, outs) = (vec![bits(&x), bits(&c)], vec![bits(&g.converted_bits)]);
	mk(
		cs,
		format!("SignConverter{N}"),
		ins,
		outs,
		event,
		Box::new(move |rows, w| {
			put_bits(w, &x, rows, 0)?;
			put_bits(w, &c, &rows.iter().map(|r| vec![r[1] & 1]).collect::<Vec<_>>(), 0)?;
			g.populate(w)?;
			// documented: the caller fills converted_bits
			let rows: Vec<Ev> =
				rows.iter().map(|r| vec![if r[1] & 1 == 1 { r[0].wrapping_neg() } else { r[0] }]).collect();
			put_bits(w, &g.converted_bits, &rows, 0)
		}),
		Box::new(|i, o| {
			let m = (1u128 << N) - 1;
			if i[1] == 1 { (o[0] + i[0]) & m == 0 } else { o[0] == i[0] }
		}),
	)
}

fn keccak_ref(s: &[u64]) -> [u64; 25] {
	let mut a: [u64; 25] = array::from_fn(|i| s[i]);
	let mut lfsr = 1u8;
	for _ in 0..24 {
		let c: [u64; 5] = array::from_fn(|x| (0..5).fold(0, |v, y| v ^ a[x + 5 * y]));
		for x in 0..5 {
			let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
			for y in 0..5 {
				a[x + 5 * y] ^= d;
			}
		}
		let (mut x, mut y, mut cur) = (1, 0, a[1]);
		for t in 0..24u32 {
			(x, y) = (y, (2 * x + 3 * y) % 5);
			let i = x + 5 * y;
			(cur, a[i]) = (a[i], cur.rotate_left((t + 1) * (t + 2) / 2 % 64));
		}
		for y in 0..5 {
			let r: [u64; 5] = array::from_fn(|x| a[x + 5 * y]);
			for x in 0..5 {
				a[x + 5 * y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
			}
		}
		for j in 0..7 {
			if lfsr & 1 == 1 {
				a[0] ^= 1 << ((1u32 << j) - 1);
			}
			lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
		}
	}
	a
}

fn keccak_gadget(cs: ConstraintSystem, g: keccak::stacked::Keccakf) -> Gadget {
	let idx: Vec<(usize, usize)> = (0..25).map(|i| (i % 5, i / 5)).collect();
	let ins = idx.iter().map(|&k| b64(g.input[k])).collect();
	let outs = idx.iter().map(|&k| b64(g.output[k])).collect();
	let mut gd = mk(
		cs,
		"Keccakf",
		ins,
		outs,
		ev_state,
		Box::new(move |rows, w| {
			let st: Vec<_> = rows
				.iter()
				.map(|r| keccak::StateMatrix::from_fn(|(x, y)| r[x + 5 * y]))
				.collect();
			g.populate_state_in(w, st.iter())?;
			g.populate(w)
		}),
		Box::new(|i, o| {
			let s: Vec<u64> = i.iter().map(|v| *v as u64).collect();
			let want = keccak_ref(&s);
			(0..25).all(|k| o[k] as u64 == want[k])
		}),
	);
	gd.big = true;
	gd
}

fn keccak_gadget2(cs: ConstraintSystem, g: keccak::lookedup::KeccakfLookedup) -> Gadget {
	let idx: Vec<(usize, usize)> = (0..25).map(|i| (i % 5, i / 5)).collect();
	let ins = idx.iter().map(|&k| b64(g.input[k])).collect();
	let outs = idx.iter().map(|&k| b64(g.output[k])).collect();
	let mut gd = mk(
		cs,
		"KeccakfLookedup",
		ins,
		outs,
		ev_state,
		Box::new(move |rows, w| {
			let st: Vec<_> = rows
				.iter()
				.map(|r| keccak::StateMatrix::from_fn(|(x, y)| r[x + 5 * y]))
				.collect();
			g.populate_state_in(w, st.iter())?;
			g.populate(w)
		}),
		Box::new(|i, o| {
			let s: Vec<u64> = i.iter().map(|v| *v as u64).collect();
			let want = keccak_ref(&s);
			(0..25).all(|k| o[k] as u64 == want[k])
		}),
	);
	gd.big = true;
	gd
}

fn sha_ref(m: &[u32; 16]) -> [u32; 8] {
	// fractional parts of the square and cube roots of the first primes, by integer arithmetic
	let primes: Vec<u128> = (2u128..).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
	let root = |p: u128, k: u32| -> u32 {
		// floor(p^(1/k) * 2^32) mod 2^32
		let (mut lo, mut hi) = (0u128, 1u128 << 40);
		while lo + 1 < hi {
			let mid = (lo + hi) / 2;
			let ok = if k == 2 {
				mid * mid <= p << 64
			} else {
				// mid < 2^40, so mid^3 < 2^120 and p * 2^96 < 2^105
				mid * mid * mid <= p << 96
			};
			if ok { lo = mid } else { hi = mid }
		}
		lo as u32
	};
	let h0: [u32; 8] = array::from_fn(|i| root(primes[i], 2));
	let k: [u32; 64] = array::from_fn(|i| root(primes[i], 3));
	let mut w = [0u32; 64];
	w[..16].copy_from_slice(m);
	for t in 16..64 {
		let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
		let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
		w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
	}
	let mut v = h0;
	for t in 0..64 {
		let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
		let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
		let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
		let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
		let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
		let t2 = s0.wrapping_add(maj);
		v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
	}
	array::from_fn(|i| v[i].wrapping_add(h0[i]))
}

/// The Groestl permutation in the AES field, moved to and from the tower field by the isomorphism
/// that sends the AES generator x to a root of x^8+x^4+x^3+x+1 in B8.
fn groestl_ref(s: [B8; 64], q: bool) -> [B8; 64] {
	use binius_field::AESTowerField8b as A8;
	let gmul = |mut a: u8, mut b: u8| {
		let mut r = 0u8;
		while b != 0 {
			if b & 1 == 1 {
				r ^= a;
			}
			a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
			b >>= 1;
		}
		r
	};
	let sbox = |x: u8| {
		let mut inv = 1u8;
		for _ in 0..254 {
			inv = gmul(inv, x);
		}
		inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
	};
	// byte k of the state is row k % 8, column k / 8
	let mut a: [u8; 64] = array::from_fn(|k| A8::from(s[k]).val());
	for r in 0..10u8 {
		for k in 0..64 {
			let (row, col) = (k % 8, (k / 8) as u8);
			if q {
				a[k] ^= 0xff;
				if row == 7 {
					a[k] ^= (col << 4) ^ r;
				}
			} else if row == 0 {
				a[k] ^= (col << 4) ^ r;
			}
		}
		let sh = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
		let b: [u8; 64] = array::from_fn(|k| {
			let (row, col) = (k % 8, k / 8);
			sbox(a[row + 8 * ((col + sh[row]) % 8)])
		});
		let m = [2u8, 2, 3, 4, 5, 3, 5, 7];
		a = array::from_fn(|k| {
			let (row, col) = (k % 8, k / 8);
			(0..8).fold(0, |v, j| v ^ gmul(m[(j + 8 - row) % 8], b[j + 8 * col]))
		});
	}
	array::from_fn(|k| B8::from(A8::new(a[k])))
}

// ---------------------------------------------------------------- the model around a filled table

struct Map {
	table_of: Vec<usize>,
	oracle: BTreeMap<ColumnId, usize>,
	constant: BTreeMap<usize, Vec<B128>>,
}

/// Oracles are made in column order; a constant column makes two.
fn map(cs: &ConstraintSystem) -> Map {
	let mut m = Map { table_of: Vec::new(), oracle: BTreeMap::new(), constant: BTreeMap::new() };
	for (t, table) in cs.tables.iter().enumerate() {
		for c in &table.columns {
			if let ColumnDef::Constant { data, .. } = &c.col {
				m.constant.insert(m.table_of.len(), data.clone());
				m.table_of.push(t);
			}
			m.oracle.insert(c.id, m.table_of.len());
			m.table_of.push(t);
		}
	}
	m
}

fn port(m: &Model, map: &Map, p: &Port, row: usize) -> u128 {
	match p {
		Port::Bits(c) => c.iter().enumerate().fold(0, |v, (j, c)| v | m.val[map.oracle[c]][row].val() << j),
		Port::Cells(c, n, w) => {
			let d = &m.val[map.oracle[c]];
			(0..*n).fold(0, |v, j| v | d[row * n + j].val() << (j as u32 * w))
		}
	}
}

fn dense(w: &MultilinearExtensionIndex<'_, P>, o: usize, len: usize) -> Option<Vec<B128>> {
	let p = w.get_multilin_poly(OracleId::from_index(o)).ok()?;
	if 1usize << p.n_vars() != len {
		return None;
	}
	(0..len).map(|i| p.evaluate_on_hypercube(i).ok()).collect()
}

type Ccs = binius_core::constraint_system::ConstraintSystem<B128>;

fn model(ccs: &Ccs, sizes: &[usize], map: &Map, wit: &MultilinearExtensionIndex<'_, P>) -> Result<Model, String> {
	Model::new(ccs, sizes, &map.table_of, &|o, len| dense(wit, o, len), &|o| map.constant.get(&o).cloned())
}

/// The honest witness against the model: every filled column is what its definition says.
fn honest_columns(m: &Model, w: &MultilinearExtensionIndex<'_, P>) -> Result<(), String> {
	for o in 0..m.val.len() {
		if !m.present(o) || m.is_exp(o) {
			continue;
		}
		let Some(d) = dense(w, o, m.val[o].len()) else {
			return Err(format!("witness: no column of the right size for '{}'", m.label[o]));
		};
		if let Some(i) = (0..d.len()).find(|&i| d[i] != m.val[o][i]) {
			return Err(format!(
				"witness: column '{}' holds {:?} at {i}, its definition gives {:?}",
				m.label[o], d[i], m.val[o][i]
			));
		}
	}
	Ok(())
}

/// The reads of a row that no lookup table would serve.
fn bad_read(m: &Model, ccs: &Ccs, ok: fn(u128) -> bool, row: usize) -> Option<u128> {
	use binius_core::constraint_system::channel::OracleOrConst;
	ccs.flushes.iter().find_map(|fl| {
		let n = 1usize << fl.log_values_per_row;
		fl.oracles.iter().find_map(|o| match o {
			OracleOrConst::Oracle(o) => (row * n..(row + 1) * n).map(|x| m.val[o.index()][x].val()).find(|v| !ok(*v)),
			_ => None,
		})
	})
}

/// Changes committed bits of a row so that what is read is offered by the table again, taking the
/// reads in the order they were declared. Only the third byte of a read (its result) is touched.
fn mend_reads(
	m: &mut Model,
	ccs: &Ccs,
	ok: fn(u128) -> bool,
	row: usize,
	committed: &[usize],
	pinned: &BTreeSet<(usize, usize)>,
) {
	use binius_core::constraint_system::channel::OracleOrConst;
	for _ in 0..2 {
		let mut changed = false;
		for fl in &ccs.flushes {
			let n = 1usize << fl.log_values_per_row;
			let Some(OracleOrConst::Oracle(o)) = fl.oracles.first() else { continue };
			let o = o.index();
			// the column of the results
			let mut col = None;
			for x in row * n..(row + 1) * n {
				let v = m.val[o][x].val();
				if ok(v) {
					continue;
				}
				let want = (v & 0xffff) | (v & (v >> 8) & 255) << 16;
				if col.is_none() {
					col = committed.iter().copied().rev().find(|&c| {
						if m.level[c] != 0 || m.lv[c] != fl.log_values_per_row + 3 {
							return false;
						}
						let old = m.val[c][x * 8];
						m.set((c, x * 8), old + B128::ONE);
						let hit = m.val[o][x].val() == v ^ 1 << 16;
						m.set((c, x * 8), old);
						hit
					});
				}
				let Some(c) = col else { break };
				for b in 0..8 {
					if (v ^ want) >> (16 + b) & 1 == 1 && !pinned.contains(&(c, x * 8 + b)) {
						let old = m.val[c][x * 8 + b];
						m.set((c, x * 8 + b), old + B128::ONE);
						changed = true;
					}
				}
			}
		}
		if !changed {
			return;
		}
	}
}

fn caught<T>(what: &str, r: std::thread::Result<T>) -> Result<T, String> {
	r.map_err(|_| format!("panic: {what}: {:?}", take_panics()))
}

/// Which inputs a gadget's event carries, as port values.
fn event_values(g: &Gadget, e: &Ev) -> Vec<u128> {
	if g.name.starts_with("U32AddStacked") {
		let l = |k: usize| (0..4).fold(0u128, |v, j| v | u128::from(e[k + j]) << (32 * j));
		return (0..g.ins.len()).map(|i| l(4 * i)).collect();
	}
	if g.name.starts_with("Groestl") {
		return (0..8).map(|i| (0..8).fold(0u128, |v, j| v | u128::from(e[j * 8 + i]) << (8 * j))).collect();
	}
	if g.name.starts_with("SignConverter") {
		return vec![e[0].into(), (e[1] & 1).into()];
	}
	g.ins.iter().zip(e).map(|(_, v)| u128::from(*v)).collect()
}

/// What only the simulated main thread touches while it runs.
struct OneThread<T>(T);
unsafe impl<T> Send for OneThread<T> {}
impl<T> OneThread<T> {
	fn get(self) -> T {
		self.0
	}
}

struct Gadgets;
impl Scenario for Gadgets {
	fn name(&self) -> &'static str {
		"gadget"
	}
	fn weight(&self) -> u32 {
		6
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		let k = if r.chance(1, 12) { *r.pick(&[20, 21, 22, 24]) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 15, 16, 16, 17, 18, 19, 23, 25, 25]) };
		plan.set("kind", k);
		plan.set("flags", r.below(8));
		let big = (20..23).contains(&k) || k == 24;
		plan.set("rows", if big { r.range(1, 3) } else { *r.pick(&[1, 1, 2, 3, 4, 5, 8, 9, 17, 33, 64, 100, 150, 300, 520]) });
		plan.set("mode", *r.pick(&[0, 1, 2, 3, 3]));
		plan.set("seg", r.below(9));
		plan.set("data", r.next());
		if k == 24 {
			plan.faults.push(Fault::new("cheat", &[6, r.next()]));
		}
		for _ in 0..if big { r.range(1, 3) } else { r.range(3, 12) } {
			plan.faults.push(Fault::new("cheat", &[r.below(6), r.next()]));
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let g = build(plan.p("kind").min(N_KINDS - 1), plan.p("flags"));
		let mut n = plan.p("rows").max(1) as usize;
		if g.name.starts_with("Incrementing") {
			n = n.next_power_of_two();
		}
		let n = n;
		let mut r = Rng::new(plan.p("data"));
		let rows: Vec<Ev> = (0..n).map(|_| (g.event)(&mut r)).collect();
		cx.sample = format!("{} with {n} rows", g.name);
		cx.key = plan.p("data") ^ plan.p("kind") << 8 ^ plan.p("flags");
		let mut alloc = CpuComputeAllocator::<P>::new(1 << if g.big { 16 } else { 14 });
		let alloc = alloc.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&g.cs, &alloc);
		let f = Filler { id: g.table, f: &*g.fill };
		let seg = plan.p("seg") as usize;
		let mode = plan.p("mode");
		let rows2 = &rows;
		let table = g.table;
		let wr = OneThread((&mut w, &f));
		let filled = cx.sim(move || -> Result<(), M3Error> {
			let (w, f) = wr.get();
			match mode {
				0 => w.fill_table_sequential(f, rows2),
				1 => w.fill_table_parallel(f, rows2),
				2 => w.init_table(table, n)?.fill_sequential_with_segment_size(f, rows2, seg),
				_ => w.init_table(table, n)?.fill_parallel_with_segment_size(f, rows2, seg),
			}?;
			w.fill_constant_cols()
		});
		caught(&format!("filling {}", cx.sample), filled)?
			.map_err(|e| format!("fill: honest fill of {} fails: {e}", cx.sample))?;
		let ccs = g.cs.compile().map_err(|e| format!("compile: {}: {e}", g.name))?;
		if let Some(p) = &g.probe {
			let ix = w.get_table(g.table).ok_or("missing: the filled table is not there")?;
			let cap = ix.capacity();
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(ix)));
			let got = caught("reading the outputs", r)?.map_err(|e| format!("read-back: {}: {e}", g.name))?;
			let want: Vec<[B8; 64]> = (0..cap)
				.map(|row| groestl_ref(array::from_fn(|i| B8::new(rows[row.min(n - 1)][i] as u8)), g.name.ends_with('Q')))
				.collect();
			if got.len() != cap || got[..n] != want[..n] {
				return Err(format!("read-back: {} output states of {cap} read from {}", got.len(), cx.sample));
			}
		}
		let sizes = w.table_sizes();
		let wit = w.into_multilinear_extension_index();
		let map = map(&g.cs);
		let mut m = model(&ccs, &sizes, &map, &wit).map_err(|e| format!("model: {}: {e}", g.name))?;
		honest_columns(&m, &wit).map_err(|e| format!("{e} ({}, honest fill)", cx.sample))?;
		if let Some(b) = m.broken() {
			return Err(format!("incomplete: an honest fill of {} breaks {b}", cx.sample));
		}
		for row in 0..1usize << m.log_cap[0].unwrap() {
			let e = &rows[row.min(n - 1)];
			let ins: Vec<u128> = g.ins.iter().map(|p| port(&m, &map, p, row)).collect();
			let outs: Vec<u128> = g.outs.iter().map(|p| port(&m, &map, p, row)).collect();
			// rows past the last event repeat a filled one
			if row < n && ins != event_values(&g, e) {
				return Err(format!("inputs: {} row {row} holds {ins:x?} for event {e:x?}", cx.sample));
			}
			if let Some(v) = g.reads.and_then(|ok| bad_read(&m, &ccs, ok, row)).filter(|_| row < n) {
				return Err(format!("incomplete: an honest fill of {} reads {v:x} in row {row}", cx.sample));
			}
			if g.name.starts_with("Incrementing") && outs[0] != row as u128 {
				return Err(format!("wrong-value: {} row {row} holds the index {:x}", cx.sample, outs[0]));
			}
			if !(g.rel)(&ins, &outs) {
				return Err(format!("wrong-value: {} row {row}: {ins:x?} -> {outs:x?}", cx.sample));
			}
		}
		// reading every column point by point is what costs
		let cells = m.val.iter().map(|v| v.len()).sum::<usize>();
		if g.reads.is_some() {
			// the table behind the channel is not there
		} else if cells < 12_000 || cells < 60_000 && plan.p("data") % 16 == 0 {
			let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| validate_witness(&ccs, &[], &sizes, &wit)));
			caught(&format!("validate_witness of {}", cx.sample), v)?
				.map_err(|e| format!("validate: honest {} refused: {e}", cx.sample))?;
		}
		cx.nontrivial = true;
		cx.count(&g.name);
		// corrupted assignments
		let committed = m.committed_of(0);
		let cap = 1usize << m.log_cap[0].unwrap();
		let base = m.val.clone();
		for f in &plan.faults {
			let mut r = Rng::new(f.args[1]);
			let row = r.usize(cap);
			let mut pinned = BTreeSet::new();
			let cells = |m: &Model, p: &Port| -> Vec<(usize, usize)> {
				match p {
					Port::Bits(c) => c.iter().map(|c| (map.oracle[c], row)).collect::<Vec<(usize, usize)>>(),
					Port::Cells(c, n, _) => (0..*n).map(|j| (map.oracle[c], row * n + j)).collect::<Vec<(usize, usize)>>(),
				}
				.into_iter()
				.flat_map(|(o, x)| {
					let (mut out, mut seen) = (BTreeSet::new(), BTreeSet::new());
					m.vars(o, x, &mut out, &mut seen);
					out.into_iter().rev().take(3).collect::<Vec<_>>()
				})
				.collect()
			};
			let flip = |m: &mut Model, v: (usize, usize), r: &mut Rng| {
				let b = r.below(1 << m.level[v.0]) as u32;
				let old = m.val[v.0][v.1];
				m.set(v, B128::new(old.val() ^ 1u128 << b));
			};
			let what = match f.args[0] {
				// any committed bits of the row
				0 | 1 => {
					for _ in 0..=r.below(1 + f.args[0]) {
						let o = *r.pick(&committed);
						let x = (row << m.lv[o]) + r.usize(1 << m.lv[o]);
						pinned.insert((o, x));
						flip(&mut m, (o, x), &mut r);
					}
					"flip committed bits"
				}
				// a bit an output is made from
				2 | 3 => {
					let p = r.pick(&g.outs).clone();
					let c = cells(&m, &p);
					if !c.is_empty() {
						let v = c[r.usize(c.len())];
						pinned.insert(v);
						flip(&mut m, v, &mut r);
					}
					"flip an output bit"
				}
				// a whole output
				4 => {
					let k = r.below(4);
					for p in &g.outs {
						for v in cells(&m, p) {
							if m.level[v.0] == 0 {
								let t = match k {
									0 => B128::ZERO,
									1 => B128::ONE,
									2 => m.val[v.0][v.1] + B128::ONE,
									_ => B128::new(u128::from(r.below(2))),
								};
								if m.val[v.0][v.1] != t {
									m.set(v, t);
								}
								pinned.insert(v);
							}
						}
					}
					"replace the outputs"
				}
				// other values from some point on, with every read made a true one again
				6 => {
					if let Some(p) = g.reads {
						let o = *r.pick(&committed);
						let n = 1usize << m.lv[o];
						let part = (n / 8).max(1);
						let t = if r.chance(2, 3) { 7 } else { r.usize(8) };
						let x = (row * n) + (t * part).min(n - 1) + r.usize(part);
						pinned.insert((o, x));
						flip(&mut m, (o, x), &mut r);
						mend_reads(&mut m, &ccs, p, row, &committed, &pinned);
					}
					"restart with other values"
				}
				// an input, keeping what was computed from the old one
				_ => {
					let p = r.pick(&g.ins).clone();
					let c = cells(&m, &p);
					if !c.is_empty() {
						let v = c[r.usize(c.len())];
						pinned.insert(v);
						flip(&mut m, v, &mut r);
					}
					"flip an input bit"
				}
			};
			cx.fired(what);
			let ok = m.broken_row(0, row, None).is_empty()
				|| m.repair(0, row, &pinned, &mut r, if g.big { 60 } else { 400 });
			let ok = ok && g.reads.is_none_or(|p| bad_read(&m, &ccs, p, row).is_none());
			if ok && m.nonzero_broken().is_none() {
				if !m.broken_row(0, row, None).is_empty() {
					return Err("harness: repair left a broken constraint".into());
				}
				cx.count("corrupted assignments that satisfy the constraints");
				let ins: Vec<u128> = g.ins.iter().map(|p| port(&m, &map, p, row)).collect();
				let outs: Vec<u128> = g.outs.iter().map(|p| port(&m, &map, p, row)).collect();
				if !(g.rel)(&ins, &outs) {
					return Err(format!(
						"unsound: {} accepts {ins:x?} -> {outs:x?} ({what}, row {row})",
						g.name
					));
				}
			} else {
				cx.count("corrupted assignments refused");
			}
			m.restore_row(&base, 0, row);
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		REAL
	}
	fn stub(&self) -> &'static str {
		STUB
	}
}


fn main() {
	main_for(
		"C12",
		"fault_enumeration",
		"a run counts if a table was filled; identity: gadget, flags, data, corruption and interleaving",
		Budget { secs: (60, 1800), runs: (100_000, 10_000_000) },
		&[&Gadgets, &tables::Fills, &tables::Lookups, &merkle::Merkle],
	)
}
