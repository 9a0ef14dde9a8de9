//! C07: failures of memory, device and backend surface as errors, and leave everything usable.
use binius_compute::{
	ComputeData,
	alloc::{BumpAllocator, ComputeAllocator},
	cpu::CpuMemory,
	memory::{ComputeMemory, SizedSlice},
};
use binius_core::{constraint_system as cs, fiat_shamir::HasherChallenger};
use binius_fast_compute::{
	layer::FastCpuLayer,
	memory::{PackedMemory, PackedMemorySliceMut},
};
use binius_field::{
	BinaryField128b as B128, Field, PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b,
	PackedField, tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use vsim::{
	e2e::*,
	faulty::{self, Faulty, FaultyAlloc, FaultyBackend},
	sys::Sys,
	*,
};

type Layer = Faulty<FastCpuLayer<CanonicalTowerFamily, u128b::P>>;

struct Machine {
	layer: Layer,
	backend: FaultyBackend,
	host: Vec<B128>,
	dev: Vec<u128b::P>,
}

impl Machine {
	fn new(host: usize, dev: usize) -> Self {
		Machine {
			layer: Default::default(),
			backend: FaultyBackend::default(),
			host: vec![B128::ZERO; host],
			dev: vec![u128b::P::zero(); dev],
		}
	}
	fn prove(&mut self, j: &Job, c: &Case) -> Result<Vec<u8>, cs::error::Error> {
		let w = u128b::witness(&c.sys, &c.data);
		let mut data = ComputeData::new(
			&self.layer,
			FaultyAlloc::new(BumpAllocator::<B128, CpuMemory>::new(&mut self.host), "host alloc"),
			FaultyAlloc::new(
				BumpAllocator::<B128, PackedMemory<u128b::P>>::new(PackedMemorySliceMut::new_slice(&mut self.dev)),
				"device alloc",
			),
		);
		cs::prove::<
			_,
			u128b::U,
			CanonicalTowerFamily,
			Groestl256,
			Groestl256ByteCompression,
			HasherChallenger<Groestl256>,
			_,
			_,
			_,
		>(
			&mut data,
			j.cs,
			j.log_inv_rate,
			j.security,
			j.digest,
			j.boundaries,
			j.sizes,
			w,
			&self.backend,
		)
		.map(|p| p.transcript)
	}
}

fn panicked(what: &str) -> String {
	format!("panic: {what}: {:?}", take_panics())
}

struct Device;

impl Scenario for Device {
	fn name(&self) -> &'static str {
		"failing_device"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 8 } else { 5 });
		for _ in 0..r.range(1, 4) {
			let class = r.pick(&[
				"device", "device", "kernel", "alloc", "alloc", "backend", "backend", "copy_h2d", "copy_d2h", "copy_d2d",
				"fill", "execute", "inner_product", "tensor_expand", "fold_left", "fold_right", "fri_fold",
				"extrapolate_line", "compute_composite", "accumulate_kernels", "map_kernels", "host alloc",
				"device alloc", "sumcheck_compute_round_evals", "sumcheck_fold_multilinears",
				"tensor_product_full_query", "evaluate_partial_high", "compile_expr", "join", "map",
			]);
			plan.faults.push(Fault::new(class, &[r.next(), *r.pick(&[1, 1, 1, 2, 5, u64::MAX])]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		let sizes = c.sys.table_sizes();
		let job = Job {
			cs: &ccs,
			digest: &digest,
			boundaries: &b,
			sizes: &sizes,
			log_inv_rate: plan.p("rate") as usize,
			security: plan.p("security") as usize,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		// Counts the operations of each class, too.
		let mut m = Machine::new(job.host_mem, job.dev_mem);
		let mut counts = std::collections::BTreeMap::new();
		let mut reference = None;
		for f in &plan.faults {
			if !counts.contains_key(&f.kind) {
				faulty::arm(&f.kind, u64::MAX, 0);
				let r = cx.seq(|| m.prove(&job, &c));
				let n = faulty::seen();
				faulty::disarm();
				let p = match r {
					Err(_) => return Err(panicked("no fault")),
					Ok(Err(e)) => return Err(format!("prover-error: no fault: {e}")),
					Ok(Ok(p)) => p,
				};
				reference = Some(p);
				counts.insert(f.kind.clone(), n);
			}
		}
		let reference = reference.unwrap();
		cx.observe(&reference);
		for f in &plan.faults {
			let n = counts[&f.kind];
			if n == 0 {
				continue;
			}
			let nth = f.args[0] % n;
			faulty::arm(&f.kind, nth, f.args[1]);
			let r = cx.sim(|| m.prove(&job, &c));
			let (ops, _) = faulty::disarm();
			let what = format!("{} number {nth} of {n}, {} times ({ops:?})", f.kind, f.args[1]);
			let r = r.map_err(|_| panicked(&what))?;
			if ops.is_empty() {
				// Another schedule, fewer operations.
				if r.ok().as_ref() != Some(&reference) {
					return Err(format!("differs: without a failure ({what})"));
				}
				continue;
			}
			cx.fired(&f.kind);
			match r {
				Ok(p) => {
					return Err(format!(
						"error-lost: prover succeeded ({} proof) although {what} failed",
						if p == reference { "the same" } else { "another" }
					));
				}
				Err(e) => cx.observe(e.to_string().as_bytes()),
			}
			// The same layer and memory again.
			match cx.sim(|| m.prove(&job, &c)) {
				Err(_) => return Err(panicked(&format!("after recovering from {what}"))),
				Ok(Err(e)) => return Err(format!("not-recovered: {e} after {what}")),
				Ok(Ok(p)) if p != reference => return Err(format!("differs: proof after recovering from {what}")),
				Ok(Ok(_)) => {}
			}
			cx.nontrivial = true;
		}
		cx.key = plan.p("shape");
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove, fast_compute, hal, ntt, hash, math, field, compute allocators; a pass-through wrapper injects the failures"
	}
}

struct Budget_;

impl Scenario for Budget_ {
	fn name(&self) -> &'static str {
		"memory_budget"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 8 } else { 5 });
		for _ in 0..r.range(1, 4) {
			let (a, b) = (r.range(0, 17), r.range(0, 20));
			plan.faults.push(Fault::new("memory budget", &[r.below(1 << a), r.range(1, 1 << b)]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		let sizes = c.sys.table_sizes();
		let job = Job {
			cs: &ccs,
			digest: &digest,
			boundaries: &b,
			sizes: &sizes,
			log_inv_rate: plan.p("rate") as usize,
			security: plan.p("security") as usize,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		let reference = match cx.seq(|| Machine::new(job.host_mem, job.dev_mem).prove(&job, &c)) {
			Err(_) => return Err(panicked("plenty of memory")),
			Ok(Err(e)) => return Err(format!("prover-error: plenty of memory: {e}")),
			Ok(Ok(p)) => p,
		};
		for f in &plan.faults {
			let what = format!("{} host and {} device elements", f.args[0], f.args[1]);
			let r = cx
				.sim(|| Machine::new(f.args[0] as usize, f.args[1] as usize).prove(&job, &c))
				.map_err(|_| panicked(&what))?;
			match r {
				Ok(p) if p == reference => cx.count("budget sufficed"),
				Ok(_) => return Err(format!("differs: proof with {what}")),
				Err(e) => {
					cx.fired("out of memory");
					cx.observe(e.to_string().as_bytes());
				}
			}
			cx.nontrivial = true;
		}
		cx.key = plan.p("shape");
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove, fast_compute, hal, ntt, hash, math, field, compute allocators"
	}
}

/// Histories of allocations from shared and nested allocators.
struct Allocator;

impl Scenario for Allocator {
	fn name(&self) -> &'static str {
		"allocator"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("shape", r.next());
		plan.set("mem", r.below(4));
		plan.set("size", *r.pick(&[0, 1, 2, 4, 8, 32, 100, 128, 256, 1000]));
		plan.set("ops", r.range(1, 30));
		plan.set("depth", r.below(4));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		match p {
			"ops" => Some(1),
			"depth" => Some(0),
			_ => None,
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let n = plan.p("size") as usize;
		let r = match plan.p("mem") {
			0 => {
				let mut v = vec![B128::ZERO; n];
				let r = history::<CpuMemory>(cx, plan, BumpAllocator::new(&mut v[..]));
				r
			}
			1 => {
				let mut v = vec![PackedBinaryField1x128b::zero(); n];
				history(cx, plan, dev(&mut v))
			}
			2 => {
				let mut v = vec![PackedBinaryField2x128b::zero(); n / 2];
				history(cx, plan, dev(&mut v))
			}
			_ => {
				let mut v = vec![PackedBinaryField4x128b::zero(); n / 4];
				history(cx, plan, dev(&mut v))
			}
		};
		cx.sample = format!("{} elements, memory kind {}", n, plan.p("mem"));
		cx.key = plan.p("shape");
		r
	}
	fn real(&self) -> &'static str {
		"compute allocators, compute and fast_compute memory"
	}
}

fn dev<P: PackedField<Scalar = B128>>(v: &mut [P]) -> BumpAllocator<'_, B128, PackedMemory<P>> {
	BumpAllocator::new(PackedMemorySliceMut::new_slice(v))
}

/// Access to the elements of a memory slice.
trait Touch: ComputeMemory<B128> {
	fn write(s: &mut Self::FSliceMut<'_>, v: B128);
	fn all(s: &Self::FSliceMut<'_>, v: B128) -> bool;
}
impl Touch for CpuMemory {
	fn write(s: &mut Self::FSliceMut<'_>, v: B128) {
		s.fill(v)
	}
	fn all(s: &Self::FSliceMut<'_>, v: B128) -> bool {
		s.iter().all(|x| *x == v)
	}
}
impl<P: PackedField<Scalar = B128>> Touch for PackedMemory<P> {
	fn write(s: &mut Self::FSliceMut<'_>, v: B128) {
		let n = s.len();
		for i in 0..n {
			s.as_slice_mut()[i / P::WIDTH].set(i % P::WIDTH, v);
		}
	}
	fn all(s: &Self::FSliceMut<'_>, v: B128) -> bool {
		(0..s.len()).all(|i| s.as_slice()[i / P::WIDTH].get(i % P::WIDTH) == v)
	}
}

fn history<M: Touch>(cx: &mut Cx, plan: &Plan, mut root: BumpAllocator<'_, B128, M>) -> Verdict {
	let mut r = Rng::derive(plan.p("shape"), "ops");
	let ops = plan.p("ops") as usize;
	let depth = plan.p("depth");
	let res = cx.sim(|| level::<M>(&mut root, &mut r, ops, depth));
	match res {
		Err(_) => Err(panicked("allocator")),
		Ok(Err(e)) => Err(e),
		Ok(Ok((allocs, ooms))) => {
			cx.count_n("allocations", allocs);
			cx.count_n("fault:out of memory", ooms);
			cx.nontrivial = allocs + ooms > 0;
			cx.observe(&allocs.to_le_bytes());
			Ok(())
		}
	}
}

/// `ops` concurrent allocations at this level, then the same below with what is left.
fn level<M: Touch>(
	a: &mut impl ShareAlloc<M>,
	r: &mut Rng,
	ops: usize,
	depth: u64,
) -> Result<(u64, u64), String> {
	let cap = a.capacity();
	let sizes: Vec<usize> = (0..ops)
		.map(|_| {
			let al = M::ALIGNMENT;
			match r.below(5) {
				0 => 1 << r.below(al.ilog2() as u64 + 1),
				1 => cap / al * al,
				2 => (r.usize(cap / al + 3)) * al,
				_ => r.usize(5) * al,
			}
		})
		.collect();
	let mut total = (0, 0);
	{
		let shared = &*a;
		// Each task keeps its memory until all are done.
		use rayon::prelude::*;
		let mut got: Vec<(usize, usize, usize, Option<M::FSliceMut<'_>>)> = sizes
			.par_iter()
			.enumerate()
			.map(|(i, n)| {
				let before = shared.capacity();
				match shared.alloc(*n) {
					Ok(mut m) => {
						M::write(&mut m, B128::new(i as u128 + 1000));
						(i, *n, before, Some(m))
					}
					Err(_) => (i, *n, shared.capacity(), None),
				}
			})
			.collect();
		let mut used = 0;
		for (i, n, seen, m) in &got {
			match m {
				Some(m) => {
					if m.len() != *n {
						return Err(format!("alloc: {} elements for {n}", m.len()));
					}
					if !M::all(m, B128::new(*i as u128 + 1000)) {
						return Err(format!("overlap: allocation {i} of {n} elements was overwritten"));
					}
					used += n.next_multiple_of(M::ALIGNMENT);
					total.0 += 1;
				}
				None => {
					// There must have been less left than asked for.
					if *seen >= n.next_multiple_of(M::ALIGNMENT) {
						return Err(format!("refused: {n} elements with {seen} left"));
					}
					total.1 += 1;
				}
			}
		}
		if used > cap {
			return Err(format!("overlap: {used} elements handed out of {cap}"));
		}
		if shared.capacity() != cap - used {
			return Err(format!("capacity: {} left of {cap} after {used} were taken", shared.capacity()));
		}
		got.clear();
	}
	if depth > 0 {
		for _ in 0..2 {
			let t = a.sub(|s| level_dyn::<M>(s, r, ops / 2 + 1, depth - 1))?;
			total.0 += t.0;
			total.1 += t.1;
		}
	}
	Ok(total)
}

trait ShareAlloc<M: Touch>: Sync {
	fn capacity(&self) -> usize;
	fn alloc(&self, n: usize) -> Result<M::FSliceMut<'_>, ()>;
	fn sub(
		&mut self,
		f: impl FnOnce(&mut BumpAllocator<'_, B128, M>) -> Result<(u64, u64), String>,
	) -> Result<(u64, u64), String>;
}

fn level_dyn<M: Touch>(
	a: &mut BumpAllocator<'_, B128, M>,
	r: &mut Rng,
	ops: usize,
	depth: u64,
) -> Result<(u64, u64), String> {
	level::<M>(a, r, ops, depth)
}

impl<M: Touch> ShareAlloc<M> for BumpAllocator<'_, B128, M> {
	fn capacity(&self) -> usize {
		ComputeAllocator::capacity(self)
	}
	fn alloc(&self, n: usize) -> Result<M::FSliceMut<'_>, ()> {
		ComputeAllocator::alloc(self, n).map_err(|_| ())
	}
	fn sub(
		&mut self,
		f: impl FnOnce(&mut BumpAllocator<'_, B128, M>) -> Result<(u64, u64), String>,
	) -> Result<(u64, u64), String> {
		// The nested allocator gets what is left and returns it.
		let cap = ComputeAllocator::capacity(self);
		let r = {
			let s = self.subscope_allocator();
			if ComputeAllocator::capacity(&s) != cap {
				return Err("capacity: nested allocator does not get what is left".into());
			}
			// All of it, as an allocator of the same kind.
			match s.alloc(cap / M::ALIGNMENT * M::ALIGNMENT) {
				Ok(m) if cap > 0 => f(&mut BumpAllocator::new(m)),
				Ok(_) => Ok((0, 0)),
				Err(_) => return Err(format!("refused: all {cap} elements of a nested allocator")),
			}
		};
		if ComputeAllocator::capacity(self) != cap {
			return Err("capacity: nested allocator did not return its memory".into());
		}
		r
	}
}

fn main() {
	main_for(
		"C07",
		"fault_enumeration",
		"a run counts if a failure took effect or an allocation was checked; identity: system or history, failures and interleaving",
		Budget { secs: (60, 1800), runs: (20_000, 3_000_000) },
		&[&Device, &Budget_, &Allocator],
	)
}
