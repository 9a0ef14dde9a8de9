//! The deterministic scheduler that stands in for rayon's thread pool.
//!
//! Every logical thread (the caller's thread and `workers` pool workers) is a real OS thread, so
//! thread-locals, stacks and panics behave as they do in production, but exactly one of them, the
//! one holding the baton, runs at any time. Every fork/join, steal, latch wait, futex operation and
//! (with the instrumented build) atomic operation is a scheduling point, where a seeded generator
//! decides which thread runs next. One `Config` is one exactly repeatable execution.

use std::{
	cell::{Cell, UnsafeCell},
	collections::VecDeque,
	ptr,
	sync::atomic::{AtomicPtr, AtomicU64, Ordering},
};

extern "C" {
	fn sim_rt_set_on(v: i32);
	fn sim_rt_get_on() -> i32;
	fn sim_rt_set_rand(v: i32);
}

/// Suspends interception for the scheduler's own code.
struct Rt(i32);
impl Rt {
	#[inline]
	fn enter() -> Self {
		unsafe {
			let v = sim_rt_get_on();
			sim_rt_set_on(0);
			Rt(v)
		}
	}
}
impl Drop for Rt {
	#[inline]
	fn drop(&mut self) {
		unsafe { sim_rt_set_on(self.0) }
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strategy {
	/// No preemption; idle workers get work only when everybody else is blocked.
	Sequential,
	/// At each point switch to a uniformly chosen runnable thread with probability p/65536.
	Random { p: u32 },
	/// Random priorities with occasional priority changes (probability c/65536 per point).
	Priority { c: u32 },
	/// Always switch away from the running thread when another one is runnable.
	Eager,
	/// Fixed-quantum round robin.
	RoundRobin { quantum: u32 },
	/// As Random, but one thread is stalled: it runs only when nobody else can.
	Stall { victim: u32, p: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
	pub workers: usize,
	/// The calling thread is itself the only worker (`RAYON_NUM_THREADS=1` with
	/// `use_current_thread`).
	pub main_is_worker: bool,
	pub strategy: Strategy,
	pub seed: u64,
	/// Mean distance, in atomic operations, between preemptions at atomics (0: none).
	pub atomic_period: u32,
	/// Replay these non-default decisions (decision index, choice) instead of drawing them.
	pub replay: Option<Vec<(u64, u32)>>,
	pub max_decisions: u64,
	/// Index of the first decision (several simulations may share one record).
	pub base: u64,
	/// Where to record non-default decisions: `[len, idx0, choice0, ...]`; survives a crash if it
	/// points to shared memory.
	pub record: *mut u64,
	pub record_cap: usize,
}

unsafe impl Send for Config {}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
	pub decisions: u64,
	pub nondefault: u64,
	pub switches: u64,
	pub joins: u64,
	pub jobs: u64,
	pub steals: u64,
	pub nested_steals: u64,
	pub migrated_across_wait: u64,
	pub atomic_ops: u64,
	pub atomic_preemptions: u64,
	pub futex_waits: u64,
	pub spawns: u64,
	pub injected: u64,
	pub max_nesting: u64,
	pub record_overflow: u64,
	/// Hash over the whole sequence of scheduling events: the identity of the interleaving.
	pub trace_hash: u64,
}

pub struct Latch(UnsafeCell<bool>);
unsafe impl Sync for Latch {}
unsafe impl Send for Latch {}
impl Latch {
	pub fn new() -> Self {
		Latch(UnsafeCell::new(false))
	}
	/// Only the baton holder calls these.
	pub fn set(&self) {
		unsafe { ptr::write_volatile(self.0.get(), true) }
	}
	pub fn probe(&self) -> bool {
		unsafe { ptr::read_volatile(self.0.get()) }
	}
}

#[derive(Clone, Copy)]
pub struct JobRef {
	pub data: *const (),
	pub exec: unsafe fn(*const ()),
}
unsafe impl Send for JobRef {}

#[derive(Clone, Copy, PartialEq)]
enum State {
	Runnable,
	/// Looks for jobs, or waits for the latch (null: none).
	Work(*const Latch),
	/// Waits for the latch only.
	Wait(*const Latch),
	Futex(usize, bool),
}

struct Th {
	state: State,
	sem: Box<UnsafeCell<libc::sem_t>>,
	deque: VecDeque<(u64, JobRef)>,
	prio: u64,
	nesting: u64,
	is_worker: bool,
}

struct Sim {
	cfg: Config,
	rng: u64,
	th: Vec<Th>,
	injector: VecDeque<(u64, JobRef)>,
	cur: usize,
	job_seq: u64,
	replay_pos: usize,
	rec_len: usize,
	terminate: bool,
	atomic_countdown: u64,
	quantum_left: u32,
	low_prio: u64,
	st: Stats,
	cands: Vec<u32>,
}

static SIM: AtomicPtr<Sim> = AtomicPtr::new(ptr::null_mut());
static RAND_STATE: AtomicU64 = AtomicU64::new(0);

/// Called (with a reason) when the simulated system cannot go on: deadlock or step budget.
pub static mut FATAL: fn(&str, &Stats) = |s, _| {
	eprintln!("sim: {s}");
	std::process::abort();
};

thread_local! {
	static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn splitmix(s: &mut u64) -> u64 {
	*s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *s;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

/// Makes OS randomness (hash seeds, thread RNG seeds) a function of `seed`.
pub fn own_randomness(seed: u64) {
	let _rt = Rt::enter();
	RAND_STATE.store(seed, Ordering::SeqCst);
	unsafe { sim_rt_set_rand(1) }
}

#[no_mangle]
extern "C" fn sim_fill_random(buf: *mut u8, len: usize) {
	let _rt = Rt::enter();
	// One simulated thread runs at a time; the driver process is single-threaded.
	let mut s = RAND_STATE.load(Ordering::SeqCst);
	let out = unsafe { std::slice::from_raw_parts_mut(buf, len) };
	for chunk in out.chunks_mut(8) {
		let v = splitmix(&mut s).to_le_bytes();
		chunk.copy_from_slice(&v[..chunk.len()]);
	}
	RAND_STATE.store(s, Ordering::SeqCst);
}

#[inline]
fn sim() -> Option<&'static mut Sim> {
	let p = SIM.load(Ordering::Relaxed);
	if p.is_null() || TID.with(|t| t.get()) == usize::MAX {
		return None;
	}
	// SAFETY: the caller holds the baton.
	Some(unsafe { &mut *p })
}

impl Sim {
	fn rnd(&mut self) -> u64 {
		splitmix(&mut self.rng)
	}

	fn below(&mut self, n: u64) -> u64 {
		((self.rnd() as u128 * n as u128) >> 64) as u64
	}

	fn note(&mut self, kind: u64, a: u64, b: u64) {
		let mut h = self.st.trace_hash;
		for v in [kind, a, b] {
			h ^= v;
			h = h.wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
		}
		self.st.trace_hash = h;
	}

	fn has_jobs(&self) -> bool {
		!self.injector.is_empty() || self.th.iter().any(|t| !t.deque.is_empty())
	}

	fn runnable(&self, t: usize, jobs: bool) -> bool {
		match self.th[t].state {
			State::Runnable => true,
			State::Work(l) => jobs || (!l.is_null() && unsafe { (*l).probe() }),
			State::Wait(l) => unsafe { (*l).probe() },
			State::Futex(..) => false,
		}
	}

	fn record(&mut self, idx: u64, choice: u32) {
		self.st.nondefault += 1;
		if self.cfg.record.is_null() {
			return;
		}
		if self.rec_len + 1 >= self.cfg.record_cap / 2 {
			self.st.record_overflow += 1;
			return;
		}
		unsafe {
			let p = self.cfg.record;
			*p.add(1 + 2 * self.rec_len) = idx;
			*p.add(2 + 2 * self.rec_len) = choice as u64;
			self.rec_len += 1;
			*p = self.rec_len as u64;
		}
	}

	/// The replayed decision with this index, if any.
	fn replayed(&mut self, idx: u64) -> Option<u32> {
		let r = self.cfg.replay.as_ref()?;
		while self.replay_pos < r.len() && r[self.replay_pos].0 < idx {
			self.replay_pos += 1;
		}
		(self.replay_pos < r.len() && r[self.replay_pos].0 == idx).then(|| r[self.replay_pos].1)
	}

	fn next_index(&mut self) -> u64 {
		let i = self.st.decisions;
		self.st.decisions += 1;
		if i >= self.cfg.max_decisions {
			fatal("step-budget", self);
		}
		i + self.cfg.base
	}

	/// Chooses among `cands` (thread ids).
	fn choose_thread(&mut self, me: usize, me_runnable: bool) -> usize {
		let jobs = self.has_jobs();
		let mut cands = std::mem::take(&mut self.cands);
		cands.clear();
		for t in 0..self.th.len() {
			if t == me {
				if me_runnable {
					cands.push(t as u32);
				}
			} else if self.runnable(t, jobs) {
				cands.push(t as u32);
			}
		}
		let res = match cands.len() {
			0 => usize::MAX,
			1 => cands[0] as usize,
			_ => {
				let default = if me_runnable { me as u32 } else { cands[0] };
				let idx = self.next_index();
				let c = if self.cfg.replay.is_some() {
					match self.replayed(idx) {
						Some(c) if cands.contains(&c) => c,
						_ => default,
					}
				} else {
					self.pick(&cands, me as u32, me_runnable, default)
				};
				if c != default {
					self.record(idx, c);
				}
				c as usize
			}
		};
		self.cands = cands;
		res
	}

	fn pick(&mut self, cands: &[u32], me: u32, me_runnable: bool, default: u32) -> u32 {
		match self.cfg.strategy {
			Strategy::Sequential => default,
			Strategy::Random { p } => {
				if me_runnable && self.below(65536) >= p as u64 {
					default
				} else {
					cands[self.below(cands.len() as u64) as usize]
				}
			}
			Strategy::Eager => {
				let others: Vec<u32> = cands.iter().copied().filter(|&c| c != me).collect();
				others[self.below(others.len() as u64) as usize]
			}
			Strategy::RoundRobin { quantum } => {
				if me_runnable && self.quantum_left > 0 {
					self.quantum_left -= 1;
					default
				} else {
					self.quantum_left = quantum;
					cands.iter().copied().find(|&c| c > me).unwrap_or(cands[0])
				}
			}
			Strategy::Priority { c } => {
				if self.below(65536) < c as u64 {
					self.low_prio -= 1;
					let lp = self.low_prio;
					self.th[me as usize].prio = lp;
				}
				*cands.iter().max_by_key(|&&c| self.th[c as usize].prio).unwrap()
			}
			Strategy::Stall { victim, p } => {
				let ok: Vec<u32> = cands.iter().copied().filter(|&c| c != victim).collect();
				if ok.is_empty() {
					return default;
				}
				if me_runnable && me != victim && self.below(65536) >= p as u64 {
					me
				} else {
					ok[self.below(ok.len() as u64) as usize]
				}
			}
		}
	}

	/// Picks a job for thread `me`: own deque newest first, then a victim's oldest, then the
	/// injector.
	fn find_work(&mut self, me: usize) -> Option<JobRef> {
		if let Some((id, j)) = self.th[me].deque.pop_back() {
			self.note(3, me as u64, id);
			return Some(j);
		}
		let mut victims: Vec<u32> = (0..self.th.len())
			.filter(|&t| t != me && !self.th[t].deque.is_empty())
			.map(|t| t as u32)
			.collect();
		if !self.injector.is_empty() {
			victims.push(self.th.len() as u32);
		}
		if victims.is_empty() {
			return None;
		}
		let v = if victims.len() == 1 {
			victims[0]
		} else {
			let default = victims[0];
			let idx = self.next_index();
			let c = if self.cfg.replay.is_some() {
				match self.replayed(idx) {
					Some(c) if victims.contains(&c) => c,
					_ => default,
				}
			} else if self.cfg.strategy == Strategy::Sequential {
				default
			} else {
				victims[self.below(victims.len() as u64) as usize]
			};
			if c != default {
				self.record(idx, c);
			}
			c
		} as usize;
		let (id, j) = if v == self.th.len() {
			self.injector.pop_front().unwrap()
		} else {
			self.st.steals += 1;
			if self.th[me].nesting > 0 {
				self.st.nested_steals += 1;
			}
			self.th[v].deque.pop_front().unwrap()
		};
		self.note(4, me as u64, id ^ ((v as u64) << 48));
		Some(j)
	}
}

fn fatal(why: &str, s: &Sim) -> ! {
	#[allow(static_mut_refs)]
	unsafe {
		FATAL(why, &s.st)
	};
	unsafe { libc::_exit(97) }
}

fn sem_wait(s: &UnsafeCell<libc::sem_t>) {
	unsafe { while libc::sem_wait(s.get()) != 0 {} }
}

/// Gives up the baton according to the scheduler. The state of `me` is already set.
fn schedule(me: usize) {
	let s = unsafe { &mut *SIM.load(Ordering::Relaxed) };
	let jobs = s.has_jobs();
	let me_runnable = s.runnable(me, jobs);
	let mut next = s.choose_thread(me, me_runnable);
	if next == usize::MAX {
		// Everybody is blocked: fire a timed wait if there is one.
		match (0..s.th.len()).find(|&t| matches!(s.th[t].state, State::Futex(_, true))) {
			Some(t) => {
				s.th[t].state = State::Runnable;
				next = t;
			}
			None => fatal("deadlock", s),
		}
	}
	if next != me {
		s.st.switches += 1;
		s.note(1, me as u64, next as u64);
		s.cur = next;
		let mine: *const UnsafeCell<libc::sem_t> = &*s.th[me].sem;
		unsafe { libc::sem_post(s.th[next].sem.get()) };
		sem_wait(unsafe { &*mine });
	}
	let s = unsafe { &mut *SIM.load(Ordering::Relaxed) };
	s.th[me].state = State::Runnable;
}

/// A voluntary scheduling point.
pub fn point() {
	let _rt = Rt::enter();
	if sim().is_some() {
		let me = TID.with(|t| t.get());
		schedule(me);
	}
}

#[no_mangle]
extern "C" fn sim_atomic_point(_addr: *const u8, _kind: i32) {
	let _rt = Rt::enter();
	let Some(s) = sim() else { return };
	s.st.atomic_ops += 1;
	if s.cfg.atomic_period == 0 {
		return;
	}
	let me = TID.with(|t| t.get());
	let idx = s.next_index();
	let want = if s.cfg.replay.is_some() {
		s.replayed(idx)
	} else {
		if s.atomic_countdown > 0 {
			s.atomic_countdown -= 1;
			return;
		}
		let p = s.cfg.atomic_period as u64;
		s.atomic_countdown = s.below(2 * p);
		let jobs = s.has_jobs();
		let others: Vec<u32> =
			(0..s.th.len()).filter(|&t| t != me && s.runnable(t, jobs)).map(|t| t as u32).collect();
		if others.is_empty() {
			None
		} else {
			Some(others[s.below(others.len() as u64) as usize])
		}
	};
	let Some(next) = want else { return };
	let next = next as usize;
	let jobs = s.has_jobs();
	if next == me || next >= s.th.len() || !s.runnable(next, jobs) {
		return;
	}
	s.record(idx, next as u32);
	s.st.atomic_preemptions += 1;
	s.st.switches += 1;
	s.note(2, me as u64, next as u64);
	s.cur = next;
	let mine: *const UnsafeCell<libc::sem_t> = &*s.th[me].sem;
	unsafe { libc::sem_post(s.th[next].sem.get()) };
	sem_wait(unsafe { &*mine });
}

#[no_mangle]
extern "C" fn sim_futex_wait(addr: *const u32, val: u32, timed: i32) -> i32 {
	let _rt = Rt::enter();
	let Some(s) = sim() else { return 0 };
	let me = TID.with(|t| t.get());
	if unsafe { ptr::read_volatile(addr) } != val {
		return -libc::EAGAIN;
	}
	s.st.futex_waits += 1;
	s.th[me].state = State::Futex(addr as usize, timed != 0);
	schedule(me);
	0
}

#[no_mangle]
extern "C" fn sim_futex_wake(addr: *const u32, n: u32) -> i32 {
	let _rt = Rt::enter();
	let Some(s) = sim() else { return 0 };
	let me = TID.with(|t| t.get());
	let mut woken = 0;
	for t in 0..s.th.len() {
		if woken < n {
			if let State::Futex(a, _) = s.th[t].state {
				if a == addr as usize {
					s.th[t].state = State::Runnable;
					woken += 1;
				}
			}
		}
	}
	if woken > 0 {
		schedule(me);
	}
	woken as i32
}

// ---- interface used by the rayon-core API layer ----

/// `None`: not inside a simulation. `Some(false)`: the external caller. `Some(true)`: a worker.
pub fn context() -> Option<bool> {
	let _rt = Rt::enter();
	let s = sim()?;
	Some(s.th[TID.with(|t| t.get())].is_worker)
}

pub fn num_workers() -> usize {
	let _rt = Rt::enter();
	match sim() {
		Some(s) => s.th.iter().filter(|t| t.is_worker).count(),
		None => 1,
	}
}

pub fn worker_index() -> Option<usize> {
	let _rt = Rt::enter();
	let s = sim()?;
	let me = TID.with(|t| t.get());
	s.th[me].is_worker.then(|| if s.th[0].is_worker { me } else { me - 1 })
}

pub fn push(job: JobRef) {
	let _rt = Rt::enter();
	let s = sim().unwrap();
	let me = TID.with(|t| t.get());
	let id = s.job_seq;
	s.job_seq += 1;
	if s.th[me].is_worker {
		s.th[me].deque.push_back((id, job));
	} else {
		s.injector.push_back((id, job));
		s.st.injected += 1;
	}
	s.note(5, me as u64, id);
	schedule(me);
}

pub fn count_join() {
	let _rt = Rt::enter();
	sim().unwrap().st.joins += 1;
}

pub fn count_spawn() {
	let _rt = Rt::enter();
	if let Some(s) = sim() {
		s.st.spawns += 1;
	}
}

pub fn take_local() -> Option<JobRef> {
	let _rt = Rt::enter();
	let me = TID.with(|t| t.get());
	schedule(me);
	let s = sim().unwrap();
	let (id, j) = s.th[me].deque.pop_back()?;
	s.note(6, me as u64, id);
	Some(j)
}

pub unsafe fn execute(job: JobRef) {
	{
		let _rt = Rt::enter();
		let s = sim().unwrap();
		let me = TID.with(|t| t.get());
		s.st.jobs += 1;
		s.th[me].nesting += 1;
		let n = s.th[me].nesting;
		s.st.max_nesting = s.st.max_nesting.max(n);
	}
	(job.exec)(job.data);
	{
		let _rt = Rt::enter();
		let s = sim().unwrap();
		let me = TID.with(|t| t.get());
		s.th[me].nesting -= 1;
		schedule(me);
	}
}

/// Worker: runs other jobs until the latch is set.
pub fn wait_until(latch: &Latch) {
	loop {
		let job = {
			let _rt = Rt::enter();
			if latch.probe() {
				return;
			}
			let s = sim().unwrap();
			let me = TID.with(|t| t.get());
			match s.find_work(me) {
				Some(j) => Some(j),
				None => {
					s.th[me].state = State::Work(latch);
					schedule(me);
					None
				}
			}
		};
		if let Some(j) = job {
			unsafe { execute(j) }
		}
	}
}

/// External thread: blocks until the latch is set.
pub fn block_on(latch: &Latch) {
	let _rt = Rt::enter();
	while !latch.probe() {
		let s = sim().unwrap();
		let me = TID.with(|t| t.get());
		s.th[me].state = State::Wait(latch);
		schedule(me);
	}
}

/// Executes at most one job, if there is one for this worker.
pub fn yield_job() -> bool {
	let job = {
		let _rt = Rt::enter();
		if sim().is_none() {
			return false;
		}
		let me = TID.with(|t| t.get());
		schedule(me);
		let s = sim().unwrap();
		if s.th[me].is_worker {
			s.find_work(me)
		} else {
			None
		}
	};
	match job {
		Some(j) => {
			unsafe { execute(j) }
			true
		}
		None => false,
	}
}

pub fn local_pending() -> Option<bool> {
	let _rt = Rt::enter();
	let s = sim()?;
	let t = &s.th[TID.with(|t| t.get())];
	t.is_worker.then(|| !t.deque.is_empty())
}

fn worker_main(me: usize) {
	TID.with(|t| t.set(me));
	let p = SIM.load(Ordering::Relaxed);
	let sem: *const UnsafeCell<libc::sem_t> = unsafe { &*(&(*p).th)[me].sem };
	sem_wait(unsafe { &*sem });
	loop {
		let s = unsafe { &mut *SIM.load(Ordering::Relaxed) };
		if s.terminate {
			break;
		}
		s.th[me].state = State::Runnable;
		match s.find_work(me) {
			Some(j) => {
				unsafe {
					sim_rt_set_on(1);
					execute(j);
					sim_rt_set_on(0);
				}
			}
			None => {
				s.th[me].state = State::Work(ptr::null());
				// `schedule` without a state reset race: we come back only when runnable or
				// terminated.
				schedule(me);
			}
		}
	}
	TID.with(|t| t.set(usize::MAX));
}

/// Runs `f` under the simulated pool and returns its result (or panic payload) and statistics.
pub fn run<R: Send>(cfg: Config, f: impl FnOnce() -> R + Send) -> (std::thread::Result<R>, Stats) {
	let mut rng = cfg.seed ^ 0x5157_0000_0000_0000;
	let n = if cfg.main_is_worker { cfg.workers.max(1) } else { cfg.workers.max(1) + 1 };
	let mut th = Vec::new();
	for t in 0..n {
		let sem = Box::new(UnsafeCell::new(unsafe { std::mem::zeroed() }));
		unsafe { libc::sem_init(sem.get(), 0, 0) };
		let is_worker = cfg.main_is_worker || t > 0;
		th.push(Th {
			state: if t == 0 { State::Runnable } else { State::Work(ptr::null()) },
			sem,
			deque: VecDeque::new(),
			prio: (splitmix(&mut rng) >> 1) | (1 << 62),
			nesting: 0,
			is_worker,
		});
	}
	let first = if cfg.atomic_period == 0 {
		0
	} else {
		splitmix(&mut rng) % (2 * cfg.atomic_period as u64)
	};
	let rec_len = if cfg.record.is_null() { 0 } else { unsafe { *cfg.record as usize } };
	let s = Box::new(Sim {
		cfg,
		rng,
		th,
		injector: VecDeque::new(),
		cur: 0,
		job_seq: 0,
		replay_pos: 0,
		rec_len,
		terminate: false,
		atomic_countdown: first,
		quantum_left: 0,
		low_prio: 1 << 62,
		st: Stats {
			trace_hash: 0xcbf2_9ce4_8422_2325,
			..Stats::default()
		},
		cands: Vec::new(),
	});
	let p = Box::into_raw(s);
	assert!(SIM.swap(p, Ordering::SeqCst).is_null(), "nested simulation");

	let res = std::thread::scope(|sc| {
		let mut handles = Vec::new();
		for t in 1..n {
			handles.push(
				std::thread::Builder::new()
					.name(format!("w{t}"))
					.stack_size(64 << 20)
					.spawn_scoped(sc, move || worker_main(t))
					.unwrap(),
			);
		}
		let main = std::thread::Builder::new()
			.name("sim-main".into())
			.stack_size(256 << 20)
			.spawn_scoped(sc, move || {
				TID.with(|t| t.set(0));
				unsafe { sim_rt_set_on(1) };
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
				unsafe { sim_rt_set_on(0) };
				// Detached jobs (spawn) get to finish: run until no job is left.
				loop {
					let s = unsafe { &mut *SIM.load(Ordering::Relaxed) };
					let jobs = s.has_jobs();
					let busy = (1..s.th.len()).any(|t| {
						s.th[t].state == State::Runnable || s.runnable(t, jobs)
					});
					if !busy && !jobs {
						break;
					}
					if busy {
						let next = (1..s.th.len()).find(|&t| s.runnable(t, jobs)).unwrap();
						s.cur = next;
						s.th[0].state = State::Runnable;
						let mine: *const UnsafeCell<libc::sem_t> = &*s.th[0].sem;
						unsafe { libc::sem_post(s.th[next].sem.get()) };
						sem_wait(unsafe { &*mine });
					} else {
						break;
					}
				}
				TID.with(|t| t.set(usize::MAX));
				let s = unsafe { &mut *SIM.load(Ordering::Relaxed) };
				s.terminate = true;
				r
			})
			.unwrap();
		let r = main.join();
		// Release the workers one at a time, so that even thread teardown is ordered.
		for (i, h) in handles.into_iter().enumerate() {
			unsafe { libc::sem_post((&(*p).th)[i + 1].sem.get()) };
			let _ = h.join();
		}
		r
	});
	SIM.store(ptr::null_mut(), Ordering::SeqCst);
	let s = unsafe { Box::from_raw(p) };
	let st = s.st;
	let res = match res {
		Ok(r) => r,
		Err(e) => Err(e),
	};
	(res, st)
}
