//! A drop-in replacement for `rayon-core` 1.13 whose thread pool is the deterministic simulator in
//! [`sim`]. The real `rayon` crate (parallel iterators, splitting heuristics, collectors) runs
//! unmodified on top of it. Outside a simulation everything runs sequentially on the caller.

pub mod sim;

use sim::{JobRef, Latch};
use std::{
	any::Any,
	cell::{Cell, UnsafeCell},
	fmt,
	marker::PhantomData,
	panic::{self, AssertUnwindSafe},
	sync::{
		atomic::{AtomicPtr, AtomicUsize, Ordering},
		Arc,
	},
};

fn halt<R>(f: impl FnOnce() -> R) -> std::thread::Result<R> {
	panic::catch_unwind(AssertUnwindSafe(f))
}

enum JobResult<T> {
	None,
	Ok(T),
	Panic(Box<dyn Any + Send>),
}

struct StackJob<F, R> {
	latch: Latch,
	func: UnsafeCell<Option<F>>,
	result: UnsafeCell<JobResult<R>>,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
	fn new(f: F) -> Self {
		StackJob {
			latch: Latch::new(),
			func: UnsafeCell::new(Some(f)),
			result: UnsafeCell::new(JobResult::None),
		}
	}
	fn as_ref(&self) -> JobRef {
		JobRef {
			data: self as *const Self as *const (),
			exec: Self::exec,
		}
	}
	unsafe fn exec(this: *const ()) {
		let this = &*(this as *const Self);
		let f = (*this.func.get()).take().unwrap();
		*this.result.get() = match halt(|| f(true)) {
			Ok(r) => JobResult::Ok(r),
			Err(e) => JobResult::Panic(e),
		};
		this.latch.set();
	}
	fn take_func(&self) -> F {
		unsafe { (*self.func.get()).take().unwrap() }
	}
	fn into_result(self) -> R {
		match self.result.into_inner() {
			JobResult::None => unreachable!(),
			JobResult::Ok(r) => r,
			JobResult::Panic(e) => panic::resume_unwind(e),
		}
	}
}

/// Runs `op(injected)` on a worker.
fn in_worker<R: Send>(op: impl FnOnce(bool) -> R + Send) -> R {
	match sim::context() {
		Some(true) => op(false),
		Some(false) => {
			let job = StackJob::new(|_| op(true));
			sim::push(job.as_ref());
			sim::block_on(&job.latch);
			job.into_result()
		}
		None => op(false),
	}
}

#[derive(Debug)]
pub struct FnContext {
	migrated: bool,
	_marker: PhantomData<*mut ()>,
}

impl FnContext {
	fn new(migrated: bool) -> Self {
		FnContext { migrated, _marker: PhantomData }
	}
	pub fn migrated(&self) -> bool {
		self.migrated
	}
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
	A: FnOnce() -> RA + Send,
	B: FnOnce() -> RB + Send,
	RA: Send,
	RB: Send,
{
	join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
	A: FnOnce(FnContext) -> RA + Send,
	B: FnOnce(FnContext) -> RB + Send,
	RA: Send,
	RB: Send,
{
	if sim::context().is_none() {
		return (a(FnContext::new(false)), b(FnContext::new(false)));
	}
	in_worker(move |injected| {
		sim::count_join();
		let job_b = StackJob::new(move |migrated| b(FnContext::new(migrated)));
		let id = job_b.as_ref().data;
		sim::push(job_b.as_ref());
		let ra = match halt(|| a(FnContext::new(injected))) {
			Ok(ra) => ra,
			Err(e) => {
				sim::wait_until(&job_b.latch);
				panic::resume_unwind(e)
			}
		};
		while !job_b.latch.probe() {
			match sim::take_local() {
				None => {
					sim::wait_until(&job_b.latch);
					break;
				}
				Some(j) if j.data == id => {
					let rb = job_b.take_func()(injected);
					return (ra, rb);
				}
				Some(j) => unsafe { sim::execute(j) },
			}
		}
		(ra, job_b.into_result())
	})
}

// ---- scopes ----

struct ScopeBase {
	pending: AtomicUsize,
	latch: Latch,
	panic: AtomicPtr<Box<dyn Any + Send>>,
}

impl ScopeBase {
	fn new() -> Self {
		ScopeBase {
			pending: AtomicUsize::new(1),
			latch: Latch::new(),
			panic: AtomicPtr::new(std::ptr::null_mut()),
		}
	}
	fn done(&self) {
		if self.pending.fetch_sub(1, Ordering::SeqCst) == 1 {
			self.latch.set();
		}
	}
	fn store_panic(&self, e: Box<dyn Any + Send>) {
		let p = Box::into_raw(Box::new(e));
		if self
			.panic
			.compare_exchange(std::ptr::null_mut(), p, Ordering::SeqCst, Ordering::SeqCst)
			.is_err()
		{
			drop(unsafe { Box::from_raw(p) });
		}
	}
	fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
		let r = match halt(f) {
			Ok(r) => Some(r),
			Err(e) => {
				self.store_panic(e);
				None
			}
		};
		self.done();
		match sim::context() {
			Some(true) => sim::wait_until(&self.latch),
			Some(false) => sim::block_on(&self.latch),
			None => {}
		}
		let p = self.panic.swap(std::ptr::null_mut(), Ordering::SeqCst);
		if !p.is_null() {
			panic::resume_unwind(*unsafe { Box::from_raw(p) });
		}
		r.unwrap()
	}
	unsafe fn spawn(self: &Arc<Self>, f: Box<dyn FnOnce() + Send>) {
		sim::count_spawn();
		self.pending.fetch_add(1, Ordering::SeqCst);
		let base = self.clone();
		let body = move || {
			if let Err(e) = halt(f) {
				base.store_panic(e);
			}
			base.done();
		};
		if sim::context().is_none() {
			body();
		} else {
			sim::push(heap_job(Box::new(body)));
		}
	}
}

fn heap_job(f: Box<dyn FnOnce() + Send>) -> JobRef {
	unsafe fn exec(p: *const ()) {
		let f = *Box::from_raw(p as *mut Box<dyn FnOnce() + Send>);
		f();
	}
	JobRef {
		data: Box::into_raw(Box::new(f)) as *const (),
		exec,
	}
}

unsafe fn erase<'a>(f: Box<dyn FnOnce() + Send + 'a>) -> Box<dyn FnOnce() + Send + 'static> {
	std::mem::transmute(f)
}

macro_rules! scope_type {
	($Scope:ident, $scope:ident, $in_place:ident, $spawn:ident, $spawn_bc:ident) => {
		pub struct $Scope<'scope> {
			base: Arc<ScopeBase>,
			_marker: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
		}

		impl<'scope> $Scope<'scope> {
			fn new() -> Self {
				$Scope { base: Arc::new(ScopeBase::new()), _marker: PhantomData }
			}
			pub fn $spawn<BODY>(&self, body: BODY)
			where
				BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
			{
				let me = $Scope { base: self.base.clone(), _marker: PhantomData };
				unsafe { self.base.spawn(erase(Box::new(move || body(&me)))) }
			}
			pub fn $spawn_bc<BODY>(&self, body: BODY)
			where
				BODY: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
			{
				let body = Arc::new(body);
				let n = current_num_threads();
				for index in 0..n {
					let body = body.clone();
					let me = $Scope { base: self.base.clone(), _marker: PhantomData };
					unsafe {
						self.base.spawn(erase(Box::new(move || {
							body(&me, BroadcastContext { index, num: n, _marker: PhantomData })
						})))
					}
				}
			}
		}

		impl fmt::Debug for $Scope<'_> {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($Scope))
			}
		}

		pub fn $scope<'scope, OP, R>(op: OP) -> R
		where
			OP: FnOnce(&$Scope<'scope>) -> R + Send,
			R: Send,
		{
			in_worker(|_| {
				let s = $Scope::new();
				s.base.clone().complete(|| op(&s))
			})
		}

		pub fn $in_place<'scope, OP, R>(op: OP) -> R
		where
			OP: FnOnce(&$Scope<'scope>) -> R,
		{
			let s = $Scope::new();
			s.base.clone().complete(|| op(&s))
		}
	};
}

scope_type!(Scope, scope, in_place_scope, spawn, spawn_broadcast);
scope_type!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo, spawn_broadcast);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
	sim::count_spawn();
	if sim::context().is_none() {
		f()
	} else {
		sim::push(heap_job(Box::new(f)))
	}
}

pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
	spawn(f)
}

// ---- broadcast ----

pub struct BroadcastContext<'a> {
	index: usize,
	num: usize,
	_marker: PhantomData<&'a mut dyn Fn()>,
}

impl BroadcastContext<'_> {
	pub fn index(&self) -> usize {
		self.index
	}
	pub fn num_threads(&self) -> usize {
		self.num
	}
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
	OP: Fn(BroadcastContext<'_>) -> R + Sync,
	R: Send,
{
	let n = current_num_threads();
	let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
	let op = &op;
	scope(|s| {
		for (index, slot) in out.iter_mut().enumerate() {
			s.spawn(move |_| *slot = Some(op(BroadcastContext { index, num: n, _marker: PhantomData })));
		}
	});
	out.into_iter().map(|x| x.unwrap()).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
	OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
	let op = Arc::new(op);
	let n = current_num_threads();
	for index in 0..n {
		let op = op.clone();
		spawn(move || op(BroadcastContext { index, num: n, _marker: PhantomData }));
	}
}

// ---- pool queries and control ----

pub fn max_num_threads() -> usize {
	(1 << 16) - 1
}

pub fn current_num_threads() -> usize {
	match POOL_SIZE.with(|p| p.get()) {
		0 => sim::num_workers(),
		n => n,
	}
}

pub fn current_thread_index() -> Option<usize> {
	sim::worker_index()
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
	sim::local_pending()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
	Executed,
	Idle,
}

pub fn yield_now() -> Option<Yield> {
	(sim::context() == Some(true))
		.then(|| if sim::yield_job() { Yield::Executed } else { Yield::Idle })
}

pub fn yield_local() -> Option<Yield> {
	if sim::context() != Some(true) {
		return None;
	}
	Some(match sim::take_local() {
		Some(j) => {
			unsafe { sim::execute(j) }
			Yield::Executed
		}
		None => Yield::Idle,
	})
}

thread_local! {
	static POOL_SIZE: Cell<usize> = const { Cell::new(0) };
}

/// A pool handle. All pools share the simulated workers; only the reported size is private.
pub struct ThreadPool {
	n: usize,
}

impl fmt::Debug for ThreadPool {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "ThreadPool({})", self.n)
	}
}

impl ThreadPool {
	pub fn install<OP, R>(&self, op: OP) -> R
	where
		OP: FnOnce() -> R + Send,
		R: Send,
	{
		in_worker(|_| op())
	}
	pub fn current_num_threads(&self) -> usize {
		if self.n == 0 {
			sim::num_workers()
		} else {
			self.n
		}
	}
	pub fn current_thread_index(&self) -> Option<usize> {
		sim::worker_index()
	}
	pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
		sim::local_pending()
	}
	pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
	where
		A: FnOnce() -> RA + Send,
		B: FnOnce() -> RB + Send,
		RA: Send,
		RB: Send,
	{
		join(a, b)
	}
	pub fn scope<'scope, OP, R>(&self, op: OP) -> R
	where
		OP: FnOnce(&Scope<'scope>) -> R + Send,
		R: Send,
	{
		scope(op)
	}
	pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
	where
		OP: FnOnce(&Scope<'scope>) -> R,
	{
		in_place_scope(op)
	}
	pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
		spawn(op)
	}
	pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
	where
		OP: Fn(BroadcastContext<'_>) -> R + Sync,
		R: Send,
	{
		broadcast(op)
	}
	pub fn yield_now(&self) -> Option<Yield> {
		yield_now()
	}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError(());

impl fmt::Display for ThreadPoolBuildError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str("thread pool build error")
	}
}
impl std::error::Error for ThreadPoolBuildError {}

/// Never handed out by the simulator.
pub struct ThreadBuilder(());

#[derive(Default)]
pub struct ThreadPoolBuilder {
	n: usize,
}

impl fmt::Debug for ThreadPoolBuilder {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "ThreadPoolBuilder({})", self.n)
	}
}

impl ThreadPoolBuilder {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
		Ok(ThreadPool { n: self.n })
	}
	pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
		Ok(())
	}
	pub fn num_threads(mut self, n: usize) -> Self {
		self.n = n;
		self
	}
	pub fn use_current_thread(self) -> Self {
		self
	}
	pub fn stack_size(self, _: usize) -> Self {
		self
	}
	pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
		self
	}
	pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self {
		self
	}
	pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
		self
	}
	pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
		self
	}
}
