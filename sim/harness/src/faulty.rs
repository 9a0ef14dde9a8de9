//! A compute layer, allocator and backend that fail on command, around the real ones.
//!
//! The switchboard is process-wide: every run has a process of its own, and the prover makes some
//! layers itself with `Default`.
use std::{
	marker::PhantomData,
	sync::{
		Mutex,
		atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
	},
};

use binius_compute::{
	ComputeLayer, ComputeLayerExecutor, KernelBuffer, KernelExecutor, KernelMemMap,
	alloc::{ComputeAllocator, Error as AllocError},
	layer::{Error, FSlice, FSliceMut},
	memory::{ComputeMemory, SlicesBatch, SubfieldSlice},
};
use binius_field::{BinaryField, ExtensionField, Field, PackedExtension, PackedField};
use binius_hal::{ComputationBackend, CpuBackend, RoundEvals, SumcheckEvaluator, SumcheckMultilinear};
use binius_math::{
	ArithCircuit, CompositionPoly, EvaluationOrder, MultilinearExtension, MultilinearPoly, MultilinearQueryRef,
};
use binius_ntt::AdditiveNTT;

/// What fails: operations of this class, from the n-th on, `times` of them.
struct Board {
	class: String,
	seen: u64,
	nth: u64,
	times: u64,
	fired: Vec<String>,
	total: std::collections::BTreeMap<&'static str, u64>,
}

static ON: AtomicBool = AtomicBool::new(false);
static FIRED: AtomicU64 = AtomicU64::new(0);
static BOARD: Mutex<Board> = Mutex::new(Board {
	class: String::new(),
	seen: 0,
	nth: 0,
	times: 0,
	fired: Vec::new(),
	total: std::collections::BTreeMap::new(),
});

/// Classes: "device" (all layer operations), "kernel", "alloc", "backend", or one operation's name.
pub fn arm(class: &str, nth: u64, times: u64) {
	let mut b = BOARD.lock().unwrap();
	b.class = class.into();
	b.seen = 0;
	b.nth = nth;
	b.times = times;
	b.fired.clear();
	b.total.clear();
	FIRED.store(0, SeqCst);
	ON.store(true, SeqCst);
}

/// Stops injecting; returns the operations that failed, and how many there were of each class.
pub fn disarm() -> (Vec<String>, std::collections::BTreeMap<&'static str, u64>) {
	ON.store(false, SeqCst);
	let mut b = BOARD.lock().unwrap();
	(std::mem::take(&mut b.fired), std::mem::take(&mut b.total))
}

pub fn fired() -> u64 {
	FIRED.load(SeqCst)
}

fn fails(class: &'static str, op: &'static str) -> bool {
	if !ON.load(SeqCst) {
		return false;
	}
	let mut b = BOARD.lock().unwrap();
	*b.total.entry(class).or_default() += 1;
	if b.class != class && b.class != op {
		return false;
	}
	b.seen += 1;
	if b.seen > b.nth && b.seen <= b.nth.saturating_add(b.times) {
		if b.fired.len() < 20 {
			b.fired.push(op.into());
		}
		FIRED.fetch_add(1, SeqCst);
		return true;
	}
	false
}

fn gate(class: &'static str, op: &'static str) -> Result<(), Error> {
	if fails(class, op) { Err(Error::DeviceError(format!("injected: {op}").into())) } else { Ok(()) }
}

#[derive(Debug, Default)]
pub struct Faulty<H>(pub H);

#[repr(transparent)]
pub struct FaultyExec<E>(E);
#[repr(transparent)]
pub struct FaultyKernel<K>(K);

fn wrap<E>(e: &mut E) -> &mut FaultyExec<E> {
	// Same layout.
	unsafe { &mut *(e as *mut E as *mut FaultyExec<E>) }
}
fn wrap_kernel<K>(k: &mut K) -> &mut FaultyKernel<K> {
	unsafe { &mut *(k as *mut K as *mut FaultyKernel<K>) }
}

impl<F: Field, H: ComputeLayer<F>> ComputeLayer<F> for Faulty<H> {
	type DevMem = H::DevMem;
	type Exec<'a>
		= FaultyExec<H::Exec<'a>>
	where
		Self: 'a;

	fn copy_h2d(&self, src: &[F], dst: &mut FSliceMut<'_, F, Self>) -> Result<(), Error> {
		gate("device", "copy_h2d")?;
		self.0.copy_h2d(src, dst)
	}
	fn copy_d2h(&self, src: FSlice<'_, F, Self>, dst: &mut [F]) -> Result<(), Error> {
		gate("device", "copy_d2h")?;
		self.0.copy_d2h(src, dst)
	}
	fn copy_d2d(&self, src: FSlice<'_, F, Self>, dst: &mut FSliceMut<'_, F, Self>) -> Result<(), Error> {
		gate("device", "copy_d2d")?;
		self.0.copy_d2d(src, dst)
	}
	fn compile_expr(
		&self,
		expr: &ArithCircuit<F>,
	) -> Result<<Self::Exec<'_> as ComputeLayerExecutor<F>>::ExprEval, Error> {
		gate("device", "compile_expr")?;
		self.0.compile_expr(expr)
	}
	fn execute<'a, 'b>(
		&'b self,
		f: impl FnOnce(
			&mut Self::Exec<'a>,
		) -> Result<Vec<<Self::Exec<'a> as ComputeLayerExecutor<F>>::OpValue>, Error>,
	) -> Result<Vec<F>, Error>
	where
		'b: 'a,
	{
		gate("device", "execute")?;
		self.0.execute(|e| f(wrap(e)))
	}
	fn fill(&self, slice: &mut <Self::DevMem as ComputeMemory<F>>::FSliceMut<'_>, value: F) -> Result<(), Error> {
		gate("device", "fill")?;
		self.0.fill(slice, value)
	}
}

type FS<'a, F, E> = <<E as ComputeLayerExecutor<F>>::DevMem as ComputeMemory<F>>::FSlice<'a>;
type FSM<'a, F, E> = <<E as ComputeLayerExecutor<F>>::DevMem as ComputeMemory<F>>::FSliceMut<'a>;

impl<F: Field, E: ComputeLayerExecutor<F>> ComputeLayerExecutor<F> for FaultyExec<E> {
	type ExprEval = E::ExprEval;
	type DevMem = E::DevMem;
	type OpValue = E::OpValue;
	type KernelExec = FaultyKernel<E::KernelExec>;

	fn join<Out1: Send, Out2: Send>(
		&mut self,
		op1: impl Send + FnOnce(&mut Self) -> Result<Out1, Error>,
		op2: impl Send + FnOnce(&mut Self) -> Result<Out2, Error>,
	) -> Result<(Out1, Out2), Error> {
		gate("device", "join")?;
		self.0.join(|e| op1(wrap(e)), |e| op2(wrap(e)))
	}
	fn map<Out: Send, I: ExactSizeIterator<Item: Send> + Send>(
		&mut self,
		iter: I,
		map: impl Sync + Fn(&mut Self, I::Item) -> Result<Out, Error>,
	) -> Result<Vec<Out>, Error> {
		gate("device", "map")?;
		self.0.map(iter, |e, i| map(wrap(e), i))
	}
	fn accumulate_kernels(
		&mut self,
		map: impl Sync
		+ for<'a> Fn(
			&'a mut Self::KernelExec,
			usize,
			Vec<KernelBuffer<'a, F, <Self::KernelExec as KernelExecutor<F>>::Mem>>,
		) -> Result<Vec<<Self::KernelExec as KernelExecutor<F>>::Value>, Error>,
		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
	) -> Result<Vec<Self::OpValue>, Error> {
		gate("device", "accumulate_kernels")?;
		self.0.accumulate_kernels(|k, n, b| map(wrap_kernel(k), n, b), mem_maps)
	}
	fn map_kernels(
		&mut self,
		map: impl Sync
		+ for<'a> Fn(
			&'a mut Self::KernelExec,
			usize,
			Vec<KernelBuffer<'a, F, <Self::KernelExec as KernelExecutor<F>>::Mem>>,
		) -> Result<(), Error>,
		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
	) -> Result<(), Error> {
		gate("device", "map_kernels")?;
		self.0.map_kernels(|k, n, b| map(wrap_kernel(k), n, b), mem_maps)
	}
	fn inner_product(
		&mut self,
		a_in: SubfieldSlice<'_, F, Self::DevMem>,
		b_in: FS<'_, F, Self>,
	) -> Result<Self::OpValue, Error> {
		gate("device", "inner_product")?;
		self.0.inner_product(a_in, b_in)
	}
	fn tensor_expand(&mut self, log_n: usize, coordinates: &[F], data: &mut FSM<'_, F, Self>) -> Result<(), Error> {
		gate("device", "tensor_expand")?;
		self.0.tensor_expand(log_n, coordinates, data)
	}
	fn fold_left(
		&mut self,
		mat: SubfieldSlice<'_, F, Self::DevMem>,
		vec: FS<'_, F, Self>,
		out: &mut FSM<'_, F, Self>,
	) -> Result<(), Error> {
		gate("device", "fold_left")?;
		self.0.fold_left(mat, vec, out)
	}
	fn fold_right(
		&mut self,
		mat: SubfieldSlice<'_, F, Self::DevMem>,
		vec: FS<'_, F, Self>,
		out: &mut FSM<'_, F, Self>,
	) -> Result<(), Error> {
		gate("device", "fold_right")?;
		self.0.fold_right(mat, vec, out)
	}
	fn fri_fold<FSub>(
		&mut self,
		ntt: &(impl AdditiveNTT<FSub> + Sync),
		log_len: usize,
		log_batch_size: usize,
		challenges: &[F],
		data_in: FS<'_, F, Self>,
		data_out: &mut FSM<'_, F, Self>,
	) -> Result<(), Error>
	where
		FSub: BinaryField,
		F: ExtensionField<FSub>,
	{
		gate("device", "fri_fold")?;
		self.0.fri_fold(ntt, log_len, log_batch_size, challenges, data_in, data_out)
	}
	fn extrapolate_line(
		&mut self,
		evals_0: &mut FSM<'_, F, Self>,
		evals_1: FS<'_, F, Self>,
		z: F,
	) -> Result<(), Error> {
		gate("device", "extrapolate_line")?;
		self.0.extrapolate_line(evals_0, evals_1, z)
	}
	fn compute_composite(
		&mut self,
		inputs: &SlicesBatch<FS<'_, F, Self>>,
		output: &mut FSM<'_, F, Self>,
		composition: &Self::ExprEval,
	) -> Result<(), Error> {
		gate("device", "compute_composite")?;
		self.0.compute_composite(inputs, output, composition)
	}
	fn pairwise_product_reduce(
		&mut self,
		input: FS<'_, F, Self>,
		round_outputs: &mut [FSM<'_, F, Self>],
	) -> Result<(), Error> {
		gate("device", "pairwise_product_reduce")?;
		self.0.pairwise_product_reduce(input, round_outputs)
	}
}

impl<F, K: KernelExecutor<F>> KernelExecutor<F> for FaultyKernel<K> {
	type Mem = K::Mem;
	type Value = K::Value;
	type ExprEval = K::ExprEval;

	fn decl_value(&mut self, init: F) -> Result<Self::Value, Error> {
		gate("kernel", "decl_value")?;
		self.0.decl_value(init)
	}
	fn sum_composition_evals(
		&mut self,
		inputs: &SlicesBatch<<Self::Mem as ComputeMemory<F>>::FSlice<'_>>,
		composition: &Self::ExprEval,
		batch_coeff: F,
		accumulator: &mut Self::Value,
	) -> Result<(), Error> {
		gate("kernel", "sum_composition_evals")?;
		self.0.sum_composition_evals(inputs, composition, batch_coeff, accumulator)
	}
	fn add(
		&mut self,
		log_len: usize,
		src1: <Self::Mem as ComputeMemory<F>>::FSlice<'_>,
		src2: <Self::Mem as ComputeMemory<F>>::FSlice<'_>,
		dst: &mut <Self::Mem as ComputeMemory<F>>::FSliceMut<'_>,
	) -> Result<(), Error> {
		gate("kernel", "add")?;
		self.0.add(log_len, src1, src2, dst)
	}
	fn add_assign(
		&mut self,
		log_len: usize,
		src: <Self::Mem as ComputeMemory<F>>::FSlice<'_>,
		dst: &mut <Self::Mem as ComputeMemory<F>>::FSliceMut<'_>,
	) -> Result<(), Error> {
		gate("kernel", "add_assign")?;
		self.0.add_assign(log_len, src, dst)
	}
}

pub struct FaultyAlloc<F, M, A>(A, &'static str, PhantomData<(F, M)>);

unsafe impl<F, M, A: Send> Send for FaultyAlloc<F, M, A> {}
unsafe impl<F, M, A: Sync> Sync for FaultyAlloc<F, M, A> {}

impl<F, M: ComputeMemory<F>, A: ComputeAllocator<F, M>> FaultyAlloc<F, M, A> {
	pub fn new(a: A, op: &'static str) -> Self {
		FaultyAlloc(a, op, PhantomData)
	}
}

impl<F, M: ComputeMemory<F>, A: ComputeAllocator<F, M>> ComputeAllocator<F, M> for FaultyAlloc<F, M, A> {
	fn alloc(&self, n: usize) -> Result<M::FSliceMut<'_>, AllocError> {
		if fails("alloc", self.1) {
			return Err(AllocError::OutOfMemory);
		}
		self.0.alloc(n)
	}
	fn capacity(&self) -> usize {
		self.0.capacity()
	}
	fn subscope_allocator(&mut self) -> impl ComputeAllocator<F, M> {
		FaultyAlloc::new(self.0.subscope_allocator(), self.1)
	}
}

#[derive(Debug)]
pub struct FaultyBackend(pub CpuBackend);

impl Default for FaultyBackend {
	fn default() -> Self {
		Self(binius_hal::make_portable_backend())
	}
}

fn bgate(op: &'static str) -> Result<(), binius_hal::Error> {
	if fails("backend", op) {
		Err(binius_hal::Error::BackendError(format!("injected: {op}").into()))
	} else {
		Ok(())
	}
}

impl ComputationBackend for FaultyBackend {
	type Vec<P: Send + Sync + std::fmt::Debug + 'static> = Vec<P>;

	fn to_hal_slice<P: std::fmt::Debug + Send + Sync + 'static>(v: Vec<P>) -> Self::Vec<P> {
		v
	}
	fn tensor_product_full_query<P: PackedField>(
		&self,
		query: &[P::Scalar],
	) -> Result<Self::Vec<P>, binius_hal::Error> {
		bgate("tensor_product_full_query")?;
		self.0.tensor_product_full_query(query)
	}
	fn sumcheck_compute_round_evals<FDomain, P, M, Evaluator, Composition>(
		&self,
		evaluation_order: EvaluationOrder,
		n_vars: usize,
		tensor_query: Option<MultilinearQueryRef<P>>,
		multilinears: &[SumcheckMultilinear<P, M>],
		evaluators: &[Evaluator],
		nontrivial_evaluation_points: &[FDomain],
	) -> Result<Vec<RoundEvals<P::Scalar>>, binius_hal::Error>
	where
		FDomain: Field,
		P: PackedExtension<FDomain>,
		M: MultilinearPoly<P> + Send + Sync,
		Evaluator: SumcheckEvaluator<P, Composition> + Sync,
		Composition: CompositionPoly<P>,
	{
		bgate("sumcheck_compute_round_evals")?;
		self.0.sumcheck_compute_round_evals(
			evaluation_order,
			n_vars,
			tensor_query,
			multilinears,
			evaluators,
			nontrivial_evaluation_points,
		)
	}
	fn sumcheck_fold_multilinears<P, M>(
		&self,
		evaluation_order: EvaluationOrder,
		n_vars: usize,
		multilinears: &mut [SumcheckMultilinear<P, M>],
		challenge: P::Scalar,
		tensor_query: Option<MultilinearQueryRef<P>>,
	) -> Result<bool, binius_hal::Error>
	where
		P: PackedField,
		M: MultilinearPoly<P> + Send + Sync,
	{
		bgate("sumcheck_fold_multilinears")?;
		self.0.sumcheck_fold_multilinears(evaluation_order, n_vars, multilinears, challenge, tensor_query)
	}
	fn evaluate_partial_high<P: PackedField>(
		&self,
		multilinear: &impl MultilinearPoly<P>,
		query_expansion: MultilinearQueryRef<P>,
	) -> Result<MultilinearExtension<P>, binius_hal::Error> {
		bgate("evaluate_partial_high")?;
		self.0.evaluate_partial_high(multilinear, query_expansion)
	}
}

/// Operations of the armed class so far.
pub fn seen() -> u64 {
	BOARD.lock().unwrap().seen
}
