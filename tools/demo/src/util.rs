#![allow(dead_code)]
use binius_compute::ComputeHolder;
use binius_core::{
	constraint_system::{self as core_cs, ConstraintSystem, Proof, channel::Boundary},
	fiat_shamir::HasherChallenger,
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField128b, arch::OptimalUnderlier128b, as_packed_field::PackedType,
	tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};

pub type B128 = BinaryField128b;
pub type U = OptimalUnderlier128b;
pub type P = PackedType<U, B128>;
pub const SECURITY: usize = 40;

pub fn prove(
	ccs: &ConstraintSystem<B128>,
	boundaries: &[Boundary<B128>],
	sizes: &[usize],
	witness: MultilinearExtensionIndex<P>,
) -> Result<Proof, core_cs::error::Error> {
	let mut holder = FastCpuLayerHolder::<CanonicalTowerFamily, P>::new(1 << 16, 1 << 20);
	core_cs::prove::<
		_,
		U,
		CanonicalTowerFamily,
		Groestl256,
		Groestl256ByteCompression,
		HasherChallenger<Groestl256>,
		_,
		_,
		_,
	>(
		&mut holder.to_data(),
		ccs,
		1,
		SECURITY,
		&ccs.digest::<Groestl256>(),
		boundaries,
		sizes,
		witness,
		&binius_hal::make_portable_backend(),
	)
}

pub fn verify(
	ccs: &ConstraintSystem<B128>,
	boundaries: &[Boundary<B128>],
	proof: Proof,
) -> Result<(), core_cs::error::Error> {
	core_cs::verify::<
		U,
		CanonicalTowerFamily,
		Groestl256,
		Groestl256ByteCompression,
		HasherChallenger<Groestl256>,
	>(ccs, 1, SECURITY, &ccs.digest::<Groestl256>(), boundaries, proof)
}
