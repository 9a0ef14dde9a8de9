//! C02: the proof is a function of statement and witness alone.
use binius_compute::ComputeHolder;
use binius_core::{constraint_system as cs, fiat_shamir::HasherChallenger};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::tower::CanonicalTowerFamily;
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use vsim::{e2e::*, sys::Sys, *};

struct Same;

impl Scenario for Same {
	fn name(&self) -> &'static str {
		"same_proof"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 9 } else { 6 });
		for _ in 0..2 {
			let k = *r.pick(&["schedule", "schedule", "schedule", "wide256", "wide512", "memory", "used memory"]);
			plan.faults.push(Fault::new(k, &[r.next()]));
		}
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		let sizes = c.sys.table_sizes();
		let mut job = Job {
			cs: &ccs,
			digest: &digest,
			boundaries: &b,
			sizes: &sizes,
			log_inv_rate: plan.p("rate") as usize,
			security: plan.p("security") as usize,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		let unwrap = |what: &str, r: std::thread::Result<Result<cs::Proof, cs::error::Error>>| match r {
			Err(_) => Err(format!("prover-panic: {what}: {:?}", take_panics())),
			Ok(Err(e)) => Err(format!("prover-error: {what}: {e}")),
			Ok(Ok(p)) => Ok(p.transcript),
		};
		let w = u128b::witness(&c.sys, &c.data);
		let reference = unwrap("reference", cx.seq(|| u128b::prove(&job, w)))?;
		cx.observe(&reference);
		for f in &plan.faults {
			let (what, p) = match f.kind.as_str() {
				"wide256" => {
					let w = u256b::witness(&c.sys, &c.data);
					(f.kind.as_str(), unwrap("256-bit packing", cx.sim(|| u256b::prove(&job, w)))?)
				}
				"wide512" => {
					let w = u512b::witness(&c.sys, &c.data);
					(f.kind.as_str(), unwrap("512-bit packing", cx.sim(|| u512b::prove(&job, w)))?)
				}
				"memory" => {
					job.dev_mem = 1 << (19 + f.args[0] % 4);
					job.host_mem = 1 << (14 + f.args[0] / 4 % 4);
					let w = u128b::witness(&c.sys, &c.data);
					(f.kind.as_str(), unwrap("other memory size", cx.sim(|| u128b::prove(&job, w)))?)
				}
				"used memory" => {
					// The same memory serves two proofs in a row.
					let w1 = u128b::witness(&c.sys, &c.data);
					let w2 = u128b::witness(&c.sys, &c.data);
					let r = cx.sim(|| {
						let mut holder =
							FastCpuLayerHolder::<CanonicalTowerFamily, u128b::P>::new(job.host_mem, job.dev_mem);
						let mut out = None;
						for w in [w1, w2] {
							out = Some(cs::prove::<
								_,
								u128b::U,
								CanonicalTowerFamily,
								Groestl256,
								Groestl256ByteCompression,
								HasherChallenger<Groestl256>,
								_,
								_,
								_,
							>(
								&mut holder.to_data(),
								job.cs,
								job.log_inv_rate,
								job.security,
								job.digest,
								job.boundaries,
								job.sizes,
								w,
								&binius_hal::make_portable_backend(),
							)?);
						}
						Ok(out.unwrap())
					});
					(f.kind.as_str(), unwrap("memory used before", r)?)
				}
				_ => {
					let w = u128b::witness(&c.sys, &c.data);
					(f.kind.as_str(), unwrap("schedule", cx.sim(|| u128b::prove(&job, w)))?)
				}
			};
			cx.fired(what);
			if p != reference {
				let k = p.iter().zip(&reference).take_while(|(a, b)| a == b).count();
				return Err(format!(
					"differs: proof changes with {what} from byte {k} on ({} and {} bytes)",
					reference.len(),
					p.len()
				));
			}
		}
		cx.nontrivial = true;
		cx.key = plan.p("shape");
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove, fast_compute, hal, ntt, hash, math, field (128, 256 and 512-bit packings), rayon iterators"
	}
}

fn main() {
	main_for(
		"C02",
		"exploration",
		"a run counts if at least one varied proof was compared byte for byte with the reference; identity: system, data and interleaving",
		Budget { secs: (60, 1800), runs: (5000, 1_000_000) },
		&[&Same],
	)
}
