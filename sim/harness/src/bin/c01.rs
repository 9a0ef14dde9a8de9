//! C01: every satisfying witness is provable and its proof accepted, under every schedule.
use vsim::{e2e::*, sys::Sys, *};

struct ProveVerify;

impl Scenario for ProveVerify {
	fn name(&self) -> &'static str {
		"prove_verify"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 9 } else { 6 });
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		if let Err(e) = c.sys.satisfied(&c.data, &c.bds) {
			return Err(format!("harness: generated witness does not satisfy the model: {e}"));
		}
		let ccs = c.sys.build();
		let digest = cs_digest(&ccs);
		let b = Sys::boundaries(&c.bds);
		let sizes = c.sys.table_sizes();
		let job = Job {
			cs: &ccs,
			digest: &digest,
			boundaries: &b,
			sizes: &sizes,
			log_inv_rate: plan.p("rate") as usize,
			security: plan.p("security") as usize,
			host_mem: 1 << 16,
			dev_mem: 1 << 20,
		};
		let w = u128b::witness(&c.sys, &c.data);
		let proof = match cx.sim(|| u128b::prove(&job, w)) {
			Err(_) => return Err(format!("prover-panic: {:?}", take_panics())),
			Ok(Err(e)) => return Err(format!("prover-error: {e}")),
			Ok(Ok(p)) => p,
		};
		cx.observe(&proof.transcript);
		cx.count_n("proof_bytes", proof.transcript.len() as u64);
		match cx.sim(|| verify(&ccs, job.log_inv_rate, job.security, &digest, &b, proof)) {
			Err(_) => return Err(format!("verifier-panic: {:?}", take_panics())),
			Ok(Err(e)) => return Err(format!("rejected: honest proof rejected: {e}")),
			Ok(Ok(())) => {}
		}
		for col in &c.sys.cols {
			cx.count(&format!("column:{}", col.kind.tag()));
		}
		cx.nontrivial = true;
		cx.key = plan.p("shape");
		Ok(())
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify, fast_compute, hal, ntt, hash, math, field, rayon iterators"
	}
}

fn main() {
	main_for(
		"C01",
		"exploration",
		"a run counts if a satisfying witness was proved and verified; identity: system, data and interleaving",
		Budget { secs: (60, 1800), runs: (4000, 1_000_000) },
		&[&ProveVerify],
	)
}
