//! C03: no proof of a statement that the reference model finds unsatisfied is accepted.
use vsim::{
	e2e::*,
	sys::{B128, Bd, Data, Kind, Sys, elem, nonzero_elem},
	*,
};

/// Proves with the prover's view (`psys`, `data`) and verifies against the public statement.
/// Returns whether it was accepted.
fn attempt(
	plan: &Plan,
	cx: &mut Cx,
	psys: &Sys,
	vsys: &Sys,
	data: &Data,
	pbds: &[Bd],
	vbds: &[Bd],
) -> Result<bool, String> {
	let Ok(pcs) = psys.try_build() else { return Ok(false) };
	let vcs = vsys.build();
	let digest = cs_digest(&vcs);
	let pb = Sys::boundaries(pbds);
	let vb = Sys::boundaries(vbds);
	let sizes = psys.table_sizes();
	let job = Job {
		cs: &pcs,
		digest: &digest,
		boundaries: &pb,
		sizes: &sizes,
		log_inv_rate: plan.p("rate") as usize,
		security: plan.p("security") as usize,
		host_mem: 1 << 16,
		dev_mem: 1 << 20,
	};
	let w = u128b::witness(psys, data);
	// The dishonest prover may do anything, including giving up.
	binius_core::constraint_system::vsim_hooks::set_dishonest(true);
	let proof = cx.sim(|| u128b::prove(&job, w));
	binius_core::constraint_system::vsim_hooks::set_dishonest(false);
	let proof = match proof {
		Err(_) => {
			cx.count("prover gave up: panic");
			take_panics();
			return Ok(false);
		}
		Ok(Err(_)) => {
			cx.count("prover gave up: error");
			return Ok(false);
		}
		Ok(Ok(p)) => p,
	};
	cx.observe(&proof.transcript);
	match cx.sim(|| verify(&vcs, job.log_inv_rate, job.security, &digest, &vb, proof)) {
		Err(_) => Err(format!("verifier-panic: {:?}", take_panics())),
		Ok(Err(e)) => {
			cx.count("rejected");
			cx.observe(e.to_string().as_bytes());
			Ok(false)
		}
		Ok(Ok(())) => Ok(true),
	}
}

fn judge(cx: &mut Cx, plan: &Plan, kind: &str, accepted: bool, truth: Result<(), String>) -> Verdict {
	cx.key = plan.p("shape") ^ plan.p("attack").rotate_left(7);
	match truth {
		Err(why) => {
			cx.nontrivial = true;
			cx.fired(kind);
			if accepted {
				return Err(format!("accepted: unsatisfied statement accepted after {kind}: {why}"));
			}
		}
		Ok(()) => cx.count("attack had no effect"),
	}
	Ok(())
}

/// A wrong cell in the witness; what depends on it may or may not be recomputed from it.
struct BadCell;
impl Scenario for BadCell {
	fn name(&self) -> &'static str {
		"bad_cell"
	}
	fn weight(&self) -> u32 {
		3
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 7 } else { 5 });
		plan.set("attack", r.next());
		plan.set("mode", r.below(4));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let mut r = Rng::derive(plan.p("attack"), "cell");
		let mut d = c.data.clone();
		let mut bds = c.bds.clone();
		// A column the statement depends on, if possible.
		let rel = c.sys.relevant();
		let any = r.chance(1, 8);
		let opts: Vec<usize> = (0..c.sys.cols.len())
			.filter(|&x| (any || rel[x]) && c.sys.alive(x))
			.collect();
		if opts.is_empty() {
			return Ok(());
		}
		let col = *r.pick(&opts);
		let n = 1usize << c.sys.n_vars(col);
		let rows = if c.sys.cols[col].single_row {
			n
		} else {
			c.sys.tables[c.sys.cols[col].table].size << c.sys.cols[col].lvpr
		};
		let i = if r.chance(7, 8) { r.usize(rows.min(n)) } else { r.usize(n) };
		let level = c.sys.cols[col].level;
		let is_nz = c.sys.nonzero.contains(&col);
		if is_nz && r.chance(1, 2) {
			d[col][i] = B128::new(0);
		} else {
			d[col][i] += nonzero_elem(&mut r, level);
		}
		let virt = !c.sys.cols[col].kind.committed();
		let mode = plan.p("mode");
		if mode >= 1 {
			c.sys.propagate(&mut d, col);
		}
		if mode >= 2 {
			bds = c.sys.balance(&mut r, &d);
		}
		// Results of exponentiations follow, unless one of them is under attack.
		for _ in 0..=c.sys.exps.len() {
			for e in 0..c.sys.exps.len() {
				let x = c.sys.exps[e].result;
				if c.sys.alive(x) && x != col {
					d[x] = c.sys.exp_values(e, &d);
				}
			}
		}
		let truth = c.sys.committed_satisfied(&d, &bds);
		if truth.is_ok() {
			cx.count("attack had no effect");
			return Ok(());
		}
		let kind = match (virt, mode) {
			(false, 0) => "wrong committed cell",
			(false, 1) => "wrong committed cell, dependents follow",
			(false, _) => "wrong committed cell, dependents and boundaries follow",
			(true, 0) => "wrong virtual cell",
			(true, 1) => "wrong virtual cell, dependents follow",
			(true, _) => "wrong virtual cell, dependents and boundaries follow",
		};
		let acc = attempt(plan, cx, &c.sys, &c.sys, &d, &bds, &bds)?;
		cx.count(&format!("target:{}", c.sys.cols[col].kind.tag()));
		judge(cx, plan, kind, acc, truth)
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below"
	}
}

/// The prover runs on a different constraint system than the verifier's.
struct OtherSystem;
impl Scenario for OtherSystem {
	fn name(&self) -> &'static str {
		"other_system"
	}
	fn weight(&self) -> u32 {
		4
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 7 } else { 5 });
		if r.chance(1, 3) {
			plan.set("exps", r.range(1, 3));
		}
		plan.set("attack", r.next());
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let c = make_case(plan);
		cx.sample = c.sys.describe();
		let mut r = Rng::derive(plan.p("attack"), "mutate");
		let mut tries = 0;
		let (psys, what) = loop {
			let mut m = c.sys.clone();
			if let Some(w) = m.mutate(&mut r) {
				break (m, w);
			}
			tries += 1;
			if tries > 60 {
				cx.count("nothing to change");
				return Ok(());
			}
		};
		let mut rd = Rng::derive(plan.p("shape"), "data");
		let d = psys.fill(&mut rd);
		let bds = psys.balance(&mut r, &d);
		if psys.satisfied(&d, &bds).is_err() {
			cx.count("changed system has no such witness");
			return Ok(());
		}
		let truth = c.sys.committed_satisfied(&d, &bds);
		if truth.is_ok() {
			cx.count("attack had no effect");
			return Ok(());
		}
		let acc = attempt(plan, cx, &psys, &c.sys, &d, &bds, &bds)?;
		judge(cx, plan, &format!("prover on other system, {what}"), acc, truth)
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below"
	}
}

/// The boundaries do not balance, or prover and verifier use different ones.
struct BadBoundary;
impl Scenario for BadBoundary {
	fn name(&self) -> &'static str {
		"bad_boundary"
	}
	fn weight(&self) -> u32 {
		2
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 7 } else { 5 });
		plan.set("flushes", r.range(1, 4));
		plan.set("attack", r.next());
		plan.set("mode", r.below(3));
		// Channels without any flush, and tables without rows.
		plan.set("extra_channels", r.below(3));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut c = make_case(plan);
		let mut r = Rng::derive(plan.p("attack"), "bd");
		let used = c.sys.channels;
		c.sys.channels += plan.p("extra_channels") as usize;
		if r.chance(1, 6) {
			// Every flush is in a table without rows.
			for t in 1..c.sys.tables.len() {
				c.sys.tables[t].size = 0;
				c.sys.tables[t].spec = binius_core::constraint_system::TableSizeSpec::Arbitrary;
			}
			if c.sys.tables.len() > 1 {
				c.sys.flushes.retain(|f| f.table > 0);
			}
			if c.sys.flushes.is_empty() {
				return Ok(());
			}
			let dead = c.sys.tables.iter().map(|t| t.size == 0).collect::<Vec<_>>();
			for i in 0..c.sys.cols.len() {
				if dead[c.sys.cols[i].table]
					&& matches!(
						c.sys.cols[i].kind,
						Kind::StepDown(_) | Kind::StepUp(_) | Kind::SelectRow(_) | Kind::ConstT(_)
					) {
					return Ok(());
				}
			}
			let mut rd = Rng::derive(plan.p("shape"), "data");
			c.data = c.sys.fill(&mut rd);
			c.bds = c.sys.balance(&mut rd, &c.data);
		}
		cx.sample = c.sys.describe();
		let mut bds = c.bds.clone();
		let change = if bds.is_empty() { r.below(2) } else { r.below(8) };
		let what = match change {
			0 => {
				let ch = r.usize(used.max(1));
				let w = c.sys.flushes.iter().find(|f| f.channel == ch).map_or(1, |f| f.vals.len());
				let values = (0..w).map(|_| elem(&mut r, 7)).collect();
				bds.push(Bd { values, channel: ch, push: r.chance(1, 2), mult: r.range(1, 3) });
				"extra boundary"
			}
			1 => {
				if c.sys.channels == used {
					return Ok(());
				}
				let values = vec![elem(&mut r, 7)];
				bds.push(Bd { values, channel: r.range(used as u64, c.sys.channels as u64 - 1) as usize, push: r.chance(1, 2), mult: 1 });
				"boundary on unused channel"
			}
			2 => {
				let i = r.usize(bds.len());
				bds.remove(i);
				"boundary dropped"
			}
			3 => {
				let i = r.usize(bds.len());
				let k = r.usize(bds[i].values.len());
				bds[i].values[k] += nonzero_elem(&mut r, 7);
				"boundary value changed"
			}
			4 => {
				let i = r.usize(bds.len());
				bds[i].mult += r.range(1, 4);
				"boundary multiplicity changed"
			}
			5 => {
				let i = r.usize(bds.len());
				bds[i].push = !bds[i].push;
				"boundary direction flipped"
			}
			6 => {
				let i = r.usize(bds.len());
				let b = bds[i].clone();
				bds.push(b);
				"boundary duplicated"
			}
			_ => {
				let i = r.usize(bds.len());
				let w = bds[i].values.len();
				let opts: Vec<usize> = (0..used)
					.filter(|&ch| {
						ch != bds[i].channel
							&& c.sys.flushes.iter().find(|f| f.channel == ch).is_none_or(|f| f.vals.len() == w)
					})
					.collect();
				if opts.is_empty() {
					return Ok(());
				}
				bds[i].channel = *r.pick(&opts);
				"boundary moved to another channel"
			}
		};
		let truth = c.sys.committed_satisfied(&c.data, &bds);
		if truth.is_ok() {
			cx.count("attack had no effect");
			return Ok(());
		}
		// Either both sides use the wrong boundaries, or only one of them.
		let (p, v): (&[Bd], &[Bd]) = if plan.p("mode") < 2 { (&bds, &bds) } else { (&c.bds, &bds) };
		let acc = attempt(plan, cx, &c.sys, &c.sys, &c.data, p, v)?;
		judge(cx, plan, what, acc, truth)
	}
	fn real(&self) -> &'static str {
		"binius_core prove/verify and everything below"
	}
}

fn main() {
	main_for(
		"C03",
		"fault_enumeration",
		"a run counts if the reference model finds the attacked statement unsatisfied; identity: system, attack and interleaving",
		Budget { secs: (60, 1800), runs: (6000, 1_000_000) },
		&[&BadCell, &OtherSystem, &BadBoundary],
	)
}
