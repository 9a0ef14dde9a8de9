use std::{
	collections::{BTreeMap, HashSet},
	fs::File,
	io::{Read, Seek, SeekFrom, Write},
	os::fd::FromRawFd,
	path::PathBuf,
	sync::Mutex,
	time::{Duration, Instant},
};

use rayon_core::sim;
use serde_json::{Value, json};

use crate::{Plan, Rng};

/// `Err("kind: details")` is a violation.
pub type Verdict = Result<(), String>;

pub trait Scenario: Sync {
	fn name(&self) -> &'static str;
	/// Relative share of the runs.
	fn weight(&self) -> u32 {
		1
	}
	/// Draws parameters and faults.
	fn draw(&self, plan: &mut Plan, rng: &mut Rng, thorough: bool);
	/// Executes the plan in a forked process of its own.
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict;
	/// Lower bound of a parameter, for shrinking; `None`: do not shrink it.
	fn floor(&self, _param: &str) -> Option<u64> {
		None
	}
	/// Plans that are always run, before the random ones.
	fn fixed(&self, _thorough: bool) -> Vec<Plan> {
		Vec::new()
	}
	fn real(&self) -> &'static str;
	fn stub(&self) -> &'static str {
		"rayon-core thread pool (deterministic simulator); futex, getrandom (interposed)"
	}
}

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static mut OUT_FD: i32 = -1;

pub fn take_panics() -> Vec<String> {
	std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// What a running case has observed so far.
pub struct Cx {
	plan: Plan,
	record: *mut u64,
	record_cap: usize,
	sims: u64,
	pub stats: sim::Stats,
	pub counts: BTreeMap<String, u64>,
	pub digest: u64,
	pub nontrivial: bool,
	/// Identity of the case, for counting distinct ones.
	pub key: u64,
	pub sample: String,
}

pub fn fnv(mut h: u64, data: &[u8]) -> u64 {
	if h == 0 {
		h = 0xcbf2_9ce4_8422_2325;
	}
	for &b in data {
		h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
	}
	h
}

impl Cx {
	pub fn count(&mut self, what: &str) {
		self.count_n(what, 1);
	}
	pub fn count_n(&mut self, what: &str, n: u64) {
		if n > 0 {
			*self.counts.entry(what.into()).or_default() += n;
		}
	}
	/// A fault that really took effect in this run.
	pub fn fired(&mut self, kind: &str) {
		self.count(&format!("fault:{kind}"));
	}
	/// Observed output: part of the determinism digest.
	pub fn observe(&mut self, data: &[u8]) {
		self.digest = fnv(self.digest, data).wrapping_add(data.len() as u64);
	}

	/// Runs `f` under the plan's schedule.
	pub fn sim<R: Send>(&mut self, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
		let strategy = self.plan.strategy();
		self.sim_with(self.plan.workers as usize, self.plan.main_is_worker, strategy, true, f)
	}

	/// Reference execution: one worker, no preemption.
	pub fn seq<R: Send>(&mut self, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
		self.sim_with(1, false, sim::Strategy::Sequential, false, f)
	}

	pub fn sim_with<R: Send>(
		&mut self,
		workers: usize,
		main_is_worker: bool,
		strategy: sim::Strategy,
		explored: bool,
		f: impl FnOnce() -> R + Send,
	) -> std::thread::Result<R> {
		let base = self.sims << 40;
		self.sims += 1;
		let cfg = sim::Config {
			workers,
			main_is_worker,
			strategy,
			seed: self.plan.sseed.wrapping_add(base),
			atomic_period: if explored { self.plan.atomic as u32 } else { 0 },
			replay: if explored { self.plan.replay.clone() } else { None },
			max_decisions: 1 << 36,
			base,
			record: if explored { self.record } else { std::ptr::null_mut() },
			record_cap: self.record_cap,
		};
		let (r, st) = sim::run(cfg, f);
		if explored {
			let a = &mut self.stats;
			a.decisions += st.decisions;
			a.nondefault += st.nondefault;
			a.switches += st.switches;
			a.joins += st.joins;
			a.jobs += st.jobs;
			a.steals += st.steals;
			a.nested_steals += st.nested_steals;
			a.atomic_ops += st.atomic_ops;
			a.atomic_preemptions += st.atomic_preemptions;
			a.futex_waits += st.futex_waits;
			a.spawns += st.spawns;
			a.injected += st.injected;
			a.max_nesting = a.max_nesting.max(st.max_nesting);
			a.record_overflow += st.record_overflow;
			a.trace_hash = a.trace_hash.rotate_left(7) ^ st.trace_hash;
		}
		r
	}
}

#[derive(Clone, Debug)]
pub struct Outcome {
	pub verdict: Option<String>,
	pub v: Value,
}

impl Outcome {
	fn digest(&self) -> String {
		format!("{} {} {:?}", self.v["digest"], self.v["trace_hash"], self.verdict)
	}
	fn kind(&self) -> String {
		match &self.verdict {
			Some(m) => m.split(':').next().unwrap_or("").to_string(),
			None => String::new(),
		}
	}
}

const REC_CAP: usize = 1 << 20;

struct Slot {
	cpu: usize,
	record: *mut u64,
	out: File,
	err: File,
	running: Option<(i32, Job)>,
}

#[derive(Clone)]
struct Job {
	plan: Plan,
	tag: u64,
}

fn memfd(name: &str) -> File {
	let c = std::ffi::CString::new(name).unwrap();
	unsafe {
		let fd = libc::memfd_create(c.as_ptr(), 0);
		assert!(fd >= 0, "memfd_create");
		File::from_raw_fd(fd)
	}
}

fn cpus() -> Vec<usize> {
	unsafe {
		let mut set: libc::cpu_set_t = std::mem::zeroed();
		if libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut set) != 0 {
			return vec![0];
		}
		let v: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
		if v.is_empty() { vec![0] } else { v }
	}
}

impl Slot {
	fn new(cpu: usize) -> Self {
		let record = unsafe {
			let p = libc::mmap(
				std::ptr::null_mut(),
				REC_CAP * 8,
				libc::PROT_READ | libc::PROT_WRITE,
				libc::MAP_SHARED | libc::MAP_ANONYMOUS,
				-1,
				0,
			);
			assert!(p != libc::MAP_FAILED);
			p as *mut u64
		};
		Slot { cpu, record, out: memfd("out"), err: memfd("err"), running: None }
	}

	fn start(&mut self, scens: &[&dyn Scenario], job: Job) {
		unsafe { *self.record = 0 };
		for f in [&mut self.out, &mut self.err] {
			f.set_len(0).unwrap();
			f.seek(SeekFrom::Start(0)).unwrap();
		}
		let pid = unsafe { libc::fork() };
		assert!(pid >= 0, "fork");
		if pid == 0 {
			self.child(scens, &job.plan);
		}
		self.running = Some((pid, job));
	}

	fn child(&mut self, scens: &[&dyn Scenario], plan: &Plan) -> ! {
		use std::os::fd::AsRawFd;
		unsafe {
			OUT_FD = self.out.as_raw_fd();
			libc::dup2(self.err.as_raw_fd(), 2);
			libc::dup2(self.err.as_raw_fd(), 1);
			let mut set: libc::cpu_set_t = std::mem::zeroed();
			libc::CPU_SET(self.cpu, &mut set);
			libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &set);
			let lim = libc::rlimit { rlim_cur: 300, rlim_max: 310 };
			libc::setrlimit(libc::RLIMIT_CPU, &lim);
			let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
			libc::setrlimit(libc::RLIMIT_AS, &lim);
			let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::setrlimit(libc::RLIMIT_CORE, &lim);
			libc::alarm(400);
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			// Fresh memory is filled with garbage, so that reads of uninitialised memory show.
			libc::mallopt(libc::M_PERTURB, plan.perturb as i32);
			libc::mallopt(libc::M_ARENA_MAX, 1);
			#[allow(static_mut_refs)]
			{
				sim::FATAL = |why, st| {
					let v = json!({"verdict": format!("{why}: the simulated system stopped making progress"),
						"trace_hash": st.trace_hash.to_string(), "decisions": st.decisions});
					write_out(&v);
				};
			}
		}
		sim::own_randomness(plan.hash_seed);
		std::panic::set_hook(Box::new(|info| {
			let msg = info
				.payload()
				.downcast_ref::<&str>()
				.map(|s| s.to_string())
				.or_else(|| info.payload().downcast_ref::<String>().cloned())
				.unwrap_or_else(|| "<non-string panic>".into());
			let loc = info
				.location()
				.map(|l| format!("{}:{}", l.file().trim_start_matches("/repo/"), l.line()))
				.unwrap_or_default();
			let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
			if p.len() < 16 {
				p.push(format!("panic at {loc}: {}", msg.chars().take(300).collect::<String>()));
			}
		}));
		let sc = scens.iter().find(|s| s.name() == plan.scenario).expect("unknown scenario");
		let mut cx = Cx {
			plan: plan.clone(),
			record: self.record,
			record_cap: REC_CAP,
			sims: 0,
			stats: Default::default(),
			counts: BTreeMap::new(),
			digest: 0,
			nontrivial: false,
			key: 0,
			sample: String::new(),
		};
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.exec(plan, &mut cx)));
		let verdict = match r {
			Ok(Ok(())) => None,
			Ok(Err(m)) => Some(m),
			Err(_) => Some(format!("panic: escaped to the caller: {:?}", take_panics())),
		};
		let s = &cx.stats;
		let v = json!({
			"verdict": verdict,
			"digest": cx.digest.to_string(),
			"trace_hash": s.trace_hash.to_string(),
			"decisions": s.decisions,
			"nondefault": s.nondefault,
			"switches": s.switches,
			"joins": s.joins,
			"steals": s.steals,
			"nested_steals": s.nested_steals,
			"atomic_preemptions": s.atomic_preemptions,
			"futex_waits": s.futex_waits,
			"record_overflow": s.record_overflow,
			"counts": cx.counts,
			"nontrivial": cx.nontrivial,
			"key": cx.key.to_string(),
			"sample": cx.sample,
			"sims": cx.sims,
		});
		write_out(&v);
		unsafe { libc::_exit(0) }
	}

	fn finish(&mut self, status: i32) -> (Job, Outcome, Option<Vec<(u64, u32)>>) {
		let (_, job) = self.running.take().unwrap();
		let mut s = String::new();
		self.out.seek(SeekFrom::Start(0)).unwrap();
		let _ = self.out.read_to_string(&mut s);
		let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
		let exited = libc::WIFEXITED(status) && matches!(libc::WEXITSTATUS(status), 0 | 97);
		let verdict = if exited && v.is_object() {
			v["verdict"].as_str().map(|s| s.to_string())
		} else {
			let mut e = Vec::new();
			self.err.seek(SeekFrom::Start(0)).unwrap();
			let _ = self.err.read_to_end(&mut e);
			let e = String::from_utf8_lossy(&e);
			let tail: String = e.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
			let how = if libc::WIFSIGNALED(status) {
				let sig = libc::WTERMSIG(status);
				match sig {
					libc::SIGXCPU | libc::SIGALRM => format!("hang: no answer in time (signal {sig})"),
					_ => format!("crash: killed by signal {sig}"),
				}
			} else {
				format!("crash: exit status {}", libc::WEXITSTATUS(status))
			};
			Some(format!("{how}: {tail}"))
		};
		let n = unsafe { *self.record } as usize;
		let overflow = n + 2 >= REC_CAP / 2;
		let rec = (!overflow).then(|| {
			(0..n)
				.map(|i| unsafe { (*self.record.add(1 + 2 * i), *self.record.add(2 + 2 * i) as u32) })
				.collect()
		});
		(job, Outcome { verdict, v }, rec)
	}
}

fn write_out(v: &Value) {
	let s = v.to_string();
	let mut off = 0;
	while off < s.len() {
		let n = unsafe { libc::write(OUT_FD, s.as_ptr().add(off) as *const _, s.len() - off) };
		if n <= 0 {
			break;
		}
		off += n as usize;
	}
}

pub struct Pool<'a> {
	scens: &'a [&'a dyn Scenario],
	slots: Vec<Slot>,
}

impl<'a> Pool<'a> {
	fn new(scens: &'a [&'a dyn Scenario]) -> Self {
		Pool { scens, slots: cpus().into_iter().take(16).map(Slot::new).collect() }
	}

	/// Runs jobs from `next` until it returns `None`; `done` may stop the supply.
	fn run(
		&mut self,
		next: &mut dyn FnMut() -> Option<Job>,
		done: &mut dyn FnMut(Job, Outcome, Option<Vec<(u64, u32)>>),
	) {
		loop {
			for i in 0..self.slots.len() {
				if self.slots[i].running.is_none() {
					if let Some(j) = next() {
						let scens = self.scens;
						self.slots[i].start(scens, j);
					}
				}
			}
			if self.slots.iter().all(|s| s.running.is_none()) {
				return;
			}
			let mut st = 0;
			let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
			if pid < 0 {
				continue;
			}
			if let Some(s) = self.slots.iter_mut().find(|s| s.running.as_ref().is_some_and(|r| r.0 == pid)) {
				let (j, o, r) = s.finish(st);
				done(j, o, r);
			}
		}
	}

	fn one(&mut self, plan: &Plan) -> (Outcome, Option<Vec<(u64, u32)>>) {
		let mut j = Some(Job { plan: plan.clone(), tag: 0 });
		let mut res = None;
		self.run(&mut || j.take(), &mut |_, o, r| res = Some((o, r)));
		res.unwrap()
	}

	/// Runs candidates in parallel; returns the first (in order) that still fails in the same way.
	fn first_failing(&mut self, cands: &[Plan], kind: &str) -> Option<(usize, Outcome)> {
		let n = self.slots.len();
		for (base, chunk) in cands.chunks(n).enumerate() {
			let mut it = chunk.iter().enumerate();
			let mut hits: Vec<(usize, Outcome)> = Vec::new();
			self.run(
				&mut || it.next().map(|(i, p)| Job { plan: p.clone(), tag: i as u64 }),
				&mut |j, o, _| {
					if o.verdict.is_some() && o.kind() == kind {
						hits.push((j.tag as usize, o));
					}
				},
			);
			hits.sort_by_key(|h| h.0);
			if let Some((i, o)) = hits.into_iter().next() {
				return Some((base * n + i, o));
			}
		}
		None
	}

	fn minimise(
		&mut self,
		plan: Plan,
		out: Outcome,
		rec: Option<Vec<(u64, u32)>>,
		budget: Duration,
	) -> (Plan, Outcome) {
		let t0 = Instant::now();
		let kind = out.kind();
		let (mut best, mut bo) = (plan, out);
		let left = |t0: Instant| t0.elapsed() < budget;
		let sc = *self.scens.iter().find(|s| s.name() == best.scenario).unwrap();
		let try_set = |me: &mut Self, best: &mut Plan, bo: &mut Outcome, cands: Vec<Plan>| -> bool {
			if cands.is_empty() {
				return false;
			}
			match me.first_failing(&cands, &kind) {
				Some((i, o)) => {
					*best = cands[i].clone();
					*bo = o;
					true
				}
				None => false,
			}
		};
		// No scheduling freedom at all?
		let mut c = Vec::new();
		let mut p = best.clone();
		p.replay = Some(vec![]);
		p.atomic = 0;
		p.workers = 1;
		p.perturb = 0;
		c.push(p.clone());
		p.workers = best.workers;
		c.push(p.clone());
		p.perturb = best.perturb;
		c.push(p);
		if !try_set(self, &mut best, &mut bo, c) {
			if let Some(r) = rec {
				let mut p = best.clone();
				p.replay = Some(r);
				try_set(self, &mut best, &mut bo, vec![p]);
			}
		}
		// Faults.
		loop {
			if best.faults.len() <= 1 || !left(t0) {
				break;
			}
			let c: Vec<Plan> = (0..best.faults.len())
				.map(|i| {
					let mut p = best.clone();
					p.faults.remove(i);
					p
				})
				.collect();
			if !try_set(self, &mut best, &mut bo, c) {
				break;
			}
		}
		// Parameters.
		loop {
			let mut any = false;
			for k in best.params.keys().cloned().collect::<Vec<_>>() {
				if !left(t0) {
					break;
				}
				let Some(fl) = sc.floor(&k) else { continue };
				let v = best.p(&k);
				if v <= fl {
					continue;
				}
				let mut vals = vec![fl, fl + (v - fl) / 2, v - 1];
				vals.dedup();
				vals.retain(|&x| x < v);
				let c = vals
					.into_iter()
					.map(|x| {
						let mut p = best.clone();
						p.set(&k, x);
						p
					})
					.collect();
				any |= try_set(self, &mut best, &mut bo, c);
			}
			if !any || !left(t0) {
				break;
			}
		}
		// Schedule: delta debugging on the non-default decisions.
		let mut n = 2;
		while left(t0) {
			let Some(r) = best.replay.clone() else { break };
			if r.is_empty() || n > r.len().max(2) {
				break;
			}
			let sz = r.len().div_ceil(n);
			let c: Vec<Plan> = (0..n)
				.filter(|i| i * sz < r.len())
				.map(|i| {
					let mut p = best.clone();
					let mut q = r.clone();
					q.drain(i * sz..((i + 1) * sz).min(r.len()));
					p.replay = Some(q);
					p
				})
				.collect();
			if try_set(self, &mut best, &mut bo, c) {
				n = n.saturating_sub(1).max(2);
			} else if sz == 1 {
				break;
			} else {
				n *= 2;
			}
		}
		(best, bo)
	}
}

fn verif_dir() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Known {
	matcher: String,
	scenario: String,
	what: String,
}

fn known_findings(prop: &str) -> Vec<Known> {
	let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.json")) else {
		return vec![];
	};
	let v: Value = serde_json::from_str(&s).expect("known_findings.json");
	v["findings"]
		.as_array()
		.map(|a| {
			a.iter()
				.filter(|e| e["property"] == prop && e["status"] == "known")
				.map(|e| Known {
					matcher: e["match"].as_str().unwrap().into(),
					scenario: e["scenario"].as_str().unwrap_or("").into(),
					what: e["what"].as_str().unwrap().into(),
				})
				.collect()
		})
		.unwrap_or_default()
}

/// Address-space randomisation is a source of nondeterminism too: switch it off.
fn fix_addresses() {
	unsafe {
		let cur = libc::personality(0xffff_ffff);
		if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("VSIM_REEXEC").is_err() {
			if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
				use std::os::unix::process::CommandExt;
				let e = std::process::Command::new("/proc/self/exe")
					.args(std::env::args().skip(1))
					.env("VSIM_REEXEC", "1")
					.exec();
				eprintln!("re-exec failed: {e}");
			}
		}
	}
}

pub struct Budget {
	/// Wall-clock seconds of exploration (quick, thorough).
	pub secs: (u64, u64),
	/// Runs after which exploration stops (quick, thorough).
	pub runs: (u64, u64),
}

pub fn main_for(prop: &str, level: &str, rule: &str, budget: Budget, scens: &[&dyn Scenario]) -> ! {
	fix_addresses();
	let args: Vec<String> = std::env::args().collect();
	let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("check");
	let code = match cmd {
		"check" => check(prop, level, rule, &budget, scens),
		"replay" => replay(prop, &args[2], scens),
		"one" => one(prop, args.get(2).map(|s| s.as_str()), args.get(3).map(|s| s.as_str()), scens),
		_ => {
			eprintln!("usage: check | replay FILE | one SCENARIO SEED");
			2
		}
	};
	std::process::exit(code)
}

fn one(_prop: &str, sc: Option<&str>, seed: Option<&str>, scens: &[&dyn Scenario]) -> i32 {
	let (Some(sc), Some(seed)) = (sc, seed) else {
		for s in scens {
			println!("{}", s.name());
		}
		return 0;
	};
	let s = *scens.iter().find(|s| s.name() == sc).expect("scenario");
	let plan = draw(s, seed.parse().unwrap(), false);
	println!("{}", plan.to_json());
	let mut pool = Pool::new(scens);
	let t = Instant::now();
	let (o, rec) = pool.one(&plan);
	println!("{:.3}s {}", t.elapsed().as_secs_f64(), o.v);
	println!("verdict: {:?}", o.verdict);
	if std::env::var("VSIM_MIN").is_ok() && o.verdict.is_some() {
		let (p, o) = pool.minimise(plan, o, rec, Duration::from_secs(30));
		println!("minimised: {}\n{}\n{}", p.to_json(), o.v["sample"].as_str().unwrap_or(""), o.verdict.as_deref().unwrap_or(""));
	}
	0
}

fn draw(s: &dyn Scenario, seed: u64, thorough: bool) -> Plan {
	let mut plan = Plan::draw(s.name(), seed);
	let mut r = Rng::derive(seed, s.name());
	s.draw(&mut plan, &mut r, thorough);
	plan
}

fn replay(prop: &str, file: &str, scens: &[&dyn Scenario]) -> i32 {
	let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
	let plan = Plan::from_json(&v["plan"]);
	let mut pool = Pool::new(scens);
	let (o, _) = pool.one(&plan);
	match &o.verdict {
		Some(m) => {
			println!("replayed: {m}");
			if v["digest"].as_str() == Some(&o.digest()) {
				println!("execution identical to the recorded one");
			} else {
				println!("execution differs from the recorded one");
			}
			println!("VIOLATION property={prop} replay={file}");
			1
		}
		None => {
			println!("replayed: no violation");
			0
		}
	}
}

fn check(prop: &str, level: &str, rule: &str, budget: &Budget, scens: &[&dyn Scenario]) -> i32 {
	let t0 = Instant::now();
	let env_u64 = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
	let seed0 = env_u64("VERIF_SEED").unwrap_or(1);
	let thorough = std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough");
	let secs = env_u64("VSIM_SECS").unwrap_or(if thorough { budget.secs.1 } else { budget.secs.0 });
	let max_runs = env_u64("VSIM_RUNS").unwrap_or(if thorough { budget.runs.1 } else { budget.runs.0 });
	let only = std::env::var("VSIM_ONLY").ok();
	let scens: Vec<&dyn Scenario> =
		scens.iter().copied().filter(|s| only.as_deref().is_none_or(|o| o == s.name())).collect();
	let scens = &scens[..];
	let known = known_findings(prop);
	// Development aid: list all classes of failures instead of stopping at the first.
	let survey = std::env::var("VSIM_SURVEY").is_ok();
	let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();

	// The work list: fixed plans first, then random ones by weight.
	let mut fixed: Vec<Plan> = scens.iter().flat_map(|s| s.fixed(thorough)).collect();
	fixed.reverse();
	let n_fixed = fixed.len() as u64;
	let total_w: u64 = scens.iter().map(|s| s.weight() as u64).sum();
	let mut i = 0u64;
	let mut issued = 0u64;
	let mut pending_repeat: Vec<Job> = Vec::new();
	let stop = std::cell::Cell::new(false);

	let mut agg: BTreeMap<String, u64> = BTreeMap::new();
	let mut per_scen: BTreeMap<String, u64> = BTreeMap::new();
	let mut interleavings: HashSet<String> = HashSet::new();
	let mut keys: HashSet<String> = HashSet::new();
	let mut runs = 0u64;
	let mut nontrivial = 0u64;
	let mut samples: Vec<Value> = Vec::new();
	let mut sampled: HashSet<String> = HashSet::new();
	let mut first: BTreeMap<u64, String> = BTreeMap::new();
	let mut repeated = 0u64;
	let mut mismatches: Vec<Value> = Vec::new();
	let mut failures: Vec<(Plan, Outcome, Option<Vec<(u64, u32)>>)> = Vec::new();
	let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();

	let mut pool = Pool::new(scens);
	let deadline = t0 + Duration::from_secs(secs);
	let repeats = std::cell::RefCell::new(&mut pending_repeat);
	pool.run(
		&mut || {
			if let Some(j) = repeats.borrow_mut().pop() {
				return Some(j);
			}
			if stop.get() {
				return None;
			}
			if let Some(p) = fixed.pop() {
				issued += 1;
				return Some(Job { plan: p, tag: issued });
			}
			if issued >= max_runs.max(n_fixed) || Instant::now() > deadline {
				return None;
			}
			let mut w = i % total_w;
			let mut s = scens[0];
			for x in scens {
				if w < x.weight() as u64 {
					s = *x;
					break;
				}
				w -= x.weight() as u64;
			}
			let seed = Rng::derive(seed0, &format!("{prop}/{i}")).next();
			i += 1;
			issued += 1;
			Some(Job { plan: draw(s, seed, thorough), tag: issued })
		},
		&mut |j, o, rec| {
			if j.tag >> 62 == 1 {
				// Second execution of the same plan: must be identical.
				repeated += 1;
				let t = j.tag & !(1 << 62);
				if first.get(&t) != Some(&o.digest()) {
					mismatches.push(json!({"plan": j.plan.to_json(), "first": first.get(&t), "second": o.digest()}));
				}
				return;
			}
			runs += 1;
			*per_scen.entry(j.plan.scenario.clone()).or_default() += 1;
			if let Some(m) = &o.verdict {
				if let Some(k) = known
					.iter()
					.find(|k| m.contains(&k.matcher) && (k.scenario.is_empty() || k.scenario == j.plan.scenario))
				{
					*known_hits.entry(k.what.clone()).or_default() += 1;
				} else {
					if survey {
						let cls: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(220).collect();
						let e = classes.entry(cls).or_insert((0u64, j.plan.seed, j.plan.scenario.clone()));
						e.0 += 1;
						if std::env::var("VSIM_SEEDS").is_ok() {
							eprintln!("seed {} {} {}", j.plan.scenario, j.plan.seed, m.chars().take(90).collect::<String>());
						}
					} else {
						failures.push((j.plan.clone(), o.clone(), rec));
						stop.set(true);
					}
				}
			}
			if j.tag % 16 == 1 && o.verdict.is_none() {
				first.insert(j.tag, o.digest());
				repeats.borrow_mut().push(Job { plan: j.plan.clone(), tag: j.tag | 1 << 62 });
			}
			for k in ["decisions", "nondefault", "switches", "joins", "steals", "nested_steals", "atomic_preemptions", "futex_waits", "sims"] {
				*agg.entry(k.into()).or_default() += o.v[k].as_u64().unwrap_or(0);
			}
			if let Some(c) = o.v["counts"].as_object() {
				for (k, n) in c {
					*agg.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
				}
			}
			interleavings.insert(o.v["trace_hash"].to_string());
			if o.v["nontrivial"].as_bool() == Some(true) {
				nontrivial += 1;
				keys.insert(format!("{} {} {}", j.plan.scenario, o.v["key"], o.v["trace_hash"]));
			}
			if sampled.insert(j.plan.scenario.clone()) && samples.len() < 40 {
				samples.push(json!({"plan": j.plan.to_json(), "observed": o.v["sample"], "decisions": o.v["decisions"], "trace_hash": o.v["trace_hash"]}));
			}
		},
	);
	drop(repeats);

	let explore_s = t0.elapsed().as_secs_f64();
	for (c, (n, seed, sc)) in &classes {
		eprintln!("{n:6} {sc} {seed}: {c}");
	}
	let mut violations = 0;
	let mut lines = Vec::new();
	if let Some((plan, o, rec)) = failures.into_iter().next() {
		violations = 1;
		let msg = o.verdict.clone().unwrap();
		eprintln!("violation ({}): {msg}", plan.scenario);
		let orig = plan.clone();
		let budget = Duration::from_secs(if thorough { 300 } else { 90 });
		let (mp, mo) = pool.minimise(plan, o, rec, budget);
		// Replaying must reproduce: run it twice more.
		let (a, _) = pool.one(&mp);
		let (b, _) = pool.one(&mp);
		let stable = a.digest() == b.digest() && a.verdict.is_some();
		let dir = verif_dir().join("replays");
		let _ = std::fs::create_dir_all(&dir);
		let path = dir.join(format!("{prop}-{}.json", orig.seed));
		let doc = json!({
			"property": prop,
			"violation": mo.verdict,
			"first_seen": msg,
			"deterministic": stable,
			"digest": a.digest(),
			"plan": mp.to_json(),
			"original_plan": orig.to_json(),
			"how": format!("bash /verif/run.sh {prop} replay {}", path.display()),
		});
		std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
		eprintln!("minimised: {}", mo.verdict.as_deref().unwrap_or(""));
		lines.push(format!("VIOLATION property={prop} replay={}", path.display()));
	}
	for (k, n) in &known_hits {
		println!("KNOWN-FINDING: property={prop} {k} ({n} runs)");
	}

	let faults: BTreeMap<String, u64> = agg
		.iter()
		.filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| (k.to_string(), *v)))
		.collect();
	let observed: BTreeMap<String, u64> = agg
		.iter()
		.filter(|(k, _)| !k.starts_with("fault:"))
		.map(|(k, v)| (k.clone(), *v))
		.collect();
	let wall = t0.elapsed().as_secs_f64();
	let ev = json!({
		"property": prop,
		"tier": if thorough { "thorough" } else { "quick" },
		"seed": seed0,
		"level": level,
		"coverage": {
			"evaluations": runs,
			"distinct_nontrivial": keys.len(),
			"rule": rule,
			"samples": samples,
			"simulated_runs_per_hour": (runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
			"nontrivial_runs": nontrivial,
			"runs_per_scenario": per_scen,
			"simulated_time": "no clock exists in this system; simulated time is counted in scheduling decisions",
			"scheduling": observed,
			"distinct_interleavings": interleavings.len(),
			"interleaving_measure": "hash of the complete sequence of scheduling events (switch, push, pop, steal, preemption) of a run",
			"faults_injected": faults,
			"determinism": {"plans_run_twice": repeated, "mismatches": mismatches.len(), "examples": mismatches.iter().take(3).collect::<Vec<_>>()},
			"components_real": scens.iter().map(|s| format!("{}: {}", s.name(), s.real())).collect::<Vec<_>>(),
			"components_stubbed": scens.iter().map(|s| s.stub()).collect::<HashSet<_>>(),
			"known_findings_seen": known_hits,
		},
		"assumptions": [
			"the simulated pool schedules fork/join jobs the way rayon may (work stealing, nested execution while waiting); preemption happens at joins, steals, futex calls and atomic operations, one thread at a time (sequentially consistent memory)",
			"outside the drawn plans nothing is claimed: this is a seeded search, not a proof",
		],
		"wall_s": wall,
		"violations": violations,
	});
	let dir = verif_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	let mut f = File::create(dir.join(format!("{prop}.json"))).unwrap();
	f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
	println!(
		"{prop}: {runs} runs ({} distinct non-trivial), {} interleavings, {} repeated ({} mismatches), faults {:?}, {wall:.1}s",
		keys.len(),
		interleavings.len(),
		repeated,
		mismatches.len(),
		faults
	);
	for l in &lines {
		println!("{l}");
	}
	if violations > 0 { 1 } else { 0 }
}
