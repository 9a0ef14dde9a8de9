//! A plan is everything that determines one simulated execution.
use std::collections::BTreeMap;

use rayon_core::sim::Strategy;
use serde_json::{Value, json};

use crate::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
	pub kind: String,
	pub args: Vec<u64>,
}

impl Fault {
	pub fn new(kind: &str, args: &[u64]) -> Self {
		Fault { kind: kind.into(), args: args.to_vec() }
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
	pub scenario: String,
	pub seed: u64,
	pub workers: u64,
	pub main_is_worker: bool,
	pub strategy: String,
	pub atomic: u64,
	pub sseed: u64,
	pub replay: Option<Vec<(u64, u32)>>,
	pub hash_seed: u64,
	pub perturb: u64,
	pub params: BTreeMap<String, u64>,
	pub faults: Vec<Fault>,
}

impl Plan {
	/// The scheduling and environment part of a plan, drawn from the seed.
	pub fn draw(scenario: &str, seed: u64) -> Self {
		let mut r = Rng::derive(seed, "sched");
		let (workers, main_is_worker) = match r.below(20) {
			0 => (1, true),
			1 => (1, false),
			2..=4 => (2, false),
			5..=7 => (3, false),
			8..=10 => (4, false),
			11 => (5, false),
			12 => (6, false),
			13 => (7, false),
			14..=16 => (8, false),
			17 => (12, false),
			18 => (16, false),
			_ => (r.range(1, 16), false),
		};
		let strategy = match r.below(10) {
			0 => "seq".to_string(),
			1 | 2 => format!("random:{}", [300, 3000, 20000, 50000][r.usize(4)]),
			3 => "random:65536".to_string(),
			4 | 5 => format!("prio:{}", [20, 200, 2000][r.usize(3)]),
			6 => "eager".to_string(),
			7 => format!("rr:{}", [0, 1, 3, 10][r.usize(4)]),
			_ => format!("stall:{}:{}", r.below(workers + 1), [3000, 20000][r.usize(2)]),
		};
		let atomic = *r.pick(&[0, 0, 5, 50, 1000]);
		Plan {
			scenario: scenario.into(),
			seed,
			workers,
			main_is_worker,
			strategy,
			atomic,
			sseed: r.next(),
			replay: None,
			hash_seed: r.next(),
			perturb: r.below(256),
			params: BTreeMap::new(),
			faults: Vec::new(),
		}
	}

	pub fn p(&self, name: &str) -> u64 {
		self.params.get(name).copied().unwrap_or(0)
	}

	pub fn set(&mut self, name: &str, v: u64) {
		self.params.insert(name.into(), v);
	}

	pub fn strategy(&self) -> Strategy {
		let mut it = self.strategy.split(':');
		let k = it.next().unwrap();
		let a: Vec<u32> = it.map(|x| x.parse().unwrap()).collect();
		match k {
			"seq" => Strategy::Sequential,
			"random" => Strategy::Random { p: a[0] },
			"prio" => Strategy::Priority { c: a[0] },
			"eager" => Strategy::Eager,
			"rr" => Strategy::RoundRobin { quantum: a[0] },
			"stall" => Strategy::Stall { victim: a[0], p: a[1] },
			_ => panic!("unknown strategy {k}"),
		}
	}

	pub fn to_json(&self) -> Value {
		json!({
			"scenario": self.scenario,
			"seed": self.seed.to_string(),
			"workers": self.workers,
			"main_is_worker": self.main_is_worker,
			"strategy": self.strategy,
			"atomic": self.atomic,
			"sseed": self.sseed.to_string(),
			"replay": self.replay.as_ref().map(|r| r.iter().map(|&(a, b)| json!([a, b])).collect::<Vec<_>>()),
			"hash_seed": self.hash_seed.to_string(),
			"perturb": self.perturb,
			"params": self.params.iter().map(|(k, v)| (k.clone(), json!(v.to_string()))).collect::<serde_json::Map<_, _>>(),
			"faults": self.faults.iter().map(|f| json!({"kind": f.kind, "args": f.args.iter().map(|a| a.to_string()).collect::<Vec<_>>()})).collect::<Vec<_>>(),
		})
	}

	pub fn from_json(v: &Value) -> Self {
		let n = |x: &Value| -> u64 {
			match x {
				Value::String(s) => s.parse().unwrap(),
				x => x.as_u64().unwrap(),
			}
		};
		Plan {
			scenario: v["scenario"].as_str().unwrap().into(),
			seed: n(&v["seed"]),
			workers: n(&v["workers"]),
			main_is_worker: v["main_is_worker"].as_bool().unwrap(),
			strategy: v["strategy"].as_str().unwrap().into(),
			atomic: n(&v["atomic"]),
			sseed: n(&v["sseed"]),
			replay: v["replay"]
				.as_array()
				.map(|a| a.iter().map(|x| (n(&x[0]), n(&x[1]) as u32)).collect()),
			hash_seed: n(&v["hash_seed"]),
			perturb: n(&v["perturb"]),
			params: v["params"]
				.as_object()
				.unwrap()
				.iter()
				.map(|(k, x)| (k.clone(), n(x)))
				.collect(),
			faults: v["faults"]
				.as_array()
				.unwrap()
				.iter()
				.map(|f| Fault {
					kind: f["kind"].as_str().unwrap().into(),
					args: f["args"].as_array().unwrap().iter().map(n).collect(),
				})
				.collect(),
		}
	}
}
