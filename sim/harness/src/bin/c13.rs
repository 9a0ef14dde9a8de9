//! C13: witness validation agrees with the statement: it accepts exactly the satisfying witnesses.
use binius_core::oracle::{MultilinearOracleSet, MultilinearPolyVariant, OracleId, ShiftVariant, SymbolicMultilinearOracleSet};
use binius_field::Field;
use binius_math::ArithExpr;
use vsim::{
	e2e::*,
	sys::{B128, Bd, Sys, Val, elem, nonzero_elem},
	*,
};

struct Validate;

const KINDS: [&str; 10] = [
	"change a value",
	"change a value and what depends on it",
	"change a virtual value",
	"change a value in the padding",
	"alter a boundary",
	"huge multiplicity",
	"alter the statement",
	"column missing",
	"column of the wrong size",
	"channel out of range",
];

/// What the model says, exponentiations aside: the prover computes their results itself.
fn without_exps(c: &Case) -> Case {
	let mut c = c.clone();
	c.sys.exps.clear();
	c
}

impl Scenario for Validate {
	fn name(&self) -> &'static str {
		"validate"
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, thorough: bool) {
		draw_case(plan, r, if thorough { 8 } else { 6 });
		for _ in 0..r.range(2, 8) {
			let k = *r.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9]);
			plan.faults.push(Fault::new(KINDS[k], &[r.next()]));
		}
	}
	fn weight(&self) -> u32 {
		8
	}
	fn floor(&self, p: &str) -> Option<u64> {
		case_floor(p)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let good = make_case(plan);
		cx.sample = good.sys.describe();
		cx.key = plan.p("shape");
		if let Err(e) = good.sys.satisfied(&good.data, &good.bds) {
			return Err(format!("harness: generated witness does not satisfy the model: {e}"));
		}
		judge(cx, &good, "the honest witness", None)?;
		cx.nontrivial = true;
		for f in &plan.faults {
			let mut r = Rng::new(f.args[0]);
			let mut c = good.clone();
			let alive: Vec<usize> = (0..c.sys.cols.len()).filter(|&x| c.sys.alive(x)).collect();
			if alive.is_empty() {
				continue;
			}
			let virt: Vec<usize> = alive.iter().copied().filter(|&x| !c.sys.cols[x].kind.committed()).collect();
			let mut special = None;
			match f.kind.as_str() {
				"change a value" | "change a value and what depends on it" => {
					let x = *r.pick(&alive);
					let i = r.usize(c.data[x].len());
					c.data[x][i] += nonzero_elem(&mut r, c.sys.cols[x].level);
					if f.kind != "change a value" {
						c.sys.propagate(&mut c.data, x);
						if r.chance(1, 2) {
							c.bds = c.sys.balance(&mut r, &c.data);
						}
					}
				}
				"change a virtual value" => {
					if virt.is_empty() {
						continue;
					}
					let x = *r.pick(&virt);
					// anywhere, but often at the ends
					let n = c.data[x].len();
					let i = *r.pick(&[0, n - 1, n / 2, r.clone().usize(n)]);
					c.data[x][i] += nonzero_elem(&mut r, c.sys.cols[x].level);
				}
				"change a value in the padding" => {
					let pad: Vec<usize> = alive
						.iter()
						.copied()
						.filter(|&x| c.sys.tables[c.sys.cols[x].table].size << c.sys.cols[x].lvpr < c.data[x].len())
						.collect();
					if pad.is_empty() {
						continue;
					}
					let x = *r.pick(&pad);
					let from = c.sys.tables[c.sys.cols[x].table].size << c.sys.cols[x].lvpr;
					let n = c.data[x].len();
					let i = from + r.usize(n - from);
					c.data[x][i] += nonzero_elem(&mut r, c.sys.cols[x].level);
				}
				"alter a boundary" => {
					if c.bds.is_empty() {
						continue;
					}
					let i = r.usize(c.bds.len());
					match r.below(5) {
						0 => {
							c.bds.remove(i);
						}
						1 => c.bds[i].push = !c.bds[i].push,
						2 => c.bds[i].mult += 1,
						3 => {
							let b = c.bds[i].clone();
							c.bds.push(b);
						}
						_ => {
							let k = r.usize(c.bds[i].values.len());
							c.bds[i].values[k] += nonzero_elem(&mut r, 7);
						}
					}
				}
				"huge multiplicity" => {
					if c.bds.is_empty() {
						continue;
					}
					let i = r.usize(c.bds.len());
					let m = u64::MAX - r.below(3);
					match r.below(3) {
						// two's complement of what balances
						0 => {
							c.bds[i].mult = c.bds[i].mult.wrapping_neg();
							c.bds[i].push = !c.bds[i].push;
						}
						1 => c.bds[i].mult = m,
						_ => {
							let mut b = c.bds[i].clone();
							b.mult = m;
							c.bds.push(b.clone());
							b.push = !b.push;
							c.bds.push(b);
						}
					}
				}
				"alter the statement" => {
					if c.sys.mutate(&mut r).is_none() || c.sys.try_build().is_err() {
						continue;
					}
					// an altered shape needs data of that shape
					if (0..c.sys.cols.len())
						.any(|x| c.sys.alive(x) != good.sys.alive(x) || c.sys.alive(x) && c.data[x].len() != 1 << c.sys.n_vars(x))
					{
						continue;
					}
					if r.chance(1, 3) && c.sys.flushes.iter().any(|f| c.sys.tables[f.table].size > 0) {
						// nothing but constants
						let k = r.usize(c.sys.flushes.len());
						if c.sys.tables[c.sys.flushes[k].table].size == 0 {
							continue;
						}
						for v in &mut c.sys.flushes[k].vals {
							*v = Val::Const(elem(&mut r, 3), 3);
						}
						special = Some("a flush of constants only");
					}
				}
				"channel out of range" => {
					let channel = c.sys.channels + r.usize(2);
					c.bds.push(Bd { values: vec![elem(&mut r, 7)], channel, push: true, mult: 1 });
					special = Some("a boundary on no channel");
				}
				_ => {
					let x = *r.pick(&alive);
					special = Some(if f.kind == "column missing" { "missing" } else { "size" });
					c.data[x] = match (f.kind.as_str(), r.below(2)) {
						("column missing", _) => vec![],
						(_, 0) if c.data[x].len() > 1 => c.data[x][..c.data[x].len() / 2].to_vec(),
						_ => {
							let mut d = c.data[x].clone();
							let n = d.len();
							d.extend((0..n).map(|i| if r.chance(1, 2) { good.data[x][i] } else { B128::ZERO }));
							d
						}
					};
				}
			}
			cx.fired(&f.kind);
			judge(cx, &c, &f.kind, special)?;
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		"validate_witness and everything below it, rayon iterators"
	}
}

fn judge(cx: &mut Cx, c: &Case, what: &str, special: Option<&str>) -> Verdict {
	let ccs = c.sys.build();
	let b = Sys::boundaries(&c.bds);
	let sizes = c.sys.table_sizes();
	let mut w = binius_core::witness::MultilinearExtensionIndex::new();
	for x in 0..c.sys.cols.len() {
		if c.sys.alive(x) && !c.data[x].is_empty() {
			let n = c.data[x].len().trailing_zeros() as usize;
			w.update_multilin_poly([(OracleId::from_index(x), u128b::poly(c.sys.cols[x].level, n, &c.data[x]))]).unwrap();
		}
	}
	let got = match cx.sim(|| u128b::validate(&ccs, &b, &sizes, &w)) {
		Err(_) => return Err(format!("panic: validating ({what}): {:?}", take_panics())),
		Ok(r) => r,
	};
	cx.observe(&[u8::from(got.is_ok())]);
	if let Some(s) = special {
		// no complete witness, or nothing that can be proved
		cx.count("not a witness at all");
		return match got {
			Ok(()) => Err(format!("accepted: a witness that is not one ({what}, {s})")),
			Err(_) => Ok(()),
		};
	}
	let full = c.sys.satisfied(&c.data, &c.bds);
	let most = without_exps(c).sys.satisfied(&c.data, &c.bds);
	match (got, full, most) {
		(Err(e), Ok(()), _) => Err(format!("refused: a satisfying witness ({what}): {e}")),
		(Ok(()), _, Err(e)) => Err(format!("accepted: a witness that breaks the statement ({what}): {e}")),
		(g, _, m) => {
			cx.count(match (g.is_ok(), m.is_ok()) {
				(true, _) => "satisfying witnesses accepted",
				(_, false) => "broken witnesses refused",
				_ => "only an exponentiation wrong",
			});
			Ok(())
		}
	}
}


/// Definitions of virtual columns, inside and outside their documented ranges.
struct Define;
impl Scenario for Define {
	fn name(&self) -> &'static str {
		"define"
	}
	fn weight(&self) -> u32 {
		1
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("kind", r.below(8));
		plan.set("symbolic", r.below(2));
		plan.set("n", r.range(0, 6));
		for k in ["a", "b", "c"] {
			plan.set(k, r.range(0, 8));
		}
		plan.set("other", r.below(3));
	}
	fn floor(&self, p: &str) -> Option<u64> {
		(p != "kind").then_some(0)
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let n = plan.p("n").min(8) as usize;
		let (a, b, c) = (plan.p("a") as usize, plan.p("b") as usize, plan.p("c") as usize);
		let sym = plan.p("symbolic") == 1;
		let values: Vec<B128> = (0..a).map(|i| B128::new(0x1234_5678_9abc << (8 * i))).collect();
		let one = B128::ONE;
		// a second column, of the same size or not
		let m = n + usize::from(plan.p("other") == 1);
		let variant = *[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight].get(c % 3).unwrap();
		let vars = (a % 4).max(1);
		let circuit: ArithExpr<B128> = (0..vars).map(ArithExpr::Var).fold(ArithExpr::Const(one), |x, y| x * y);
		let kind = plan.p("kind");
		// whether it is well defined, its number of variables and its tower level
		let (name, want, n_vars, level) = match kind {
			0 => ("shifted", a > 0 && b <= n && a < 1 << b, n, 3),
			1 => ("packed", a <= n, n.saturating_sub(a), 3 + a),
			2 => ("projected", a + b <= n, n.saturating_sub(a), 3),
			3 => ("projected_last_vars", a <= n, n.saturating_sub(a), 3),
			4 => ("linear combination", m == n, n, 3),
			5 => ("composite", m == n && vars <= 2, n, 3),
			6 => ("zero padded", b < 1 << (a % 4) && c <= n, n + a % 4, 3),
			_ => ("repeating", true, n + a, 3),
		};
		if kind == 1 && a > 4 {
			return Ok(());
		}
		cx.sample = format!("{name} of a column with {n} variables: {a}, {b}, {c}{}", if sym { ", symbolic" } else { "" });
		cx.key = plan.p("kind") << 32 | (n as u64) << 16 | (a << 12 | b << 8 | c << 4 | m) as u64 ^ plan.p("symbolic") << 40;
		let built = std::panic::catch_unwind(|| -> Result<(MultilinearOracleSet<B128>, OracleId), binius_core::oracle::Error> {
			if sym {
				let mut o = SymbolicMultilinearOracleSet::<B128>::new();
				let x = o.add_oracle(0, n, "x").committed(3);
				let y = o.add_oracle(0, m, "y").committed(3);
				let d = o.add_oracle(0, n_vars, "d");
				let id = match kind {
					0 => d.shifted(x, a, b, variant)?,
					1 => d.packed(x, a)?,
					2 => d.projected(x, values.clone(), b)?,
					3 => d.projected_last_vars(x, values.clone())?,
					4 => d.linear_combination([(x, one), (y, one)])?,
					5 => d.composite_mle([x, y], circuit.clone().into())?,
					6 => d.zero_padded(x, a % 4, b, c)?,
					_ => d.repeating(x)?,
				};
				Ok((o.instantiate(&[1])?, id))
			} else {
				let mut o = MultilinearOracleSet::<B128>::new();
				let x = o.add_committed(n, 3);
				let y = o.add_committed(m, 3);
				let id = match kind {
					0 => o.add_shifted(x, a, b, variant)?,
					1 => o.add_packed(x, a)?,
					2 => o.add_projected(x, values.clone(), b)?,
					3 => o.add_projected_last_vars(x, values.clone())?,
					4 => o.add_linear_combination(n, [(x, one), (y, one)])?,
					5 => o.add_composite_mle(n, [x, y], circuit.clone().into())?,
					6 => o.add_zero_padded(x, a % 4, b, c)?,
					_ => o.add_repeating(x, a)?,
				};
				Ok((o, id))
			}
		});
		// the symbolic builder knows no number of variables, so these are for the caller to get right
		if sym && !want && kind == 1 {
			return Ok(());
		}
		let built = match built {
			Err(_) => return Err(format!("panic: defining {}: {:?}", cx.sample, take_panics())),
			Ok(x) => x,
		};
		cx.nontrivial = true;
		cx.fired(if want { "definition inside its range" } else { "definition outside its range" });
		match (built, want) {
			(Err(_), false) => Ok(()),
			(Err(e), true) => Err(format!("refused: {}: {e}", cx.sample)),
			(Ok(_), false) => Err(format!("accepted: {} is outside its range", cx.sample)),
			(Ok((set, id)), true) => {
				let o = &set[id];
				if (o.n_vars(), o.binary_tower_level()) != (n_vars, level) {
					return Err(format!(
						"wrong: {} has {} variables at level {}, not {n_vars} at {level}",
						cx.sample,
						o.n_vars(),
						o.binary_tower_level()
					));
				}
				let ok = match &o.variant {
					MultilinearPolyVariant::Projected(p) => {
						p.values() == &values && p.start_index() == if kind == 3 { n - a } else { b }
					}
					MultilinearPolyVariant::Shifted(s) => {
						(s.shift_offset(), s.block_size(), s.shift_variant()) == (a, b, variant)
					}
					MultilinearPolyVariant::Packed(p) => p.log_degree() == a,
					MultilinearPolyVariant::ZeroPadded(z) => {
						(z.n_pad_vars(), z.nonzero_index(), z.start_index()) == (a % 4, b, c)
					}
					MultilinearPolyVariant::Repeating { log_count, .. } => *log_count == a,
					_ => true,
				};
				if ok { Ok(()) } else { Err(format!("wrong: {} is defined as {:?}", cx.sample, o.variant)) }
			}
		}
	}
	fn real(&self) -> &'static str {
		"the oracle set builders"
	}
}

fn main() {
	main_for(
		"C13",
		"fault_enumeration",
		"a run counts if an honest witness was validated; identity: system, data, fault and interleaving",
		Budget { secs: (45, 1800), runs: (50_000, 10_000_000) },
		&[&Validate, &Define],
	)
}
