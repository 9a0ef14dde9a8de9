//! The Merkle inclusion tables: true paths fill and balance whatever their number, depth and
//! overlap; no false leaf, index, depth or root balances, and no altered row makes one balance.
use binius_core::constraint_system::channel::{Boundary, Flush, FlushDirection, OracleOrConst};
use binius_m3::gadgets::merkle_tree::{
	MerkleTreeCS,
	trace::{MerklePath, MerkleTree, MerkleTreeTrace},
};

use super::*;

type Digest = [u8; 32];

/// The second half of P(x) + x, with bytes in the tower basis.
fn compress(l: &Digest, r: &Digest) -> Digest {
	let x: [B8; 64] = array::from_fn(|k| B8::new(if k < 32 { l[k] } else { r[k - 32] }));
	let p = groestl_ref(x, false);
	array::from_fn(|k| (p[32 + k] + x[32 + k]).val())
}

/// Layers from the root (one node) down to the leaves.
fn layers(leaves: &[Digest]) -> Vec<Vec<Digest>> {
	let mut l = vec![leaves.to_vec()];
	while l.last().unwrap().len() > 1 {
		let up = l.last().unwrap().chunks(2).map(|c| compress(&c[0], &c[1])).collect();
		l.push(up);
	}
	l.reverse();
	l
}

fn words(d: &Digest) -> Vec<u128> {
	// word i holds row i of the state: bytes i, 8+i, 16+i, 24+i
	(0..8).map(|i| (0..4).fold(0u128, |v, j| v | u128::from(d[8 * j + i]) << (8 * j))).collect()
}

#[derive(Clone)]
struct Claim {
	root: usize,
	leaf: Digest,
	depth: usize,
	index: usize,
}
impl Claim {
	fn token(&self) -> Vec<u128> {
		let mut v = vec![self.root as u128];
		v.extend(words(&self.leaf));
		v.extend([self.depth as u128, self.index as u128]);
		v
	}
	fn holds(&self, trees: &[Vec<Vec<Digest>>]) -> bool {
		trees.get(self.root).and_then(|t| t.get(self.depth)).and_then(|l| l.get(self.index)) == Some(&self.leaf)
	}
}

fn token(m: &Model, f: &Flush<B128>, x: usize) -> Vec<u128> {
	f.oracles
		.iter()
		.map(|o| match o {
			OracleOrConst::Oracle(o) => m.val[o.index()][x].val(),
			OracleOrConst::Const { base, .. } => base.val(),
		})
		.collect()
}

/// Change committed cells until a flushed value is the wanted one.
fn force(m: &mut Model, o: usize, x: usize, want: u128, pinned: &mut BTreeSet<(usize, usize)>) -> bool {
	let (mut vars, mut seen) = (BTreeSet::new(), BTreeSet::new());
	m.vars(o, x, &mut vars, &mut seen);
	if vars.len() > 64 {
		return false;
	}
	for _ in 0..33 {
		let off = (m.val[o][x].val() ^ want).count_ones();
		if off == 0 {
			pinned.extend(vars.iter().filter(|v| m.is_committed(v.0)));
			return true;
		}
		let mut done = false;
		'v: for &v in &vars {
			for b in 0..1u32 << m.level[v.0] {
				let old = m.val[v.0][v.1];
				m.set(v, B128::new(old.val() ^ 1u128 << b));
				if (m.val[o][x].val() ^ want).count_ones() < off {
					done = true;
					break 'v;
				}
				m.set(v, old);
			}
		}
		if !done {
			return false;
		}
	}
	false
}

pub struct Merkle;
impl Scenario for Merkle {
	fn name(&self) -> &'static str {
		"merkle_paths"
	}
	fn weight(&self) -> u32 {
		1
	}
	fn draw(&self, plan: &mut Plan, r: &mut Rng, _: bool) {
		plan.set("trees", *r.pick(&[1, 1, 1, 2, 3]));
		plan.set("depth", *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4]));
		plan.set("paths", *r.pick(&[1, 1, 2, 3, 4, 5, 8]));
		plan.set("alike", r.below(3));
		plan.set("data", r.next());
		if r.chance(1, 3) {
			plan.faults.push(Fault::new("false path", &[r.below(4), r.next()]));
		}
		for _ in 0..r.range(2, 8) {
			plan.faults.push(Fault::new("forge", &[r.below(5), r.next()]));
		}
	}
	fn exec(&self, plan: &Plan, cx: &mut Cx) -> Verdict {
		let mut r = Rng::new(plan.p("data"));
		let n_trees = plan.p("trees").clamp(1, 3) as usize;
		let mut leaves = Vec::new();
		for t in 0..n_trees {
			let d = (plan.p("depth") as usize + if t > 0 { r.usize(2) } else { 0 }).min(4);
			let some: Vec<Digest> = (0..3).map(|_| array::from_fn(|_| r.below(256) as u8)).collect();
			leaves.push(
				(0..1usize << d)
					.map(|_| match plan.p("alike") {
						0 => array::from_fn(|_| r.below(256) as u8),
						1 => some[r.usize(3)],
						_ => [r.below(3) as u8; 32],
					})
					.collect::<Vec<Digest>>(),
			);
		}
		let trees: Vec<_> = leaves.iter().map(|l| layers(l)).collect();
		let mut claims = Vec::new();
		let mut paths = Vec::new();
		for _ in 0..plan.p("paths").clamp(1, 16) {
			let root = r.usize(n_trees);
			let depth = trees[root].len() - 1;
			let index = r.usize(1 << depth);
			claims.push(Claim { root, leaf: leaves[root][index], depth, index });
			let nodes = (0..depth).map(|i| trees[root][depth - i][(index >> i) ^ 1]).collect();
			paths.push(MerklePath { root_id: root as u8, index, leaf: leaves[root][index], nodes });
		}
		let roots: Vec<Digest> = trees.iter().map(|t| t[0][0]).collect();
		cx.sample = format!("{n_trees} trees, depths {:?}, {} paths", trees.iter().map(|t| t.len() - 1).collect::<Vec<_>>(), paths.len());
		cx.key = plan.p("data");
		// the model of the tree that comes with the gadget
		for (t, l) in leaves.iter().enumerate() {
			let tr = MerkleTree::new(l);
			if tr.root() != roots[t] {
				return Err(format!("root: the tree of {} leaves has another root than its definition", l.len()));
			}
			for p in paths.iter().filter(|p| p.root_id as usize == t) {
				if tr.merkle_path(p.index) != p.nodes {
					return Err(format!("path: the path of leaf {} of {} is not its siblings", p.index, l.len()));
				}
			}
		}
		let mut lie = false;
		for f in plan.faults.iter().filter(|f| f.kind == "false path") {
			let mut r = Rng::new(f.args[1]);
			let k = r.usize(paths.len());
			let (b, bit) = (r.usize(32), 1u8 << r.below(8));
			match f.args[0] {
				0 => paths[k].leaf[b] ^= bit,
				1 if !paths[k].nodes.is_empty() => {
					let i = r.usize(paths[k].nodes.len());
					paths[k].nodes[i][b] ^= bit;
				}
				2 if !paths[k].nodes.is_empty() => paths[k].index ^= 1 << r.usize(paths[k].nodes.len()),
				_ => paths[k].root_id = r.usize(n_trees) as u8,
			}
			claims[k] = Claim {
				root: paths[k].root_id as usize,
				leaf: paths[k].leaf,
				depth: paths[k].nodes.len(),
				index: paths[k].index,
			};
			cx.fired("false path");
			lie = true;
		}
		let mut cs = ConstraintSystem::new();
		let g = MerkleTreeCS::new(&mut cs);
		let mut alloc = CpuComputeAllocator::<P>::new(1 << 15);
		let alloc = alloc.into_bump_allocator();
		let mut w = WitnessIndex::<P>::new(&cs, &alloc);
		let one = OneThread((&mut w, &g, &cs, &paths, &roots));
		let filled = cx.sim(move || -> anyhow::Result<Vec<Boundary<B128>>> {
			let (w, g, cs, paths, roots) = one.get();
			let trace = MerkleTreeTrace::generate(roots.clone(), paths);
			g.fill_tables(&trace, cs, w)?;
			Ok(g.make_boundaries(&trace))
		});
		let bounds = caught(&format!("filling {}", cx.sample), filled)?;
		let bounds = match bounds {
			Err(_) if lie => return Ok(()),
			b => b.map_err(|e| format!("fill: {} fails: {e}", cx.sample))?,
		};
		// what is claimed
		let set = |v: Vec<(usize, Vec<u128>)>| v.into_iter().collect::<BTreeSet<_>>();
		let want = set(
			claims
				.iter()
				.map(|c| (g.nodes_channel, c.token()))
				.chain(claims.iter().map(|c| {
					let mut v = vec![c.root as u128];
					v.extend(words(&roots[c.root]));
					(g.roots_channel, v)
				}))
				.collect(),
		);
		let got = set(bounds.iter().map(|b| (b.channel_id, b.values.iter().map(|v| v.val()).collect())).collect());
		if got != want || bounds.len() != want.len() {
			return Err(format!("boundaries: {} states other claims than its paths", cx.sample));
		}
		let mut ccs = cs.compile().map_err(|e| format!("compile: {e}"))?;
		let sizes = w.table_sizes();
		let wit = w.into_multilinear_extension_index();
		let mp = map(&cs);
		let mut m = model(&ccs, &sizes, &mp, &wit).map_err(|e| format!("model: {e}"))?;
		let bad = m.broken().or_else(|| m.unbalanced(&ccs, &bounds));
		let all_true = claims.iter().all(|c| c.holds(&trees));
		cx.nontrivial = true;
		if lie {
			cx.count("false paths");
			return match bad {
				None if !all_true => Err(format!("unsound: a false path balances ({})", cx.sample)),
				_ => Ok(()),
			};
		}
		honest_columns(&m, &wit).map_err(|e| format!("{e} ({}, honest fill)", cx.sample))?;
		if let Some(b) = bad {
			return Err(format!("incomplete: an honest fill of {} breaks: {b}", cx.sample));
		}
		if plan.p("data") % 8 == 0 {
			let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| validate_witness(&ccs, &bounds, &sizes, &wit)));
			caught(&format!("validate_witness of {}", cx.sample), v)?
				.map_err(|e| format!("validate: honest {} refused: {e}", cx.sample))?;
		}
		// forged statements, with rows altered to match: the increment table is assumed to serve
		// every true increment
		let reads: Vec<Flush<B128>> =
			ccs.flushes.iter().filter(|f| f.channel_id == g.lookup_channel && f.direction == FlushDirection::Pull).cloned().collect();
		ccs.flushes.retain(|f| f.channel_id != g.lookup_channel);
		let base = m.val.clone();
		for f in plan.faults.iter().filter(|f| f.kind == "forge") {
			let mut r = Rng::new(f.args[1]);
			let old = r.pick(&claims).clone();
			let mut new = old.clone();
			let mut b2 = bounds.clone();
			let (mut tok_old, mut tok_new, mut chan);
			if f.args[0] == 3 {
				// another root, matched in the root table
				chan = g.roots_channel;
				tok_old = vec![old.root as u128];
				tok_old.extend(words(&roots[old.root]));
				tok_new = tok_old.clone();
				tok_new[1 + r.usize(8)] ^= 1 << r.below(32);
			} else {
				chan = g.nodes_channel;
				match f.args[0] {
					0 | 4 => new.leaf[r.usize(32)] ^= 1 << r.below(8),
					1 => new.index ^= 1 << r.below(1 + new.depth as u64),
					_ => new.depth = if new.depth > 0 && r.chance(1, 2) { new.depth - 1 } else { new.depth + 1 },
				}
				if new.holds(&trees) {
					continue;
				}
				(tok_old, tok_new) = (old.token(), new.token());
			}
			for b in &mut b2 {
				if b.channel_id == chan && b.values.iter().map(|v| v.val()).eq(tok_old.iter().copied()) {
					b.values = tok_new.iter().map(|v| B128::new(*v)).collect();
				}
			}
			let what = ["forge a leaf", "forge an index", "forge a depth", "forge a root", "forge a leaf"][f.args[0] as usize % 5];
			cx.fired(what);
			let mut touched: Vec<(usize, usize)> = Vec::new();
			let mut ok = true;
			for _ in 0..8 {
				let hit = ccs.flushes.iter().find_map(|fl| {
					if fl.channel_id != chan || fl.direction != FlushDirection::Pull {
						return None;
					}
					(0..sizes[fl.table_id])
						.find(|&x| !touched.contains(&(fl.table_id, x)) && token(&m, fl, x) == tok_old)
						.map(|x| (fl, x))
				});
				let Some((fl, row)) = hit else { break };
				touched.push((fl.table_id, row));
				let mut pinned = BTreeSet::new();
				for (k, o) in fl.oracles.iter().enumerate() {
					if tok_old[k] != tok_new[k] {
						ok = ok
							&& match o {
								OracleOrConst::Oracle(o) => force(&mut m, o.index(), row, tok_new[k], &mut pinned),
								_ => false,
							};
					}
				}
				ok = ok
					&& (m.broken_row(fl.table_id, row, None).is_empty() || m.repair(fl.table_id, row, &pinned, &mut r, 60));
				if !ok {
					break;
				}
				// what the row hands on: a node to its parent, the root to the node below it
				let out = ccs.flushes.iter().find(|p| {
					p.table_id == fl.table_id
						&& p.channel_id == g.nodes_channel
						&& (p.direction == FlushDirection::Push || chan == g.roots_channel)
				});
				let Some(out) = out else { break };
				let after = token(&m, out, row);
				let saved = m.val.clone();
				m.val = base.clone();
				let before = token(&m, out, row);
				m.val = saved;
				if before == after || chan == g.roots_channel {
					break;
				}
				chan = g.nodes_channel;
				(tok_old, tok_new) = (before, after);
			}
			let ok = ok
				&& reads.iter().all(|fl| {
					(0..sizes[fl.table_id]).all(|x| {
						let v = token(&m, fl, x)[0];
						let s = (v & 255) + (v >> 16 & 1);
						v >> 18 == 0 && (v >> 8 & 255) == s & 255 && v >> 17 == s >> 8
					})
				});
			if ok && m.broken().is_none() && m.unbalanced(&ccs, &b2).is_none() {
				return Err(format!("unsound: a forged statement balances ({what}, {})", cx.sample));
			}
			cx.count("forgeries refused");
			for (t, row) in touched {
				m.restore_row(&base, t, row);
			}
		}
		Ok(())
	}
	fn real(&self) -> &'static str {
		REAL
	}
	fn stub(&self) -> &'static str {
		STUB
	}
}
