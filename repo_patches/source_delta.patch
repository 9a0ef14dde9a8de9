From 791bbb8a1603c57091a82cb2e59f0756c5cab0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 01/35] fix: prover panicked when a flushed column is also a
 selector with a zero suffix

---
 crates/core/src/constraint_system/prove.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..6db50ed 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -726,7 +726,10 @@ where
 	let fast_inner_oracles =
 		convert_witnesses_to_fast_ext::<U, Tower>(oracles, witness_index, &inner_oracles_id)?;
 
-	for ((n_vars, witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+	for ((n_vars, mut witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+		// The conversion drops the zero suffix of columns that are selectors as well.
+		let log_width = <PackedType<U, FFastExt<Tower>>>::LOG_WIDTH;
+		witness_data.resize(1 << n_vars.saturating_sub(log_width), PackedField::zero());
 		let fast_witness = MLEDirectAdapter::from(
 			MultilinearExtension::new(n_vars, witness_data)
 				.expect("witness_data created with correct n_vars"),
-- 
2.43.0


From b20e397097351d1603ed4912714629782d0c912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 02/35] fix: evalcheck prover took the suffix of a projected
 point out of range

---
 crates/core/src/protocols/evalcheck/prove.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index e1edb82..3930ca2 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -736,12 +736,14 @@ where
 
 		match &multilinear.variant {
 			MultilinearPolyVariant::Projected(projected) => {
-				let new_eval_point_len = multilinear.n_vars + projected.values().len();
+				// The projected values are inserted at `start_index`; only the coordinates above
+				// them are a suffix of the inner evaluation point too.
+				let suffix_len = (multilinear.n_vars - projected.start_index()).min(suffix.len());
 
-				let range = new_eval_point_len - projected.start_index().max(suffix.len())
-					..new_eval_point_len;
-
-				self.collect_suffixes(projected.id(), suffix.slice(range));
+				self.collect_suffixes(
+					projected.id(),
+					suffix.slice(suffix.len() - suffix_len..suffix.len()),
+				);
 			}
 			MultilinearPolyVariant::Shifted(shifted) => {
 				let suffix_len = multilinear.n_vars - shifted.block_size();
-- 
2.43.0


From dd9cf5b20a7274574168d9bf3e4221b997bc4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 03/35] fix: evalcheck prover failed when evaluation points
 share a suffix, depending on hash order

---
 crates/core/src/protocols/evalcheck/prove.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index 3930ca2..4c67e00 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -828,6 +828,12 @@ where
 
 		for suffix in suffixes {
 			if let Some(prefix) = eval_point.try_get_prefix(suffix) {
+				// Suffixes are shared between evaluation points, but only the prefixes belonging to
+				// the suffix a point was split at are memoized.
+				let Some(prefix_query) = memoized_queries.full_query_readonly(&prefix) else {
+					continue;
+				};
+
 				let partial_eval = match partial_evals.get(oracle_id, suffix) {
 					Some(partial_eval) => partial_eval,
 					None => {
@@ -851,10 +857,6 @@ where
 					}
 				};
 
-				let prefix_query = memoized_queries
-					.full_query_readonly(&prefix)
-					.ok_or(Error::MissingQuery)?;
-
 				eval = Some(partial_eval.evaluate(prefix_query).map_err(Error::from)?);
 				break;
 			}
-- 
2.43.0


From 345ce28fde05a2178371f6cc210555fe6c01bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:18 +0000
Subject: [PATCH 04/35] fix: zerocheck prover panicked on linear constraints
 over a single row

---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..eefd561 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -275,7 +275,8 @@ where
 	let log_extension_degree_base_domain = <FBase as ExtensionField<FDomain>>::LOG_DEGREE;
 
 	// Check that domain field contains the required NTT cosets.
-	let min_domain_bits = log2_ceil_usize(max_domain_size);
+	// A single point suffices for linear constraints on one row, but the NTT needs two.
+	let min_domain_bits = log2_ceil_usize(max_domain_size).max(1);
 	if min_domain_bits > FDomain::N_BITS {
 		bail!(MathError::DomainSizeTooLarge);
 	}
-- 
2.43.0


From c03d495542328355a1833256639b269f05161847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 05/35] fix: compiled arithmetic circuits read stale values of
 shared subexpressions

---
 crates/fast_compute/src/arith_circuit.rs | 92 ++++++++++++++++++------
 1 file changed, 70 insertions(+), 22 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..1f369c3 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -55,6 +55,7 @@ fn convert_circuit_steps<F: Field>(
 	fn convert_step<F: Field>(
 		original_step: usize,
 		original_steps: &[ArithCircuitStep<F>],
+		use_counts: &[usize],
 		result: &mut Vec<CircuitStep<F>>,
 		node_to_step: &mut StepsMapping,
 	) -> CircuitStepArgument<F> {
@@ -66,49 +67,75 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+				let left_id = *left;
+				let left = convert_step(left_id, original_steps, use_counts, result, node_to_step);
 
 				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
 					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
-						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
-						// observed in practice (the former can be enforced by rewriting
-						// expression)
-						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
-
-						// Since we'we changed the value of `left` to a new value, we need to clear
-						// the cache for it
-						node_to_step.clear_step(left);
-						node_to_step.register(original_step, left);
-						result.push(CircuitStep::AddMul(left, mleft, mright));
-
-						return CircuitStepArgument::Expr(CircuitNode::Slot(left));
+						// The value of `left` can only be overwritten when it has its own slot and
+						// nothing but this step reads it.
+						let has_own_slot = match original_steps[left_id] {
+							ArithCircuitStep::Add(..) | ArithCircuitStep::Mul(..) => true,
+							ArithCircuitStep::Pow(_, exp) => exp > 1,
+							_ => false,
+						};
+						let uses_here = 1 + [mleft, mright]
+							.into_iter()
+							.filter(|&&arg| arg == left_id)
+							.count();
+						if has_own_slot
+							&& use_counts[*right] == 1
+							&& use_counts[left_id] == uses_here
+						{
+							// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
+							// observed in practice (the former can be enforced by rewriting
+							// expression)
+							let mleft = convert_step(
+								*mleft,
+								original_steps,
+								use_counts,
+								result,
+								node_to_step,
+							);
+							let mright = convert_step(
+								*mright,
+								original_steps,
+								use_counts,
+								result,
+								node_to_step,
+							);
+
+							// Since we'we changed the value of `left` to a new value, we need to
+							// clear the cache for it
+							node_to_step.clear_step(left);
+							node_to_step.register(original_step, left);
+							result.push(CircuitStep::AddMul(left, mleft, mright));
+
+							return CircuitStepArgument::Expr(CircuitNode::Slot(left));
+						}
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right = convert_step(*right, original_steps, use_counts, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Add(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let left = convert_step(*left, original_steps, use_counts, result, node_to_step);
+				let right = convert_step(*right, original_steps, use_counts, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Pow(base, exp) => {
-				let mut acc = convert_step(*base, original_steps, result, node_to_step);
+				let mut acc = convert_step(*base, original_steps, use_counts, result, node_to_step);
 				let base_expr = acc;
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -117,15 +144,36 @@ fn convert_circuit_steps<F: Field>(
 						acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 					}
 				}
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
 
 				acc
 			}
 		}
 	}
 
+	let mut use_counts = vec![0; expr.steps().len()];
+	for step in expr.steps() {
+		match step {
+			ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+				use_counts[*left] += 1;
+				use_counts[*right] += 1;
+			}
+			ArithCircuitStep::Pow(base, _) => use_counts[*base] += 1,
+			ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => {}
+		}
+	}
+
 	let mut steps = Vec::new();
 	let mut steps_mapping = StepsMapping::new(expr.steps().len());
-	let ret = convert_step(expr.steps().len() - 1, expr.steps(), &mut steps, &mut steps_mapping);
+	let ret = convert_step(
+		expr.steps().len() - 1,
+		expr.steps(),
+		&use_counts,
+		&mut steps,
+		&mut steps_mapping,
+	);
 	(steps, ret)
 }
 
-- 
2.43.0


From 1ac454f5be3105c90ee53a15faf4bc608b786d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:33 +0000
Subject: [PATCH 06/35] fix: eq-ind sumcheck prover lost the value at zero for
 a challenge of one

---
 .../src/protocols/sumcheck/prove/eq_ind.rs    | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
index 0f6f363..10d0f97 100644
--- a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
+++ b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
@@ -538,7 +538,14 @@ where
 		let alpha = self.eq_ind_round_challenge();
 		let eq_ind_partial_evals = &self.eq_ind_partial_evals;
 
-		let first_round_eval_1s = self.first_round_eval_1s.take();
+		// When α = 1 the round sum does not depend on the value at zero, which then cannot be
+		// recovered from it and has to be evaluated.
+		let must_evaluate_zero = alpha == F::ONE;
+
+		let first_round_eval_1s = self
+			.first_round_eval_1s
+			.take()
+			.filter(|_| !must_evaluate_zero);
 		let have_first_round_eval_1s = first_round_eval_1s.is_some();
 
 		let eq_ind_challenges = match self.state.evaluation_order() {
@@ -562,6 +569,7 @@ where
 					composition,
 					composition_at_infinity,
 					have_first_round_eval_1s,
+					must_evaluate_zero,
 					eq_ind_challenges,
 					eq_ind_partial_evals,
 					const_eval_suffix,
@@ -651,6 +659,7 @@ where
 	composition: &'a Composition,
 	composition_at_infinity: ArithCircuitPoly<P::Scalar>,
 	have_first_round_eval_1s: bool,
+	must_evaluate_zero: bool,
 	eq_ind_challenges: &'a [P::Scalar],
 	eq_ind_partial_evals: &'a [P],
 	const_eval_suffix: &'a ConstEvalSuffix<P::Scalar>,
@@ -663,7 +672,13 @@ where
 {
 	fn eval_point_indices(&self) -> Range<usize> {
 		// Do not evaluate r(1) in first round when its value is known
-		let start_index = if self.have_first_round_eval_1s { 2 } else { 1 };
+		let start_index = if self.must_evaluate_zero {
+			0
+		} else if self.have_first_round_eval_1s {
+			2
+		} else {
+			1
+		};
 		start_index..self.composition.degree() + 1
 	}
 
@@ -759,11 +774,14 @@ where
 			round_evals.insert(0, first_round_eval_1);
 		}
 
-		let one_evaluation = round_evals[0];
-		let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
-		let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
-		let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
-		round_evals.insert(0, zero_evaluation);
+		// The value at zero has already been evaluated when α = 1
+		if self.alpha != F::ONE {
+			let one_evaluation = round_evals[0];
+			let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
+			let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
+			let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
+			round_evals.insert(0, zero_evaluation);
+		}
 
 		if round_evals.len() > 3 {
 			// SumcheckRoundCalculator orders interpolation points as 0, 1, "infinity", then
-- 
2.43.0


From 8004bd22b1dcbb23a3c8bb86bae1a88c1b6924e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:48 +0000
Subject: [PATCH 07/35] fix: exponentiation results were not bound to their
 committed oracle

---
 crates/core/src/constraint_system/exp.rs    | 14 +++++++++++++-
 crates/core/src/constraint_system/prove.rs  | 10 ++++++----
 crates/core/src/constraint_system/verify.rs |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index b63dc73..83732e0 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -150,6 +150,7 @@ where
 
 pub fn make_eval_claims<F: TowerField>(
 	exponents: &[Exp<F>],
+	exp_claims: &[ExpClaim<F>],
 	base_exp_output: BaseExpReductionOutput<F>,
 ) -> Result<Vec<EvalcheckMultilinearClaim<F>>, Error> {
 	let dynamic_base_ids = exponents
@@ -165,7 +166,18 @@ pub fn make_eval_claims<F: TowerField>(
 		.map(|exp| exp.bits_ids.clone())
 		.collect::<Vec<_>>();
 
-	gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids).map_err(Error::from)
+	let mut eval_claims = gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids)?;
+
+	// The claimed evaluations of the exponentiation results have to be those of the result oracles.
+	eval_claims.extend(exponents.iter().zip(exp_claims).map(|(exp, claim)| {
+		EvalcheckMultilinearClaim {
+			id: exp.exp_result_id,
+			eval_point: claim.eval_point.clone().into(),
+			eval: claim.eval,
+		}
+	}));
+
+	Ok(eval_claims)
 }
 
 #[instrument(skip_all, name = "exp::repack_witness")]
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index 6db50ed..7fa3542 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -254,22 +254,24 @@ where
 		.map(|x| x.into())
 		.collect::<Vec<_>>();
 
-	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?
-		.into_iter()
+	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?;
+	let fast_exp_claims = exp_claims
+		.iter()
+		.cloned()
 		.map(|claim| claim.isomorphic())
 		.collect::<Vec<_>>();
 
 	let base_exp_output = gkr_exp::batch_prove::<_, _, FFastExt<Tower>, _, _>(
 		EvaluationOrder::HighToLow,
 		exp_witnesses,
-		&exp_claims,
+		&fast_exp_claims,
 		fast_domain_factory.clone(),
 		&mut transcript,
 		backend,
 	)?
 	.isomorphic();
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(&exponents, &exp_claims, base_exp_output)?;
 	emit_max_rss();
 	drop(exp_span);
 
diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..8c8f902 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -146,7 +146,7 @@ where
 	let base_exp_output =
 		gkr_exp::batch_verify(EvaluationOrder::HighToLow, &exp_claims, &mut transcript)?;
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(&exponents, &exp_claims, base_exp_output)?;
 
 	// Grand product arguments
 	// Grand products for non-zero checks
-- 
2.43.0


From b7f4a1aec728825219ae39b1c8593f6845e34ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:09 +0000
Subject: [PATCH 08/35] fix: boundaries of channels without remaining flushes
 were not checked

---
 crates/core/src/constraint_system/verify.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 8c8f902..c3c3b14 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,13 +316,23 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	let channel_count = permutation_challenges.len();
+	if let Some(boundary) = boundaries
+		.iter()
+		.find(|boundary| boundary.channel_id >= channel_count)
+	{
+		bail!(Error::ChannelIdOutOfRange {
+			max: channel_count.saturating_sub(1),
+			got: boundary.channel_id,
+		});
+	}
+
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
-
+	// A channel has to balance even if no flush remains on it.
+	for channel_id in 0..channel_count {
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From ff0391c052a38d5cfde2aff6ee2b287b080d56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 09/35] fix: evalcheck verifier panicked on an out-of-range
 duplicate claim index

---
 crates/core/src/protocols/evalcheck/verify.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..8fbd383 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -327,14 +327,12 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
+				match self.round_claims.get(index as usize) {
+					Some(claim) if claim.id == oracle_id && claim.eval_point == eval_point => {
+						Ok(claim.eval)
+					}
+					_ => Err(VerificationError::DuplicateClaimMismatch.into()),
 				}
-
-				Ok(self.round_claims[index].eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From b7fb816d4ba074056a2d94713e2530748b0d0f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:46 +0000
Subject: [PATCH 10/35] fix: evalcheck verifier accepted out-of-range
 constraint set positions

---
 crates/core/src/protocols/evalcheck/verify.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 8fbd383..10ffb7f 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -295,10 +295,10 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 			MultilinearPolyVariant::Composite(ref composite) => {
 				let position = transcript.message().read::<u32>()? as usize;
 
-				if let Some((constraints_eval_point, _)) =
-					self.new_mlechecks_constraints.get(position)
-				{
-					if *constraints_eval_point != eval_point {
+				match self.new_mlechecks_constraints.get(position) {
+					Some((constraints_eval_point, _)) if *constraints_eval_point == eval_point => {}
+					None if position == self.new_mlechecks_constraints.len() => {}
+					_ => {
 						return Err(VerificationError::MLECheckConstraintSetPositionMismatch.into());
 					}
 				}
-- 
2.43.0


From fbf5a2384650316a0da636ef51bebd0ea0fb7bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:56 +0000
Subject: [PATCH 11/35] fix: drawing an 8-bit or 1-bit challenge panicked right
 after an observation

---
 crates/utils/src/serialization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/serialization.rs b/crates/utils/src/serialization.rs
index 5350b3d..1a3783d 100644
--- a/crates/utils/src/serialization.rs
+++ b/crates/utils/src/serialization.rs
@@ -212,7 +212,11 @@ impl DeserializeBytes for u8 {
 		Self: Sized,
 	{
 		assert_enough_data_for(&read_buf, std::mem::size_of::<Self>())?;
-		Ok(read_buf.get_u8())
+		// `Buf::get_u8` panics on an empty chunk, which the Fiat-Shamir sampler has before it is
+		// first advanced.
+		let mut bytes = [0; 1];
+		read_buf.copy_to_slice(&mut bytes);
+		Ok(bytes[0])
 	}
 }
 
-- 
2.43.0


From 158b286c87e0f34f73b987a379d9eec96e56b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:16 +0000
Subject: [PATCH 12/35] fix: packed columns of few values could not be proved
 with wide packings

---
 crates/core/src/transparent/tower_basis.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..d5658a7 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use binius_field::{BinaryField128b, Field, PackedField, TowerField};
+use binius_field::{BinaryField128b, Field, PackedField, TowerField, packed::pack_slice};
 use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
 use binius_math::MultilinearExtension;
 use binius_utils::{DeserializeBytes, bail};
@@ -54,20 +54,11 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
-		let values = (0..n_values)
-			.map(|i| {
-				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
-					let basis_idx = i * P::WIDTH + j;
-					let value = TowerField::basis(self.iota, basis_idx)?;
-					packed_value.set(j, value);
-				}
-				Ok(packed_value)
-			})
-			.collect::<Result<Vec<_>, Error>>()?;
-
-		Ok(MultilinearExtension::from_values(values)?)
+		let basis = (0..1 << self.k)
+			.map(|i| TowerField::basis(self.iota, i))
+			.collect::<Result<Vec<_>, _>>()?;
+
+		Ok(MultilinearExtension::new(self.k, pack_slice(&basis))?)
 	}
 }
 
-- 
2.43.0


From b116b60201ed8a61ac9c462ca68c5b7e8175bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:39 +0000
Subject: [PATCH 13/35] Simulation hook (cfg vsim_hooks): let the prover carry
 on with a false statement

---
 crates/core/src/constraint_system/exp.rs   |  6 ++++++
 crates/core/src/constraint_system/mod.rs   | 16 ++++++++++++++++
 crates/core/src/constraint_system/prove.rs |  8 +++++++-
 crates/core/src/lib.rs                     |  2 ++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index 83732e0..54cea90 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -115,6 +115,12 @@ where
 				_ => bail!(Error::IncorrectTowerLevel),
 			};
 
+			#[cfg(vsim_hooks)]
+			if super::vsim_hooks::dishonest() && witness.get_multilin_poly(exp.exp_result_id).is_ok()
+			{
+				return Ok(exp_witness);
+			}
+
 			witness.update_multilin_poly([(exp.exp_result_id, exp_result_witness)])?;
 
 			Ok(exp_witness)
diff --git a/crates/core/src/constraint_system/mod.rs b/crates/core/src/constraint_system/mod.rs
index ef8f294..2c6bdc1 100644
--- a/crates/core/src/constraint_system/mod.rs
+++ b/crates/core/src/constraint_system/mod.rs
@@ -11,6 +11,22 @@ mod verify;
 #[cfg(test)]
 mod tests;
 
+/// Lets a simulation make the prover carry on where it would refuse a false statement.
+#[cfg(vsim_hooks)]
+pub mod vsim_hooks {
+	use std::sync::atomic::{AtomicBool, Ordering};
+
+	static DISHONEST: AtomicBool = AtomicBool::new(false);
+
+	pub fn set_dishonest(on: bool) {
+		DISHONEST.store(on, Ordering::Relaxed);
+	}
+
+	pub(super) fn dishonest() -> bool {
+		DISHONEST.load(Ordering::Relaxed)
+	}
+}
+
 use binius_field::{BinaryField128b, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
 use binius_utils::{SerializationMode, SerializeBytes};
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index 7fa3542..574f504 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -314,7 +314,13 @@ where
 		.iter()
 		.any(|count| *count == Tower::B128::zero())
 	{
-		bail!(Error::Zeros);
+		#[cfg(vsim_hooks)]
+		let refuse = !super::vsim_hooks::dishonest();
+		#[cfg(not(vsim_hooks))]
+		let refuse = true;
+		if refuse {
+			bail!(Error::Zeros);
+		}
 	}
 
 	let mut writer = transcript.message();
diff --git a/crates/core/src/lib.rs b/crates/core/src/lib.rs
index 2baf1e0..5653bd3 100644
--- a/crates/core/src/lib.rs
+++ b/crates/core/src/lib.rs
@@ -10,6 +10,8 @@
 // in our arithmetic. This is safe to do because we're operating
 // over binary fields.
 #![allow(clippy::suspicious_arithmetic_impl)]
+// For the simulation hooks behind `cfg(vsim_hooks)`.
+#![allow(unexpected_cfgs)]
 #![allow(clippy::suspicious_op_assign_impl)]
 
 pub mod composition;
-- 
2.43.0


From 7e650b7baa9eab981a48c8d3462a6f96f42cb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:26 +0000
Subject: [PATCH 14/35] fix: CpuLayer reports kernel errors and invalid inputs,
 zeroes local buffers, overwrites in tensor_expand

---
 crates/compute/src/cpu/layer.rs | 46 +++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..5bed0f2 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -141,9 +141,11 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 		// For the reference implementation, use the smallest chunk size.
 		let log_chunks = log_chunks_range.end;
 		let total_alloc = count_total_local_buffer_sizes(&mem_maps, log_chunks);
-		let mut local_buffer = zeroed_vec(total_alloc);
+		let mut local_buffer = zeroed_vec::<F>(total_alloc);
 		let iter = (0..1 << log_chunks).map(move |i| {
-			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut());
+			// Every kernel starts with zeroed local buffers.
+			local_buffer.fill(F::ZERO);
+			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut_slice());
 			let kernel_data =
 				Self::map_kernel_mem(&mut mem_maps, &local_buffer_alloc, log_chunks, i);
 			map(&mut CpuKernelBuilder, log_chunks, kernel_data)
@@ -198,8 +200,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
@@ -217,6 +218,12 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				b_in.len()
 			)));
 		}
+		if !b_in.len().is_power_of_two() {
+			return Err(Error::InputValidation(format!(
+				"input length must be a power of 2: {}",
+				b_in.len()
+			)));
+		}
 
 		fn inner_product<F, FExt>(a_in: &[FExt], b_in: &[FExt]) -> FExt
 		where
@@ -248,6 +255,14 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				F::TOWER_LEVEL
 			)));
 		}
+		if mat.is_empty() || mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"invalid dimensions: |mat|={} |vec|={} |out|={}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 		let log_evals_size = mat.slice.len().ilog2() as usize + F::TOWER_LEVEL - mat.tower_level;
 		// Dispatch to the binary field of type T corresponding to the tower level of the evals
 		// slice.
@@ -270,6 +285,14 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				F::TOWER_LEVEL
 			)));
 		}
+		if mat.is_empty() || mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"invalid dimensions: |mat|={} |vec|={} |out|={}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 		let log_evals_size = mat.slice.len().ilog2() as usize + F::TOWER_LEVEL - mat.tower_level;
 		// Dispatch to the binary field of type T corresponding to the tower level of the evals
 		// slice.
@@ -295,7 +318,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			for (x_i, y_i) in std::iter::zip(lhs, rhs) {
 				let prod = *x_i * r_i;
 				*x_i -= prod;
-				*y_i += prod;
+				*y_i = prod;
 			}
 		}
 		Ok(())
@@ -401,6 +424,12 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				"evals_0 and evals_1 must be the same length".into(),
 			));
 		}
+		if !evals_1.len().is_power_of_two() {
+			return Err(Error::InputValidation(format!(
+				"input length must be a power of 2: {}",
+				evals_1.len()
+			)));
+		}
 		for (x0, x1) in iter::zip(&mut **evals_0, evals_1) {
 			*x0 += (*x1 - *x0) * z
 		}
@@ -417,6 +446,13 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			return Err(Error::InputValidation("inputs and output must be the same length".into()));
 		}
 
+		if !output.len().is_power_of_two() {
+			return Err(Error::InputValidation(format!(
+				"output length must be a power of 2: {}",
+				output.len()
+			)));
+		}
+
 		if composition.n_vars() != inputs.n_rows() {
 			return Err(Error::InputValidation("composition not match with input".into()));
 		}
-- 
2.43.0


From 47984984477ff774aca1783988c5cff9379e5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:26 +0000
Subject: [PATCH 15/35] fix: fast compute layer handles short slices, reports
 invalid inputs and zeroes local buffers

---
 crates/fast_compute/src/layer.rs | 113 ++++++++++++++++++++++++++-----
 1 file changed, 97 insertions(+), 16 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..1fba8ae 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -280,9 +280,11 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 							KernelMemMap::Chunked { data, .. } => KernelBuffer::Ref(data),
 							KernelMemMap::ChunkedMut { data, .. } => KernelBuffer::Mut(data),
 							KernelMemMap::Local { log_size } => {
-								let data = allocator
+								let mut data = allocator
 									.alloc(1 << log_size)
 									.expect("buffer must be large enough");
+								// The thread-local buffer may hold data of previous kernels.
+								data.as_slice_mut().fill(P::zero());
 
 								KernelBuffer::Mut(data)
 							}
@@ -310,13 +312,17 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		a_in: SubfieldSlice<'_, T::B128, Self::DevMem>,
 		b_in: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 	) -> Result<Self::OpValue, Error> {
-		if a_in.slice.len() << (<T::B128 as ExtensionField<T::B1>>::LOG_DEGREE - a_in.tower_level)
-			!= b_in.len()
-		{
+		check_tower_level::<T>(a_in.tower_level)?;
+		if a_in.len() != b_in.len() {
 			return Err(Error::InputValidation(
 				"precondition: a_in and b_in must have the same length".to_string(),
 			));
 		}
+		if !b_in.len().is_power_of_two() {
+			return Err(Error::InputValidation(
+				"the length of `b_in` must be a power of 2".to_string(),
+			));
+		}
 
 		fn inner_product_par_impl<FSub: Field, P: PackedExtension<FSub>>(
 			a_in: &[P],
@@ -325,10 +331,21 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			inner_product_par(b_in, PackedExtension::cast_bases(a_in))
 		}
 
+		// The scalars past the end of a slice shorter than the packing width are arbitrary and
+		// must not contribute to the result.
+		let short_b_in;
+		let b_in_slice = if b_in.len() < P::WIDTH {
+			short_b_in =
+				P::from_scalars(PackedField::iter_slice(b_in.as_slice()).take(b_in.len()));
+			slice::from_ref(&short_b_in)
+		} else {
+			b_in.as_slice()
+		};
+
 		let result = each_tower_subfield!(
 			a_in.tower_level,
 			T,
-			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice())
+			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in_slice)
 		);
 
 		Ok(result)
@@ -340,6 +357,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		coordinates: &[T::B128],
 		data: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if data.len() != 1 << (log_n + coordinates.len()) {
+			return Err(Error::InputValidation(format!("invalid data length: {}", data.len())));
+		}
+
 		tensor_prod_eq_ind(log_n, data.as_slice_mut(), coordinates)
 			.map_err(|_| Error::InputValidation("tensor dimensions are invalid".to_string()))
 	}
@@ -389,12 +410,16 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_tower_level::<T>(mat.tower_level)?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation("the input data dimensions are wrong".to_string()));
+		}
 
 		let out = binius_utils::mem::slice_uninit_mut(out.as_slice_mut());
 
@@ -431,12 +456,16 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_tower_level::<T>(mat.tower_level)?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation("the input data dimensions are wrong".to_string()));
+		}
 
 		fn fold_right<FSub: Field, P: PackedExtension<FSub>>(
 			mat: &[P],
@@ -478,9 +507,31 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
-		unpack_if_possible_mut(
-			data_out.as_slice_mut(),
-			|out| {
+		if data_in.len() != 1 << (log_len + log_batch_size) {
+			return Err(Error::InputValidation(format!(
+				"invalid data_in length: {}",
+				data_in.len()
+			)));
+		}
+		if challenges.len() < log_batch_size || challenges.len() > log_batch_size + log_len {
+			return Err(Error::InputValidation(format!(
+				"invalid challenges length: {}",
+				challenges.len()
+			)));
+		}
+		let out_len = 1 << (log_len - (challenges.len() - log_batch_size));
+		if data_out.len() != out_len {
+			return Err(Error::InputValidation(format!(
+				"invalid data_out length: {}",
+				data_out.len()
+			)));
+		}
+
+		let fold = |out: &mut [T::B128]| {
+			// Chunks smaller than the packing width can only be folded scalar by scalar.
+			let is_packed_chunk =
+				|log_chunk_len: usize| log_chunk_len == 0 || log_chunk_len >= P::LOG_WIDTH;
+			if challenges.len() >= P::LOG_WIDTH && is_packed_chunk(log_batch_size) {
 				fold_interleaved_allocated(
 					ntt,
 					data_in.as_slice(),
@@ -489,18 +540,27 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					log_batch_size,
 					out,
 				);
-			},
-			|packed| {
-				let mut out_scalars =
-					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
+			} else {
+				let scalars = PackedField::iter_slice(data_in.as_slice())
+					.take(data_in.len())
+					.collect::<Vec<_>>();
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					&scalars,
 					challenges,
 					log_len,
 					log_batch_size,
-					&mut out_scalars,
+					out,
 				);
+			}
+		};
+
+		unpack_if_possible_mut(
+			data_out.as_slice_mut(),
+			|out| fold(&mut out[..out_len]),
+			|packed| {
+				let mut out_scalars = zeroed_vec(out_len);
+				fold(&mut out_scalars);
 
 				let mut iter = out_scalars.iter().copied();
 				for p in packed {
@@ -523,6 +583,11 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 				"precondition: evals_0 and evals_1 must have the same length".to_string(),
 			));
 		}
+		if !evals_1.len().is_power_of_two() {
+			return Err(Error::InputValidation(
+				"the length of `evals_0` and `evals_1` must be a power of 2".to_string(),
+			));
+		}
 
 		if try_extrapolate_line_byte_sliced::<_, PackedBinaryField1x128b>(
 			evals_0.as_slice_mut(),
@@ -559,6 +624,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			return Err(Error::InputValidation("inputs and output must be the same length".into()));
 		}
 
+		if !output.len().is_power_of_two() {
+			return Err(Error::InputValidation("output length must be a power of 2".into()));
+		}
+
 		if CompositionPoly::<P>::n_vars(composition) != inputs.n_rows() {
 			return Err(Error::InputValidation("composition not match with inputs".into()));
 		}
@@ -570,9 +639,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let log_chunks = get_log_max_threads() + 1;
 
-		let chunk_size = (output.len() >> log_chunks).max(1);
+		// The row length is a power of two, rows shorter than the packing width take one element.
+		let packed_row_len = inputs.row_len().div_ceil(P::WIDTH);
 
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
 
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
@@ -630,6 +700,17 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 	}
 }
 
+/// Checks that the tower level denotes a subfield of `T::B128`.
+fn check_tower_level<T: TowerFamily>(tower_level: usize) -> Result<(), Error> {
+	let max_level = <T::B128 as ExtensionField<T::B1>>::LOG_DEGREE;
+	if tower_level > max_level {
+		return Err(Error::InputValidation(format!(
+			"invalid tower level: {tower_level} > {max_level}"
+		)));
+	}
+	Ok(())
+}
+
 /// In case when `P1` and `P2` are the same type, this function performs the extrapolation
 /// using the byte-sliced representation of the packed field elements.
 ///
-- 
2.43.0


From b4498ea660d58ed6fbe5653cb5a6c334bce2b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:52 +0000
Subject: [PATCH 16/35] fix: BumpAllocator::alloc neither panics on small
 requests at the end of its memory nor on empty ones

---
 crates/compute/src/alloc.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/compute/src/alloc.rs b/crates/compute/src/alloc.rs
index 23e8b0b..9f739d9 100644
--- a/crates/compute/src/alloc.rs
+++ b/crates/compute/src/alloc.rs
@@ -72,13 +72,14 @@ where
 			.take()
 			.expect("buffer is always Some by invariant");
 		// buffer temporarily contains None
-		if buffer.len() < n {
+		let reserved = n.next_multiple_of(Mem::ALIGNMENT);
+		if buffer.len() < reserved {
 			*buffer_lock = Some(buffer);
 			// buffer contains Some, invariant restored
 			Err(Error::OutOfMemory)
 		} else {
-			let (mut lhs, rhs) = Mem::split_at_mut(buffer, n.max(Mem::ALIGNMENT));
-			if n < Mem::ALIGNMENT {
+			let (mut lhs, rhs) = Mem::split_at_mut(buffer, reserved);
+			if n < reserved {
 				assert!(n.is_power_of_two(), "n must be a power of two");
 				for _ in checked_log_2(n)..checked_log_2(Mem::ALIGNMENT) {
 					(lhs, _) = Mem::split_half_mut(lhs)
-- 
2.43.0


From 98cc27dc33cfdc42700025be5bf082d13948120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:52 +0000
Subject: [PATCH 17/35] fix: zerocheck projection returns backend errors
 instead of panicking

---
 crates/core/src/protocols/sumcheck/prove/zerocheck.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/zerocheck.rs b/crates/core/src/protocols/sumcheck/prove/zerocheck.rs
index 4952a80..a3c0560 100644
--- a/crates/core/src/protocols/sumcheck/prove/zerocheck.rs
+++ b/crates/core/src/protocols/sumcheck/prove/zerocheck.rs
@@ -504,12 +504,11 @@ where
 				.map(|multilinear| {
 					let projected_mle = self
 						.backend
-						.evaluate_partial_high(multilinear, query.to_ref())
-						.expect("sumcheck_challenges.len() >= n_vars - skip_rounds");
+						.evaluate_partial_high(multilinear, query.to_ref())?;
 
-					MLEDirectAdapter::from(projected_mle).upcast_arc_dyn()
+					Ok(MLEDirectAdapter::from(projected_mle).upcast_arc_dyn())
 				})
-				.collect::<Vec<_>>()
+				.collect::<Result<Vec<_>, Error>>()?
 		};
 
 		Ok(packed_skipped_projections)
-- 
2.43.0


From a18df32eb371aeabd4e55aaec733c761ee1ac00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:50 +0000
Subject: [PATCH 18/35] fix: device MLE-check prover lost the value at zero for
 a challenge of one

---
 .../sumcheck/v3/bivariate_mlecheck.rs         | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/v3/bivariate_mlecheck.rs b/crates/core/src/protocols/sumcheck/v3/bivariate_mlecheck.rs
index a88b2a5..666e75a 100644
--- a/crates/core/src/protocols/sumcheck/v3/bivariate_mlecheck.rs
+++ b/crates/core/src/protocols/sumcheck/v3/bivariate_mlecheck.rs
@@ -277,10 +277,13 @@ where
 			.map(|multilin| multilin.const_slice())
 			.collect::<Vec<_>>();
 
+		let alpha = self.eq_ind_challenges[self.n_vars_remaining - 1];
+
 		let round_evals = calculate_round_evals(
 			self.hal,
 			self.n_vars_remaining,
 			batch_coeff,
+			alpha,
 			&multilins,
 			self.eq_ind_partial_evals
 				.as_ref()
@@ -297,8 +300,6 @@ where
 			PhaseState::BatchedSum(sum) => sum,
 		};
 
-		let alpha = self.eq_ind_challenges[self.n_vars_remaining - 1];
-
 		let prime_coeffs = calculate_round_coeffs_from_evals(batched_sum, round_evals, alpha);
 
 		self.last_coeffs_or_sums = PhaseState::Coeffs(prime_coeffs.clone());
@@ -373,9 +374,15 @@ where
 }
 
 fn calculate_round_coeffs_from_evals<F: Field>(sum: F, evals: [F; 2], alpha: F) -> RoundCoeffs<F> {
-	let [y_1, y_inf] = evals;
-
-	let y_0 = (sum - y_1 * alpha) * (F::ONE - alpha).invert_or_zero();
+	let [y_finite, y_inf] = evals;
+
+	// The claimed sum is P(0) * (1 − α) + P(1) * α. It determines P(0) given P(1), except when
+	// α = 1: then it is P(1), and the evaluation at 0 is the one that was computed.
+	let (y_0, y_1) = if alpha == F::ONE {
+		(y_finite, sum)
+	} else {
+		((sum - y_finite * alpha) * (F::ONE - alpha).invert_or_zero(), y_finite)
+	};
 
 	// P(X) = c_2 x² + c_1 x + c_0
 	//
@@ -388,10 +395,12 @@ fn calculate_round_coeffs_from_evals<F: Field>(sum: F, evals: [F; 2], alpha: F)
 	RoundCoeffs(vec![c_0, c_1, c_2])
 }
 
+/// Computes the round evaluations at infinity and at one finite point: 1, or 0 when `alpha` is 1.
 fn calculate_round_evals<'a, F: TowerField, Hal: ComputeLayer<F>>(
 	hal: &Hal,
 	n_vars: usize,
 	batch_coeff: F,
+	alpha: F,
 	multilins: &[FSlice<'a, F, Hal>],
 	eq_ind_partial_evals: FSlice<'a, F, Hal>,
 	compositions: &[IndexComposition<BivariateProduct, 2>],
@@ -449,24 +458,25 @@ fn calculate_round_evals<'a, F: TowerField, Hal: ComputeLayer<F>>(
 					"The presence of eq_ind in the buffer is due to it being added earlier in the code.",
 				);
 
-				// Compute the composite evaluations at the point ONE.
-				let mut acc_1 = local_exec.decl_value(F::ZERO)?;
+				// Compute the composite evaluations at the point ONE, or at ZERO when alpha is one.
+				let finite_point = usize::from(alpha != F::ONE);
+				let mut acc_finite = local_exec.decl_value(F::ZERO)?;
 				{
-					let mut eval_1s_with_eq_ind = (0..multilins.len())
-						.map(|i| buffers[i * 3 + 1].to_ref())
+					let mut finite_evals_with_eq_ind = (0..multilins.len())
+						.map(|i| buffers[i * 3 + finite_point].to_ref())
 						.collect::<Vec<_>>();
 
-					eval_1s_with_eq_ind.push(eq_ind.to_ref());
+					finite_evals_with_eq_ind.push(eq_ind.to_ref());
 
-					let eval_1s_with_eq_ind =
-						SlicesBatch::new(eval_1s_with_eq_ind, 1 << log_chunk_size);
+					let finite_evals_with_eq_ind =
+						SlicesBatch::new(finite_evals_with_eq_ind, 1 << log_chunk_size);
 
 					for (&batch_coeff, evaluator) in iter::zip(&batch_coeffs, &prod_evaluators) {
 						local_exec.sum_composition_evals(
-							&eval_1s_with_eq_ind,
+							&finite_evals_with_eq_ind,
 							evaluator,
 							batch_coeff,
-							&mut acc_1,
+							&mut acc_finite,
 						)?;
 					}
 				}
@@ -508,7 +518,7 @@ fn calculate_round_evals<'a, F: TowerField, Hal: ComputeLayer<F>>(
 					)?;
 				}
 
-				Ok(vec![acc_1, acc_inf])
+				Ok(vec![acc_finite, acc_inf])
 			},
 			kernel_mappings,
 		)
-- 
2.43.0


From 562c40956fe18094a0ba4a68ed97de47670d2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 19/35] fix: parallel multi-digest panicked on a last chunk
 with fewer than N rows

---
 crates/hash/src/multi_digest.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..007d035 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,10 +123,16 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_rows = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
+				// The last chunk may have fewer than N rows; the hasher requires N equally long ones.
+				let row_len = buffers[0].len();
+				for buf in &mut buffers[n_rows..] {
+					buf.resize(row_len, 0);
+				}
 				let data = array::from_fn(|i| buffers[i].as_ref());
 				hasher.update(data);
 
-- 
2.43.0


From 523dbaed22087430a63b10f2b5017a2d7010e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:05 +0000
Subject: [PATCH 20/35] fix: Merkle proof_size left out one digest per branch
 and underflowed at the leaf layer

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From d5105c0cd3e28a4887067b59ac3419b2ac65f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:47 +0000
Subject: [PATCH 21/35] fix: Reed-Solomon encoder did not repeat messages
 shorter than a packed element

---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From 6ca6829fd5a3adbde792b458b8c3182642a6659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:47 +0000
Subject: [PATCH 22/35] fix: zero_pad lost values beyond the original length
 within a packed element

---
 crates/math/src/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..6e7c098 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From e5c198f0cde0053bb204e122ce6bd6b828fe27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:11 +0000
Subject: [PATCH 23/35] fix: WideAdd left its first carry unconstrained and
 misread the carry-in column

---
 crates/m3/src/gadgets/add.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..20e69ae 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
@@ -333,15 +333,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 		let mut zout = array_util::try_map(self.z_out, |bit| index.get_mut(bit))?;
 		let mut final_carry_out = index.get_mut(self.final_carry_out)?;
 
-		let mut carry_in = if self.flags.carry_in_bit.is_none() {
-			let initial_carry = PackedSubfield::<P, B1>::default();
-			vec![initial_carry; cin[0].len()]
-		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
-		};
+		let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+		if let Some(carry_in_bit) = self.flags.carry_in_bit {
+			// The carry in is the first of the 32 bits of each row.
+			let carry_in_bits = index.get(carry_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bits, i * 32));
+			}
+		}
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
 				x_in[bit].iter(),
-- 
2.43.0


From 063cbdbcd0f43659abf4275638963738214768bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:11 +0000
Subject: [PATCH 24/35] fix: WideSub constrained none of its borrows and
 ignored the borrow-in column

---
 crates/m3/src/gadgets/sub.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..cf4a97e 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -199,6 +200,13 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let zout = if flags.commit_zout {
 			let zout = table.add_committed_multiple("zout");
 			for (bit, zout_bit) in zout.iter().enumerate() {
@@ -236,22 +244,15 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		type PB1<P> = <P as PackedExtension<B1>>::PackedSubfield;
 
 		let one = PB1::<P>::one();
-		let mut b_in = self
-			.flags
-			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
-			})
-			.unwrap_or_else(|| {
-				let mut b_in = index
-					.get_mut(self.bin)
-					.expect("witness index for constant not set");
-				b_in.fill(PB1::<P>::zero());
-				vec![PB1::<P>::zero(); xin[0].len()]
-			});
+		let mut b_in = vec![PB1::<P>::zero(); xin[0].len()];
+		if let Some(borrow_in_bit) = self.flags.borrow_in_bit {
+			// The borrow in is the first of the 32 bits of each row.
+			let borrow_in_bits = index.get(borrow_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut b_in, i, get_packed_slice(&borrow_in_bits, i * 32));
+			}
+		}
+		index.get_mut(self.bin)?.copy_from_slice(&b_in);
 		for (x_bit, y_bit, mut b_out_bit, mut zout_bit) in
 			izip!(xin.into_iter(), yin.into_iter(), bout.into_iter(), zout.into_iter())
 		{
-- 
2.43.0


From 0c40e75106248b885ab6064d07d303c0a2cc9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:11 +0000
Subject: [PATCH 25/35] fix: DivSS32 rejected exact division of a negative
 dividend

---
 crates/m3/src/gadgets/div.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..fe0072a 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_expr},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check r == 0 or sign(p) == sign(r)
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			upcast_expr(p_in_bits[31] - out_rem_bits[31]) * out_rem,
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 99385454aeacf33548b8edb3fe13dd0604b8dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 26/35] fix: tally counted a channel read once whatever its
 multiplicity

---
 crates/m3/src/builder/indexed_lookup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m3/src/builder/indexed_lookup.rs b/crates/m3/src/builder/indexed_lookup.rs
index 33b01f0..d271736 100644
--- a/crates/m3/src/builder/indexed_lookup.rs
+++ b/crates/m3/src/builder/indexed_lookup.rs
@@ -97,7 +97,7 @@ where
 								*elem = col.get(i);
 							}
 							let index = indexed_lookup.entry_to_index(&elems);
-							counts[index] += 1;
+							counts[index] += flush.multiplicity;
 						}
 					}
 				}
@@ -109,7 +109,7 @@ where
 	for boundary in boundaries {
 		if boundary.channel_id == chan && boundary.direction == FlushDirection::Pull {
 			let index = indexed_lookup.entry_to_index(&boundary.values);
-			counts[index] += 1;
+			counts[index] += boundary.multiplicity as u32;
 		}
 	}
 
-- 
2.43.0


From 170b8bb3a398ec50f0a40cc8a22e8717ee88d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 27/35] fix: reading a column of another table through a
 witness segment was not refused

---
 crates/m3/src/builder/witness.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/m3/src/builder/witness.rs b/crates/m3/src/builder/witness.rs
index 573287a..ea38aa5 100644
--- a/crates/m3/src/builder/witness.rs
+++ b/crates/m3/src/builder/witness.rs
@@ -1021,6 +1021,13 @@ impl<'a, F: TowerField, P: PackedField<Scalar = F>> TableWitnessSegment<'a, P> {
 		P: PackedExtension<FSub> + PackedFieldIndexable,
 		F: ExtensionField<FSub> + Pod,
 	{
+		if col.table_id != self.table.id() {
+			return Err(Error::TableMismatch {
+				column_table_id: col.table_id,
+				witness_table_id: self.table.id(),
+			});
+		}
+
 		let col = self
 			.get_col_data(col.id())
 			.ok_or_else(|| Error::MissingColumn(col.id()))?;
-- 
2.43.0


From faae2e2a3483547682d826ae3b9386ae932b1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 28/35] fix: Groestl output states were read for log(rows) rows
 only

---
 crates/m3/src/gadgets/hash/groestl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/hash/groestl.rs b/crates/m3/src/gadgets/hash/groestl.rs
index c33d087..666f38a 100644
--- a/crates/m3/src/gadgets/hash/groestl.rs
+++ b/crates/m3/src/gadgets/hash/groestl.rs
@@ -133,7 +133,7 @@ impl Permutation {
 		let state_out = self
 			.state_out()
 			.try_map_ext(|state_out_i| index.get(state_out_i))?;
-		let iter = (0..index.log_size()).map(move |k| {
+		let iter = (0..index.size()).map(move |k| {
 			array::from_fn(|ij| {
 				let i = ij % 8;
 				let j = ij / 8;
-- 
2.43.0


From 4d89d41e64ce486bded1dc01251dcc569cef032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 29/35] fix: BitAnd lookup gadget populated only the first of
 its V values per row

---
 crates/m3/src/gadgets/indexed_lookup/and.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/indexed_lookup/and.rs b/crates/m3/src/gadgets/indexed_lookup/and.rs
index 5f41388..c9f107c 100644
--- a/crates/m3/src/gadgets/indexed_lookup/and.rs
+++ b/crates/m3/src/gadgets/indexed_lookup/and.rs
@@ -82,7 +82,7 @@ impl<const V: usize> BitAnd<V> {
 		let mut output_col: std::cell::RefMut<'_, [B8]> = witness.get_scalars_mut(self.output)?;
 		let mut merged_col: std::cell::RefMut<'_, [B32]> = witness.get_scalars_mut(self.merged)?;
 
-		for i in 0..witness.size() {
+		for i in 0..witness.size() * V {
 			let in_a = in_a_col[i].val();
 			let in_b = in_b_col[i].val();
 			let output = in_a & in_b;
-- 
2.43.0


From 0439d9d47d5be4465b5e2dbd066fb89ce9cacb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 30/35] fix: validation looked only at the first values of a
 zero-padded column

---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From fda1bda0f86a6ddcc473c16813e9c53a7d358a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 31/35] fix: channel validation panicked or wrapped around
 instead of returning an error

---
 crates/core/src/constraint_system/channel.rs | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..8603d7b 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -54,6 +54,7 @@ use std::collections::HashMap;
 use binius_field::{Field, PackedField, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
 use binius_math::MultilinearPoly;
+use binius_utils::checked_arithmetics::log2_ceil_usize;
 use itertools::izip;
 
 use super::error::{Error, VerificationError};
@@ -112,7 +113,7 @@ where
 			direction,
 			multiplicity,
 		} = boundary;
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -132,7 +133,7 @@ where
 			log_values_per_row,
 		} = flush;
 
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -160,8 +161,8 @@ where
 
 		let n_vars = non_const_polys
 			.first()
-			.map(|poly| poly.n_vars())
-			.unwrap_or(0);
+			.ok_or(Error::EmptyFlushOracles)?
+			.n_vars();
 
 		// Ensure that all the polys in a single flush have the same n_vars
 		for poly in &non_const_polys {
@@ -190,7 +191,12 @@ where
 		}
 
 		let values_per_row = 1 << log_values_per_row;
-		assert!(table_size * values_per_row <= 1 << n_vars);
+		if table_size * values_per_row > 1 << n_vars {
+			return Err(Error::ChannelFlushNvarsMismatch {
+				expected: log2_ceil_usize(table_size) + log_values_per_row,
+				got: n_vars,
+			});
+		}
 		for i in 0..table_size * values_per_row {
 			let selector_off = selector_polys.iter().any(|selector_poly| {
 				selector_poly
@@ -226,7 +232,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0i128)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +247,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +277,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += i128::from(multiplicity)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1i128,
+				FlushDirection::Push => 1i128,
 			});
 		Ok(())
 	}
-- 
2.43.0


From 231e4e9f31a68e369059889518093ec2c66da552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 32/35] fix: projections and zero-padded columns accepted or
 panicked on arguments out of range

---
 crates/core/src/oracle/multilinear.rs |  6 +++---
 crates/core/src/oracle/symbolic.rs    | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/oracle/multilinear.rs b/crates/core/src/oracle/multilinear.rs
index 720f035..869e82d 100644
--- a/crates/core/src/oracle/multilinear.rs
+++ b/crates/core/src/oracle/multilinear.rs
@@ -209,7 +209,6 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 		ensure!(self.mut_ref.is_valid_oracle_id(inner_id), Error::InvalidOracleId(inner_id));
 
 		let inner_n_vars = self.mut_ref.n_vars(inner_id);
-		let start_index = inner_n_vars - values.len();
 		let values_len = values.len();
 		if values_len > inner_n_vars {
 			bail!(Error::InvalidProjection {
@@ -217,6 +216,7 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 				values_len,
 			});
 		}
+		let start_index = inner_n_vars - values_len;
 
 		// TODO: This is wrong, should be F::TOWER_LEVEL
 		let tower_level = self.mut_ref.tower_level(inner_id);
@@ -760,9 +760,9 @@ impl ZeroPadded {
 			});
 		}
 
-		if nonzero_index > 1 << n_pad_vars {
+		if nonzero_index >= 1 << n_pad_vars {
 			bail!(Error::InvalidNonzeroIndex {
-				expected: 1 << n_pad_vars,
+				expected: (1 << n_pad_vars) - 1,
 			});
 		}
 
diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..16110ae 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -269,7 +269,15 @@ fn instantiate_oracle_variant<F: TowerField>(
 		} => {
 			let start_index = match variant {
 				ProjectionVariant::Offset(offset) => *offset,
-				ProjectionVariant::Last => n_vars - values.len(),
+				ProjectionVariant::Last => {
+					let inner_n_vars = mos.n_vars(*id);
+					inner_n_vars
+						.checked_sub(values.len())
+						.ok_or(Error::InvalidProjection {
+							n_vars: inner_n_vars,
+							values_len: values.len(),
+						})?
+				}
 			};
 			let projected = Projected::new(mos, *id, values.clone(), start_index)?;
 			Sized::Projected(projected)
-- 
2.43.0


From 4d199f918e1dfd0d1b4b1291f6df161b059e9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 33/35] fix: serialized transparent multilinears lost their
 size and tower level

---
 .../src/transparent/multilinear_extension.rs  | 89 ++++++++++++-------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..977aaf9 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -5,7 +5,9 @@ use std::{fmt::Debug, ops::Deref};
 use binius_field::{
 	BinaryField1b, BinaryField2b, BinaryField4b, BinaryField8b, BinaryField16b, BinaryField32b,
 	BinaryField64b, BinaryField128b, ExtensionField, PackedField, RepackedExtension, TowerField,
-	arch::OptimalUnderlier, as_packed_field::PackedType, packed::pack_slice,
+	arch::OptimalUnderlier,
+	as_packed_field::{PackScalar, PackedType},
+	packed::pack_slice,
 };
 use binius_hal::{ComputationBackendExt, make_portable_backend};
 use binius_macros::erased_serialize_bytes;
@@ -41,15 +43,21 @@ where
 {
 	fn serialize(
 		&self,
-		write_buf: impl bytes::BufMut,
+		mut write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
+		// The values are packed, so the number of variables and the tower level of the values are
+		// needed to read them back.
+		let tower_level = PE::Scalar::TOWER_LEVEL - self.data.log_extension_degree();
 		let elems = PE::iter_slice(
 			self.data
 				.packed_evals()
 				.expect("Evals should always be available here"),
 		)
+		.take(1 << self.data.n_vars().saturating_sub(self.data.log_extension_degree()))
 		.collect::<Vec<_>>();
+		SerializeBytes::serialize(&self.data.n_vars(), &mut write_buf, mode)?;
+		SerializeBytes::serialize(&tower_level, &mut write_buf, mode)?;
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -58,44 +66,57 @@ inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"MultilinearExtensionTransparent",
 		|buf, mode| {
-			type U = OptimalUnderlier;
-			type F = BinaryField128b;
-			type P = PackedType<U, F>;
-			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
-			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
-			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
-			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
-			};
-			Ok(result)
+			let n_vars = usize::deserialize(&mut *buf, mode)?;
+			let tower_level = usize::deserialize(&mut *buf, mode)?;
+			let elems = Vec::<BinaryField128b>::deserialize(&mut *buf, mode)?;
+			match tower_level {
+				0 => from_extension_elems::<BinaryField1b>(n_vars, &elems),
+				1 => from_extension_elems::<BinaryField2b>(n_vars, &elems),
+				2 => from_extension_elems::<BinaryField4b>(n_vars, &elems),
+				3 => from_extension_elems::<BinaryField8b>(n_vars, &elems),
+				4 => from_extension_elems::<BinaryField16b>(n_vars, &elems),
+				5 => from_extension_elems::<BinaryField32b>(n_vars, &elems),
+				6 => from_extension_elems::<BinaryField64b>(n_vars, &elems),
+				7 => from_extension_elems::<BinaryField128b>(n_vars, &elems),
+				_ => None,
+			}
+			.ok_or(SerializationError::InvalidConstruction {
+				name: "MultilinearExtensionTransparent",
+			})
 		}
 	)
 }
 
-fn try_pack_slice<PS, F>(xs: &[F]) -> Option<Vec<PS>>
+/// Unpacks the values of a multilinear extension from elements of the large field.
+///
+/// Returns `None` if there are fewer than `2^n_vars` values.
+fn from_extension_elems<FS>(
+	n_vars: usize,
+	elems: &[BinaryField128b],
+) -> Option<Box<dyn MultivariatePoly<BinaryField128b>>>
 where
-	PS: PackedField,
-	F: ExtensionField<PS::Scalar>,
+	FS: TowerField,
+	BinaryField128b: ExtensionField<FS>,
+	OptimalUnderlier: PackScalar<FS>,
+	PackedType<OptimalUnderlier, BinaryField128b>: RepackedExtension<PackedType<OptimalUnderlier, FS>>,
 {
-	Some(pack_slice(
-		&xs.iter()
-			.copied()
-			.map(TryInto::try_into)
-			.collect::<Result<Vec<_>, _>>()
-			.ok()?,
-	))
+	type U = OptimalUnderlier;
+	let n_values = 1usize.checked_shl(n_vars as u32)?;
+	let values = elems
+		.iter()
+		.flat_map(ExtensionField::<FS>::iter_bases)
+		.take(n_values)
+		.collect::<Vec<_>>();
+	if values.len() < n_values {
+		return None;
+	}
+	let poly = MultilinearExtensionTransparent::<
+		PackedType<U, FS>,
+		PackedType<U, BinaryField128b>,
+		_,
+	>::from_values_and_mu(pack_slice(&values), n_vars)
+	.ok()?;
+	Some(Box::new(poly))
 }
 
 impl<P, PE, Data> MultilinearExtensionTransparent<P, PE, Data>
-- 
2.43.0


From 24dc1a5e6d371adbb97abfd05b4653da183ebbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 34/35] fix: reading an arithmetic circuit accepted empty ones
 and forward references

---
 crates/math/src/arith_expr.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..d8b1596 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -12,6 +12,7 @@ use std::{
 
 use binius_field::{Field, PackedField, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bytes};
 
 use super::error::Error;
 
@@ -220,11 +221,34 @@ impl<F: Field> Default for ArithCircuitStep<F> {
 /// We store a tree in a form of a simple circuit.
 /// This implementation isn't optimized for performance, but rather for simplicity
 /// to allow easy conversion and preservation of the common subexpressions
-#[derive(Clone, Debug, SerializeBytes, DeserializeBytes, Eq)]
+#[derive(Clone, Debug, SerializeBytes, Eq)]
 pub struct ArithCircuit<F: Field> {
 	steps: Vec<ArithCircuitStep<F>>,
 }
 
+impl<F: Field> DeserializeBytes for ArithCircuit<F> {
+	fn deserialize(
+		read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError> {
+		let steps = Vec::<ArithCircuitStep<F>>::deserialize(read_buf, mode)?;
+		// A step may only refer to the steps before it, and the last one is the result.
+		let well_formed = steps.iter().enumerate().all(|(i, step)| match *step {
+			ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+				left < i && right < i
+			}
+			ArithCircuitStep::Pow(base, _) => base < i,
+			ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => true,
+		});
+		if steps.is_empty() || !well_formed {
+			return Err(SerializationError::InvalidConstruction {
+				name: "ArithCircuit",
+			});
+		}
+		Ok(Self { steps })
+	}
+}
+
 impl<F: Field> ArithCircuit<F> {
 	pub fn var(index: usize) -> Self {
 		Self {
-- 
2.43.0


From 6e431d074d5fd0ecc274975b42cee473c1760684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:50 +0000
Subject: [PATCH 35/35] fix: offset of a nested linear combination was not
 scaled in evalcheck

---
 crates/core/src/protocols/evalcheck/subclaims.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/subclaims.rs b/crates/core/src/protocols/evalcheck/subclaims.rs
index 07b5818..ea97b6c 100644
--- a/crates/core/src/protocols/evalcheck/subclaims.rs
+++ b/crates/core/src/protocols/evalcheck/subclaims.rs
@@ -322,7 +322,7 @@ pub fn try_build_partial_eval<F: TowerField, P: PackedField<Scalar = F>>(
 			}
 
 			if lc.offset() != F::zero() {
-				let offset = P::broadcast(lc.offset());
+				let offset = coeff * P::broadcast(lc.offset());
 				for acc in acc.iter_mut() {
 					*acc += offset;
 				}
-- 
2.43.0

