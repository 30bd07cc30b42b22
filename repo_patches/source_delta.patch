From 76c924bb5e7455abd3605d8f8245161422ac0e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:09 +0000
Subject: [PATCH 01/21] fix: fifa() credits the shootout winner, not player
 one, with 0.75 points

With penalties enabled, the second team received 0.75 points when the first
team won the shootout and 0.5 points when the second team won it.
---
 src/fifa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fifa.rs b/src/fifa.rs
index baab75f..5dacb43 100644
--- a/src/fifa.rs
+++ b/src/fifa.rs
@@ -265,7 +265,7 @@ pub fn fifa(
         outcome.to_chess_points()
     };
     let outcome2 = if config.penalties {
-        if outcome == &Outcomes::WIN {
+        if outcome == &Outcomes::LOSS {
             0.75
         } else {
             0.5
-- 
2.43.0


From 88aa37eab2605611c5d850b3c49f00e7e2697068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:15 +0000
Subject: [PATCH 02/21] fix: ingo expected scores stay between 0 and 1

They are documented as probabilities, but left the interval as soon as the
ratings were more than 50 points apart.
---
 src/ingo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingo.rs b/src/ingo.rs
index f9a4d11..76c6abc 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -331,7 +331,7 @@ pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)
 /// assert!((exp1 + exp2 - 1.0).abs() < f64::EPSILON);
 /// ```
 pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64, f64) {
-    let exp_one = 0.5 + (player_two.rating - player_one.rating) / 100.0;
+    let exp_one = (0.5 + (player_two.rating - player_one.rating) / 100.0).clamp(0.0, 1.0);
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
@@ -372,7 +372,7 @@ pub fn expected_score(player_one: &IngoRating, player_two: &IngoRating) -> (f64,
 pub fn expected_score_rating_period(player: &IngoRating, opponents: &[IngoRating]) -> Vec<f64> {
     opponents
         .iter()
-        .map(|o| 0.5 + (o.rating - player.rating) / 100.0)
+        .map(|o| (0.5 + (o.rating - player.rating) / 100.0).clamp(0.0, 1.0))
         .collect()
 }
 
-- 
2.43.0


From 25c03022e309594166f36addc35c6368a8b94042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:21 +0000
Subject: [PATCH 03/21] fix: ingo_rating_period keeps the rating when there are
 no results

An empty slice produced a NaN rating.
---
 src/ingo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ingo.rs b/src/ingo.rs
index 76c6abc..1d5cea1 100644
--- a/src/ingo.rs
+++ b/src/ingo.rs
@@ -280,6 +280,11 @@ pub fn ingo(
 /// assert!((new_player.rating.round() - 126.0).abs() < f64::EPSILON);
 /// ```
 pub fn ingo_rating_period(player: &IngoRating, results: &[(IngoRating, Outcomes)]) -> IngoRating {
+    // Without any results there is no performance to calculate.
+    if results.is_empty() {
+        return *player;
+    }
+
     // Ingo was meant to be used in tournaments, so we do not need to loop over the opponents here.
     let development = age_to_devcoefficent(player.age);
 
-- 
2.43.0


From badea7a51e884aa48d7a811219e30315e47907a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 04/21] fix: uscf_rating_period respects the rating floor of
 100

uscf() never lets a rating drop below the absolute minimum of 100, the rating
period did.
---
 src/uscf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 14879d8..7ba6029 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -413,7 +413,8 @@ pub fn uscf_rating_period(
             avg_opponent_rating,
             wins,
             losses,
-        );
+        )
+        .max(100.0);
 
         return USCFRating {
             rating: new_rating,
@@ -435,7 +436,8 @@ pub fn uscf_rating_period(
         score,
         exp_sum,
         *config,
-    );
+    )
+    .max(100.0);
 
     USCFRating {
         rating: new_rating,
-- 
2.43.0


From 9fefb215abf4575fed14cdd9f26ae8754e66c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:33 +0000
Subject: [PATCH 05/21] fix: egf_rating_period respects the rating floor of
 -900

The minimum was only applied to each game on its own, the sum of several
losses could end up below it.
---
 src/egf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/egf.rs b/src/egf.rs
index 98aa9ac..75c707a 100644
--- a/src/egf.rs
+++ b/src/egf.rs
@@ -319,7 +319,7 @@ pub fn egf_rating_period(
     }
 
     EGFRating {
-        rating: player.rating + rating_change,
+        rating: (player.rating + rating_change).max(-900.0),
     }
 }
 
-- 
2.43.0


From 57567aa38225569e481b14860aff46237ed39ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:04 +0000
Subject: [PATCH 06/21] fix: match_quality_multi_team works for two teams

With exactly two teams the mean vector was multiplied the wrong way around,
and the inverse of a 1x1 matrix was all zeros, so the function panicked.
---
 src/trueskill/matrix.rs | 5 +++++
 src/trueskill/mod.rs    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 4342f3b..eb6834d 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,11 @@ impl Matrix {
     pub fn determinant(&self) -> f64 {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
+        // The determinant of the empty matrix is 1, the minor of a 1x1 matrix ends up here.
+        if self.rows == 0 {
+            return 1.0;
+        }
+
         if self.rows == 1 {
             return self.get(0, 0);
         }
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 83501ce..0fb003d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1150,7 +1150,7 @@ pub fn match_quality_multi_team(
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
     let atsa = rotated_a_matrix.clone() * variance_matrix * a_matrix.clone();
-    let start = a_matrix * mean_matrix.transpose();
+    let start = mean_matrix.transpose() * a_matrix;
     let middle = a_ta.clone() + atsa;
 
     let end = rotated_a_matrix * mean_matrix;
-- 
2.43.0


From a3124cef85e5fa06168f6bfeedc5e4cddd27d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:10 +0000
Subject: [PATCH 07/21] fix: trueskill_multi_team returns a lone team unchanged
 instead of panicking

There are no team differences to calculate with a single team, the message
passing schedule indexed out of bounds.
---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 0fb003d..859496f 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -790,6 +790,11 @@ pub fn trueskill_multi_team(
         weights,
     )?;
 
+    // A single team has no opponents, so there is nothing to rate.
+    if teams_and_ranks.len() == 1 {
+        return Ok(vec![teams_and_ranks[0].0.to_vec()]);
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From 995837d407ed5c5d080d6b3cbf6f788242bd0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:16 +0000
Subject: [PATCH 08/21] fix: TrueSkill expected_score_multi_team returns 1.0
 for a lone team

It divided 0.0 by 0.0 and returned NaN, Weng-Lin returns 1.0 here.
---
 src/trueskill/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 859496f..eb8cefe 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1358,6 +1358,11 @@ pub fn expected_score_multi_team(
     teams: &[&[TrueSkillRating]],
     config: &TrueSkillConfig,
 ) -> Vec<f64> {
+    // A lone team cannot be beaten by anyone.
+    if teams.len() == 1 {
+        return vec![1.0];
+    }
+
     let player_count = teams.iter().map(|t| t.len()).sum::<usize>() as f64;
 
     let mut win_probabilities = Vec::with_capacity(teams.len());
-- 
2.43.0


From f0a5a05f994f4b1d86b963696fa3dc5e72c6dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 09/21] fix: trueskill_multi_team handles players with a weight
 of 0.0

A weight of 0.0 is documented as a player that has not played at all, but the
player ended up with a rating and uncertainty of NaN.
---
 src/trueskill/factor_graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index e2b78a3..12027a2 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -169,11 +169,15 @@ impl SumFactor {
 
     pub fn up(&self, index: usize) -> f64 {
         let coeff = self.coeffs[index];
+
+        // A term that does not contribute to the sum learns nothing from it.
+        if coeff == 0.0 {
+            return 0.0;
+        }
+
         let mut coeffs = Vec::new();
         for (x, c) in self.coeffs.iter().enumerate() {
-            if coeff == 0.0 {
-                coeffs.push(0.0);
-            } else if x == index {
+            if x == index {
                 coeffs.push(coeff.recip());
             } else {
                 coeffs.push(-(*c) / coeff);
-- 
2.43.0


From d9000f712a154bfee0f273c71ad4257ba0acbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 10/21] fix: trueskill_multi_team stays finite for extremely
 unlikely results

When the result of a match was more than ~27 standard deviations off, the
truncation divided by zero and every rating turned into NaN.
---
 src/trueskill/factor_graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index 12027a2..d30f7ae 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -268,7 +268,8 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        let denom = 1.0 - w;
+        // For extremely unlikely results w is exactly 1, dividing by 0 would turn the ratings into NaN.
+        let denom = (1.0 - w).max(f64::EPSILON);
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
-- 
2.43.0


From cdc637c7652a776dda1410ae81957c0f6677e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 11/21] fix: trueskill_multi_team treats a team without any
 participation like an empty team

If all weights of a team were 0.0, the ratings of the other teams turned into
NaN. Now the original ratings are returned, just like for a team without
players.
---
 src/trueskill/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index eb8cefe..d810481 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -795,6 +795,14 @@ pub fn trueskill_multi_team(
         return Ok(vec![teams_and_ranks[0].0.to_vec()]);
     }
 
+    // If nobody on a team has played, the team is treated like an empty team.
+    if weights.iter().any(|team| team.iter().all(|&w| w == 0.0)) {
+        return Ok(teams_and_ranks
+            .iter()
+            .map(|(team, _)| team.to_vec())
+            .collect());
+    }
+
     let mut sorted_teams_and_ranks_with_pos = Vec::new();
     for (pos, ((team, outcome), weights)) in teams_and_ranks.iter().zip(&weights).enumerate() {
         sorted_teams_and_ranks_with_pos.push((pos, (*team, *outcome, &weights[..])));
-- 
2.43.0


From 2a9e6e70b645547b145e08fbeb9565b1568ce594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 12/21] fix: match_quality_multi_team does not panic if nobody
 on two teams has played

With only weights of 0.0 on two neighbouring teams, the matrix was not
invertible.
---
 src/trueskill/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index d810481..734b96d 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1159,6 +1159,12 @@ pub fn match_quality_multi_team(
     let variance_matrix = Matrix::new_diagonal(&team_uncertainties_sq_flatten);
 
     let rotated_a_matrix = Matrix::create_rotated_a_matrix(teams, weights)?;
+
+    // Same as above, a team where nobody has played is the same as an empty team.
+    if weights.is_some_and(|w| w.iter().any(|team| team.iter().all(|&w| w == 0.0))) {
+        return Ok(0.0);
+    }
+
     let a_matrix = rotated_a_matrix.transpose();
 
     let a_ta = rotated_a_matrix.clone() * a_matrix.clone() * config.beta.powi(2);
-- 
2.43.0


From 83ad0c206ce0fe5b94a9ab6947dc3f04a116bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:44 +0000
Subject: [PATCH 13/21] fix: Weng-Lin win probabilities do not overflow for
 high ratings

exp(rating / c) is infinite for sums of ratings above ~709 * c, which turned
the expected scores and all new ratings into NaN. The probability only depends
on the difference of the ratings.
---
 src/weng_lin.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index 033253f..b9cb0fb 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -971,10 +971,8 @@ pub fn expected_score_rating_period(
 }
 
 fn p_value(rating_one: f64, rating_two: f64, c_value: f64) -> (f64, f64) {
-    let e1 = (rating_one / c_value).exp();
-    let e2 = (rating_two / c_value).exp();
-
-    let exp_one = e1 / (e1 + e2);
+    // Only exponentiating the difference, the ratings themselves could overflow.
+    let exp_one = (1.0 + ((rating_two - rating_one) / c_value).exp()).recip();
     let exp_two = 1.0 - exp_one;
 
     (exp_one, exp_two)
-- 
2.43.0


From fc429653d48ab9ad5d94636d63920e173a97ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:50 +0000
Subject: [PATCH 14/21] fix: Weng-Lin expected_score_multi_team does not
 overflow for high ratings

Same as for two players: exp(rating / c) could become infinite and all
expected scores NaN.
---
 src/weng_lin.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/weng_lin.rs b/src/weng_lin.rs
index b9cb0fb..ee00575 100644
--- a/src/weng_lin.rs
+++ b/src/weng_lin.rs
@@ -912,8 +912,11 @@ pub fn expected_score_multi_team(teams: &[&[WengLinRating]], config: &WengLinCon
 
     let mut sum = 0.0;
 
+    // Only exponentiating the distance to the best team, the ratings themselves could overflow.
+    let max_rating = ratings.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+
     for rating in ratings {
-        let e = (rating / c).exp();
+        let e = ((rating - max_rating) / c).exp();
         exps.push(e);
         sum += e;
     }
-- 
2.43.0


From 25e371616bd2278b532204b6871caa0c3d10148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:51 +0000
Subject: [PATCH 15/21] fix: dwz_rating_period leaves a player without results
 unchanged

An empty tournament still raised the index, and for an index of 0 the rating
became NaN.
---
 src/dwz.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dwz.rs b/src/dwz.rs
index 2a3fb3f..ea05b32 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -341,6 +341,11 @@ pub fn dwz(
 /// assert_eq!(new_player.index, 18);
 /// ```
 pub fn dwz_rating_period(player: &DWZRating, results: &[(DWZRating, Outcomes)]) -> DWZRating {
+    // A player without any results has not taken part in the tournament.
+    if results.is_empty() {
+        return *player;
+    }
+
     let points = results.iter().map(|r| r.1.to_chess_points()).sum();
 
     let expected_points = results.iter().map(|r| expected_score(player, &r.0).0).sum();
-- 
2.43.0


From 92d0aa7abab02916432d05e49c447a01d6b983bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:50 +0000
Subject: [PATCH 16/21] fix: many-team TrueSkill stays numerically stable after
 extremely unlikely results

---
 src/trueskill/factor_graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trueskill/factor_graph.rs b/src/trueskill/factor_graph.rs
index d30f7ae..0370573 100644
--- a/src/trueskill/factor_graph.rs
+++ b/src/trueskill/factor_graph.rs
@@ -268,8 +268,9 @@ impl TruncateFactor {
         let arg_2 = self.draw_margin * div.pi;
         let v = (self.v_func)(arg_1, arg_2, pi_sqrt);
         let w = (self.w_func)(arg_1, arg_2, pi_sqrt);
-        // For extremely unlikely results w is exactly 1, dividing by 0 would turn the ratings into NaN.
-        let denom = (1.0 - w).max(f64::EPSILON);
+        // For extremely unlikely results w is exactly 1. Dividing by 0 would turn the ratings into NaN,
+        // and so would a huge precision which the other messages get lost in.
+        let denom = (1.0 - w).max(1e-6);
 
         let pi = div.pi / denom;
         let tau = pi_sqrt.mul_add(v, div.tau) / denom;
-- 
2.43.0


From 42cb471defb1115e92a0e2d6f2b1e5b441f82f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:26 +0000
Subject: [PATCH 17/21] fix: TrueSkill draws of extremely uncertain players do
 not yield a NaN uncertainty

---
 src/trueskill/math.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/math.rs b/src/trueskill/math.rs
index 8be4c41..5bbbaea 100644
--- a/src/trueskill/math.rs
+++ b/src/trueskill/math.rs
@@ -93,7 +93,9 @@ pub fn new_uncertainty(uncertainty: f64, c: f64, w: f64, dynamics_factor: f64) -
     let variance = uncertainty.mul_add(uncertainty, dynamics_factor.powi(2));
     let dev_multiplier = variance / c.powi(2);
 
-    (variance * w.mul_add(-dev_multiplier, 1.0)).sqrt()
+    // Mathematically this factor is always positive, but with a draw between players that are
+    // extremely uncertain compared to beta, rounding errors could push it below zero.
+    (variance * w.mul_add(-dev_multiplier, 1.0).max(f64::EPSILON)).sqrt()
 }
 
 #[cfg(test)]
-- 
2.43.0


From d7322124e894c4a80caabef2f02bd02b0dabdf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:33 +0000
Subject: [PATCH 18/21] fix: the DWZ development coefficient is at least 5 for
 players with index 0

---
 src/dwz.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dwz.rs b/src/dwz.rs
index ea05b32..f323d4b 100644
--- a/src/dwz.rs
+++ b/src/dwz.rs
@@ -643,9 +643,8 @@ fn e_value(rating: f64, age: usize, score: f64, expected_score: f64, index: usiz
     if e <= 5.0 {
         e = 5.0;
     } else if b == 0.0 {
-        if e >= 30.0_f64.min(5.0 * index as f64) {
-            e = 30.0_f64.min(5.0 * index as f64);
-        }
+        // The coefficient is never lower than 5, not even for players without any tournaments.
+        e = e.min((5.0 * index as f64).clamp(5.0, 30.0));
     } else if e >= 150.0 {
         e = 150.0;
     }
-- 
2.43.0


From 793adf8655339f993bed9d6e7e4f39d0772060ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:34 +0000
Subject: [PATCH 19/21] fix: the USCF bonus threshold grows with the number of
 games, with at least 4 games

The bonus is max(0, K(S - E) - B * sqrt(m')) with m' = max(m, 4): events with three games
are treated like events with four games. With min(m, 4) long events had too low a threshold.
---
 src/uscf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uscf.rs b/src/uscf.rs
index 7ba6029..2d99d84 100644
--- a/src/uscf.rs
+++ b/src/uscf.rs
@@ -568,7 +568,7 @@ fn get_boost_value(played_games: usize, k: f64, e: f64, score: f64, t: f64) -> f
     }
 
     let kse = k * (score - e);
-    let tm = t * (played_games.min(4) as f64).sqrt();
+    let tm = t * (played_games.max(4) as f64).sqrt();
 
     if tm >= kse {
         0.0
-- 
2.43.0


From 916b0e9378a45357a6e942ce3d5f69c53e94faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 20/21] fix: match_quality_multi_team does not take factorial
 time in the number of teams

---
 src/trueskill/matrix.rs | 105 ++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 43 deletions(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index eb6834d..209f85a 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -99,70 +99,89 @@ impl Matrix {
         matrix
     }
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
     pub fn determinant(&self) -> f64 {
+        self.pivots().iter().product()
+    }
+
+    /// The diagonal after a Gaussian elimination, the determinant is the product of these values.
+    fn pivots(&self) -> Vec<f64> {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        // The determinant of the empty matrix is 1, the minor of a 1x1 matrix ends up here.
-        if self.rows == 0 {
-            return 1.0;
-        }
+        let mut matrix = self.clone();
+        let mut pivots = vec![];
 
-        if self.rows == 1 {
-            return self.get(0, 0);
-        }
+        for col in 0..self.cols {
+            let pivot_row = matrix.pivot_row(col);
+            let pivot = matrix.get(pivot_row, col);
 
-        let mut sum = 0.0;
+            // Swapping two rows changes the sign of the determinant.
+            pivots.push(if pivot_row == col { pivot } else { -pivot });
+            matrix.swap_rows(pivot_row, col);
 
-        for i in 0..self.rows {
-            sum += self.get(0, i) * self.minor(0, i).determinant() * (-1.0_f64).powi(i as i32);
+            if pivot != 0.0 {
+                for row in col + 1..self.rows {
+                    matrix.subtract_row(row, col, matrix.get(row, col) / pivot);
+                }
+            }
         }
 
-        sum
+        pivots
     }
 
-    pub fn minor(&self, row: usize, col: usize) -> Self {
-        let mut matrix = Self::new(self.rows - 1, self.cols - 1);
+    pub fn inverse(&self) -> Self {
+        assert_eq!(self.rows, self.cols, "Matrix must be square");
 
-        for i in 0..self.rows {
-            for j in 0..self.cols {
-                if i != row && j != col {
-                    matrix.set(
-                        if i > row { i - 1 } else { i },
-                        if j > col { j - 1 } else { j },
-                        self.get(i, j),
-                    );
-                }
-            }
-        }
+        // Gauss-Jordan elimination.
+        let mut matrix = self.clone();
+        let mut inverse = Self::new_diagonal(&vec![1.0; self.rows]);
 
-        matrix
-    }
+        for col in 0..self.cols {
+            let pivot_row = matrix.pivot_row(col);
 
-    #[allow(clippy::cast_possible_truncation, clippy::cast_possible_wrap)]
-    pub fn adjugate(&self) -> Self {
-        let mut matrix = Self::new(self.rows, self.cols);
+            matrix.swap_rows(pivot_row, col);
+            inverse.swap_rows(pivot_row, col);
 
-        for i in 0..self.rows {
-            for j in 0..self.cols {
-                matrix.set(
-                    i,
-                    j,
-                    self.minor(j, i).determinant() * (-1.0_f64).powi((i + j) as i32),
-                );
+            let pivot = matrix.get(col, col);
+
+            // Avoiding 1/0
+            assert!((pivot != 0.0), "Matrix is not invertible");
+
+            for i in 0..self.cols {
+                matrix.set(col, i, matrix.get(col, i) / pivot);
+                inverse.set(col, i, inverse.get(col, i) / pivot);
+            }
+
+            for row in 0..self.rows {
+                if row != col {
+                    let factor = matrix.get(row, col);
+
+                    matrix.subtract_row(row, col, factor);
+                    inverse.subtract_row(row, col, factor);
+                }
             }
         }
 
-        matrix
+        inverse
     }
 
-    pub fn inverse(&self) -> Self {
-        let det = self.determinant();
+    /// The row with the largest value of a column, on or below the diagonal.
+    fn pivot_row(&self, col: usize) -> usize {
+        (col..self.rows)
+            .max_by(|&a, &b| self.get(a, col).abs().total_cmp(&self.get(b, col).abs()))
+            .unwrap_or(col)
+    }
 
-        // Avoiding 1/0
-        assert!((det != 0.0), "Matrix is not invertible");
+    fn swap_rows(&mut self, a: usize, b: usize) {
+        for col in 0..self.cols {
+            self.data.swap(a * self.cols + col, b * self.cols + col);
+        }
+    }
 
-        self.adjugate() * det.recip()
+    /// Subtracts a multiple of another row from a row.
+    fn subtract_row(&mut self, row: usize, other: usize, factor: f64) {
+        for col in 0..self.cols {
+            self.set(row, col, self.get(row, col) - factor * self.get(other, col));
+        }
     }
 }
 
-- 
2.43.0


From 4f7561516efdfda204c6a4d0932b0014fd92c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:39 +0000
Subject: [PATCH 21/21] fix: match_quality_multi_team does not overflow in big
 lobbies

---
 src/trueskill/matrix.rs | 16 ++++++++++++++++
 src/trueskill/mod.rs    |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/trueskill/matrix.rs b/src/trueskill/matrix.rs
index 209f85a..79874c8 100644
--- a/src/trueskill/matrix.rs
+++ b/src/trueskill/matrix.rs
@@ -103,6 +103,22 @@ impl Matrix {
         self.pivots().iter().product()
     }
 
+    /// The determinant of this matrix divided by the determinant of the other matrix.
+    pub fn determinant_ratio(&self, other: &Self) -> f64 {
+        let (a, b) = (self.determinant(), other.determinant());
+
+        if a.is_normal() && b.is_normal() {
+            return a / b;
+        }
+
+        // The determinants of large matrices can be too large or too small for an f64, even if their ratio is not.
+        self.pivots()
+            .iter()
+            .zip(other.pivots())
+            .map(|(a, b)| a / b)
+            .product()
+    }
+
     /// The diagonal after a Gaussian elimination, the determinant is the product of these values.
     fn pivots(&self) -> Vec<f64> {
         assert_eq!(self.rows, self.cols, "Matrix must be square");
diff --git a/src/trueskill/mod.rs b/src/trueskill/mod.rs
index 734b96d..4fdded9 100644
--- a/src/trueskill/mod.rs
+++ b/src/trueskill/mod.rs
@@ -1175,7 +1175,7 @@ pub fn match_quality_multi_team(
     let end = rotated_a_matrix * mean_matrix;
 
     let e_arg = (start * middle.inverse() * end * -0.5).determinant();
-    let s_arg = a_ta.determinant() / middle.determinant();
+    let s_arg = a_ta.determinant_ratio(&middle);
 
     Ok(e_arg.exp() * s_arg.sqrt())
 }
-- 
2.43.0

