From c4904c4481400c91bee10927277c7e548f07671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 01/18] fix: tail free sampling of exactly two tokens returned
 an internal error

With two tokens there are no second derivatives, so the sampler ran into its
"missing next deriv item" error. Nothing can be cut in that case: return the
logits unchanged, as llama.cpp does.
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..2fe90c0 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() < 3 {
             return Ok(logits);
         }
 
-- 
2.43.0


From 0663ad5531cd08e58323b335a2a99caf6dcb3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 02/18] fix: locally typical sampling failed when any token had
 zero probability

0 * ln(0) made the entropy NaN, so every chain that forbids a token with -inf
(or whose probabilities underflow) got an internal error.
---
 src/samplers/locally_typical.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..47643c2 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -69,6 +69,8 @@ impl Sampler for SampleLocallyTypical {
 
         let ent = logits
             .iter()
+            // The limit of `p * ln(p)` is 0, but computing it for 0 yields NaN.
+            .filter(|l| l.prob != 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From e2f0a531f776491f2e83dc95a34ca08660d4bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 03/18] fix: mirostat 2 kept one token when no token exceeded
 mu

If every token was within the surprise limit the search found nothing and the
size defaulted to 0, i.e. one token after max(1). Keep all of them instead.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From aaaeb0233d148e4937ccd621f81780950b650398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 04/18] fix: mirostat 1 computed k from a garbled formula

The paper (and llama.cpp) use k = ((e * 2^mu) / (1 - N^-e))^(1/s). The code had
mu^2 in place of 2^mu and lost the parentheses around the denominator.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..b37a2e8 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -143,7 +143,7 @@ impl Sampler for SampleMirostat1 {
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
         let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+            ((epsilon_hat * 2f32.powf(mu)) / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From a638ec03c8a338db5933a08484437ba2084added Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 05/18] fix: option named like a prefix of another option was
 unreachable

Mirostat 1's option "m" could neither be set nor read, since it is also a
prefix of "mu" and so was always reported as ambiguous.
---
 src/configure/metadata.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..efedcc3 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,14 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+        // An exact match wins, even if the key is also a prefix of other options.
+        if let Some((idx, (omd, acc))) = self
+            .iter()
+            .enumerate()
+            .find(|(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From 2f086dac18505df1a5320afecfdd64f441ad6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 06/18] fix: sample_prepend was not forwarded to boxed and
 shared samplers

The wrapper impls used the trait's no-op default, so SamplerChain::sample_prepend
never reached any sampler in the chain.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From 3376cb0fb33f680c8306a836f86378e22c6f2109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 07/18] fix: negative temperature left reversed logits flagged
 as sorted

Greedy, softmax and the filters then took the least likely token for the most
likely one.
---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..6e6b622 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From e19ae16dd4b19eca5b3cb929cdc9438e1655d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 08/18] fix: sequence repetition merged one token more than
 max_merge

According to the documentation max_merge 0 or 1 deactivates merging and 2 lets
the wildcard match two tokens; the window was one too large (and overflowed for
usize::MAX).
---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..9f290b8 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From 1d0c99b3dc8c06ae270d8bb14627c61b52aa4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 09/18] fix: sequence repetition overflowed for huge min_length

---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 9f290b8..3003748 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From f9fb5973296b956ed9cb248a8ed819638478d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 10/18] fix: top-k ingestion allocated k entries up front

A large k (for example usize::MAX for "keep everything") panicked or aborted
with an allocation failure even for tiny inputs.
---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 0396812..0607164 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -164,13 +164,16 @@ impl Logits {
             return Ok(Self::default());
         }
 
+        let it = it.into_iter();
+        let capacity = k.min(it.size_hint().0);
+
         Ok(Logits {
             sorted: true,
             has_softmax: false,
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From da9a358dfc6f1b982038bd9cee63a56b2c150068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 11/18] fix: sorting logits with a NaN among more than 20
 panicked

The comparison was inconsistent in that case and the standard library's sort
panics on such orders. Report the documented error instead.
---
 src/types.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 0607164..25728e9 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -233,16 +233,17 @@ impl Logits {
             return Ok(self);
         }
 
-        let mut sort_err = Ok(());
+        // Sorting with a comparison that isn't a total order may panic.
+        if self.iter().any(|l| l.logit.is_nan()) {
+            Err(LogitsError::InternalError(String::from(
+                "Impossible: logit comparison failed?",
+            )))?
+        }
         self.logits.as_mut_slice().sort_by(|a, b| {
-            b.logit.partial_cmp(&a.logit).unwrap_or_else(|| {
-                sort_err = Err(LogitsError::InternalError(String::from(
-                    "Impossible: logit comparison failed?",
-                )));
-                std::cmp::Ordering::Less
-            })
+            b.logit
+                .partial_cmp(&a.logit)
+                .unwrap_or(std::cmp::Ordering::Equal)
         });
-        sort_err?;
         self.set_sorted(true);
         Ok(self)
     }
-- 
2.43.0


From ae0dd8ee106b278ec6a62fb0c57d14f98804d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 12/18] fix: top-a sampler reported its name as top-p

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 12b1afc4c4d99b61a5045a6333f40c2aa48e98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 13/18] fix: mirostat 1 estimated the Zipf exponent without the
 logarithm

The paper (and llama.cpp) use b_i = ln(p_i / p_{i+1}); without the logarithm s is
not an exponent estimate and even equal probabilities gave s > 0.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index b37a2e8..efac6dd 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
-- 
2.43.0


From c54fc196adc9d6bc814e6a1f6823ed573b50014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 14/18] fix: chain reported an earlier sampler's token when a
 later one failed

---
 src/chain.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..672221d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,6 +47,8 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
+                // Don't report an earlier sampler's token if this one fails.
+                self.token = None;
                 let new_logits = sampler.sample(res, logits)?;
                 self.token = sampler.sampled_token_id();
                 Ok(new_logits)
-- 
2.43.0


From 8b6c03157f2f1e0a4c75df94f209bfe24b3b1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 15/18] fix: a chain could return another thread's token from a
 shared last sampler

---
 src/chain.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 672221d..00b1cea 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -58,6 +58,22 @@ impl Sampler for SamplerChain {
     fn sampled_token_id(&self) -> Option<TID> {
         self.token
     }
+
+    // Reading the token of the last sampler in a separate call would let another user
+    // of a shared sampler run in between.
+    fn sample_token(
+        &mut self,
+        res: &mut dyn HasSamplerResources,
+        logits: &mut Logits,
+    ) -> Result<Option<TID>, SamplerError> {
+        self.token = None;
+        if let Some((last, rest)) = self.samplers.split_last_mut() {
+            rest.iter_mut()
+                .try_for_each(|sampler| sampler.sample(res, logits).map(|_| ()))?;
+            self.token = last.sample_token(res, logits)?;
+        }
+        Ok(self.token)
+    }
 }
 
 impl<Rhs> AddAssign<Rhs> for SamplerChain
-- 
2.43.0


From fd33e58c9e56d0ff937bb73246171f153774c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 16/18] fix: softmax claimed a collection to be sorted without
 sorting it

A collection whose probabilities are current but which was put into another order and
flagged as unsorted (Logits derefs to its list, set_sorted is public) was declared sorted by
ensure_softmax, so that the filters cut the wrong entries.
---
 src/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 25728e9..078408d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -250,12 +250,11 @@ impl Logits {
 
     /// Ensure the softmax function has been applied to the [Logits].
     pub fn ensure_softmax(&mut self) -> Result<&mut Self> {
+        self.ensure_sorted()?;
         if self.is_empty() || self.has_softmax {
             self.has_softmax = true;
-            self.sorted = true;
             return Ok(self);
         }
-        self.ensure_sorted()?;
         let max_l = self[0].logit;
         let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
             l.prob = (l.logit - max_l).exp();
-- 
2.43.0


From 4a39cb395bff3fe6e08f9f60d146cfb013a9aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 17/18] fix: random distribution reported a token when the
 random source failed after the draw

---
 src/samplers/rand_distrib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/samplers/rand_distrib.rs b/src/samplers/rand_distrib.rs
index be6b0ef..3e545b0 100644
--- a/src/samplers/rand_distrib.rs
+++ b/src/samplers/rand_distrib.rs
@@ -43,9 +43,9 @@ impl Sampler for SampleRandDistrib {
         })?;
         let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
             .map_err(SamplerError::RandWeightedError)?;
-        res.with_rng_mut(&mut |r| {
-            self.token_id = Some(logits[dist.sample(r)].token_id);
-        })?;
+        let mut idx = None;
+        res.with_rng_mut(&mut |r| idx = Some(dist.sample(r)))?;
+        self.token_id = idx.map(|idx| logits[idx].token_id);
         Ok(logits)
     }
 
-- 
2.43.0


From 0b8a8a661b56ba358cb50f671807c7316189a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 18/18] fix: repetition sampler penalized the tokens although
 the token history failed

---
 src/samplers/repetition.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/samplers/repetition.rs b/src/samplers/repetition.rs
index fc078d3..386e91c 100644
--- a/src/samplers/repetition.rs
+++ b/src/samplers/repetition.rs
@@ -66,27 +66,29 @@ impl Sampler for SampleRepetition {
             return Ok(logits);
         }
 
-        let mut changed = 0;
+        let mut history = vec![];
         res.with_last_tokens(&mut |tokens| {
             let tokens = if last_n > tokens.len() {
                 tokens
             } else {
                 &tokens[tokens.len() - last_n..]
             };
-
-            logits
-                .iter_mut()
-                .filter(|l| tokens.contains(&l.token_id))
-                .for_each(|l| {
-                    l.logit = if l.logit <= 0f32 {
-                        l.logit * repetition_penalty
-                    } else {
-                        l.logit / repetition_penalty
-                    };
-                    changed += 1;
-                });
+            history.extend_from_slice(tokens);
         })?;
 
+        let mut changed = 0;
+        logits
+            .iter_mut()
+            .filter(|l| history.contains(&l.token_id))
+            .for_each(|l| {
+                l.logit = if l.logit <= 0f32 {
+                    l.logit * repetition_penalty
+                } else {
+                    l.logit / repetition_penalty
+                };
+                changed += 1;
+            });
+
         if changed > 0 {
             logits.set_sorted(false);
             logits.set_softmax(false);
-- 
2.43.0

