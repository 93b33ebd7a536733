From 5089c88262adf2e1235c87d0730f95ca2b283211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 01/48] fix: small_vector::pop_back destroys the last element
 instead of the past-the-end one

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..b993b91 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From 56eb4d77dd4617e0b156cd023da4aac2b02c0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 02/48] fix: small_vector::insert puts the new elements at pos
 when fewer are inserted than follow it

---
 src/utility/small_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index b993b91..3f0d7d1 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                std::shift_right(first_ + offset, old_last, src_size);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
 
                 return first_ + offset;
             }
@@ -841,7 +842,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                std::shift_right(first_ + offset, old_last, src_size);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From 5409b7e710fbe0127eba5f39565d1bd3a1c8f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 03/48] fix: small_vector resize/insert read a value that is an
 element of the vector after moving or freeing it

---
 src/utility/small_vector.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 3f0d7d1..f2c8c4e 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -770,7 +770,11 @@ namespace gapp
         constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
-        constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
+        constexpr void resize(size_type count, const T& value)
+        {
+            const T new_value(value); // might be an element of this vector
+            resize_impl(count, new_value);
+        }
 
         constexpr iterator insert(const_iterator pos, const T& value) { return emplace(pos, value); }
         constexpr iterator insert(const_iterator pos, T&& value) { return emplace(pos, std::move(value)); }
@@ -799,6 +803,8 @@ namespace gapp
 
         constexpr iterator insert(const_iterator pos, size_type count, const T& value)
         {
+            const T new_value(value); // might be an element of this vector
+
             if (last_alloc_ - last_ >= count)
             {
                 const difference_type offset = std::distance(cbegin(), pos);
@@ -810,17 +816,17 @@ namespace gapp
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                detail::construct_range(alloc_, last_, new_middle, new_value);
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
                 std::shift_right(first_ + offset, old_last, src_size);
-                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, new_value);
 
                 return first_ + offset;
             }
 
-            return reallocate_insert(next_capacity(count), pos, count, value);
+            return reallocate_insert(next_capacity(count), pos, count, new_value);
         }
 
         template<std::forward_iterator Iter>
-- 
2.43.0


From 733f66015a277030dc4140e88f189d236cc6eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 04/48] fix: small_vector input range constructor leaks when
 constructing an element throws

---
 src/utility/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index f2c8c4e..be36677 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -411,7 +411,9 @@ namespace gapp
             last_alloc_(buffer_.end()),
             alloc_(allocator)
         {
+            detail::scope_exit guard{ [&] { reset(); } };
             while (src_first != src_last) emplace_back(*src_first++);
+            guard.release();
         }
 
         constexpr small_vector(std::initializer_list<T> init, const A& allocator = A()) :
-- 
2.43.0


From c0b846e90407b555584c11599b646377e8d14fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 05/48] fix: small_vector copies the bytes of ranges whose
 value type differs from the element type

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index be36677..f0fd68b 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -196,7 +196,7 @@ namespace gapp::detail
     {
         using R = std::iter_reference_t<Iter>;
 
-        if constexpr (std::contiguous_iterator<Iter> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
+        if constexpr (std::contiguous_iterator<Iter> && std::is_same_v<std::remove_cvref_t<R>, T> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
         {
             if (!std::is_constant_evaluated())
             {
-- 
2.43.0


From 3a39f52722e12c4cdc38a32aac7e11b1b759d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 06/48] fix: the default mutation rate is only deduced for the
 first run of a GA

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..aaa098a 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -349,7 +349,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From 25dbfa180f5e9b815ce5a7c16d471056b7132527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 07/48] fix: the generation end callback and metrics see
 generation 0 twice and then lag by one

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index aaa098a..17b8eab 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -529,12 +529,12 @@ namespace gapp
         });
 
         updatePopulation(std::move(children));
+        generation_cntr_++;
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From f667837ad51c928c01e1af02ef81e79a5d08ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 08/48] fix: dynamic fitness functions trip an assertion when a
 fitness cache is set

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 17b8eab..e20af8d 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From 9b5be7bef32b4922d6fcf74715983ec5b6ada473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 09/48] fix: the optimal solutions kept from the initial
 population contain duplicates

---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e20af8d..b23d41a 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -338,7 +338,6 @@ namespace gapp
         population_ = generatePopulation(population_size_, std::move(initial_population));
         detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
         fitness_matrix_ = detail::toFitnessMatrix(population_);
-        if (keep_all_optimal_sols_) solutions_ = detail::findParetoFront(population_);
 
         GAPP_ASSERT(isValidEvaluatedPopulation(population_));
         GAPP_ASSERT(fitnessMatrixIsSynced());
@@ -349,6 +348,8 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
+        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+
         if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
-- 
2.43.0


From 310c3cb0ee904511f7e83e7a57ca304045f91280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 10/48] fix: an exception in the calling thread's part of a
 parallel loop leaves the other parts running

---
 src/utility/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..fc141e4 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -65,7 +65,8 @@ namespace gapp::detail
                 if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From 33d92fa6524cfa914d82cfc5e4e13903feff51c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 11/48] fix: tournament selection asserts for populations
 smaller than the tournament size

---
 src/algorithm/soga_selection.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..c1e9667 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -62,7 +62,6 @@ namespace gapp::selection
 
     size_t Tournament::selectImpl(const GaInfo&, const FitnessMatrix& fmat) const
     {
-        GAPP_ASSERT(fmat.size() >= tourney_size_);
         GAPP_ASSERT(fmat.ncols() == 1);
 
         small_vector<size_t> candidate_indices(tourney_size_);
-- 
2.43.0


From 28a58b960e2f2f2eea72ba14b9fbcae963b60272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 12/48] fix: rank selection computes a NaN weight for a
 population of size 1

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index c1e9667..381c80f 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -98,7 +98,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From 57ecb48bcc228289777b0855339de317184acfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 13/48] fix: sigma scaling ignores its scale parameter

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 381c80f..cddf41d 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -116,7 +116,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From c5582eb6fa869e8f316bc0e7ab252b4c4f15d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 14/48] fix: integer uniform mutation loops forever on genes
 with a single allowed value

---
 src/mutation/integer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..ab17991 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,8 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            if (bounds[idx].lower() == bounds[idx].upper()) continue; // there is no other value
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From c73837f5d6e64dc033045d1a246a7e6fe4d68d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 15/48] fix: shift mutation asserts when the moved range is the
 whole chromosome

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..2e31c5c 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() <= mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From 527c6489b3818ba7cf149a76c00012f7183ec3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 16/48] fix: NSGA-II assigns crowding distances to the wrong
 candidates of the new population

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..410cffa 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const auto dists = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = dists[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From f2b4c46356b0a80781c0bc7ad52fa5262e786aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 17/48] fix: NSGA-III niching counts and picks candidates that
 were already selected

---
 src/algorithm/nsga3.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..66dcd0c 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -374,12 +374,14 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            const std::span<FrontElement> remaining = { partial_front.begin() + i, partial_front.end() };
+
+            const size_t associated_sol_count = std::count_if(remaining.begin(), remaining.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From 963657547efd780efa3463fdfdcbd4e0e589f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 18/48] fix: the difference of two stable iterators is signed

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..c8a2d6f 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return lhs.idx_ >= rhs.idx_ ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From 6974e431c7f4d7566f942baa010cf2c2c4f99caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 19/48] fix: signed overflow in the bounds assertion of
 iota_iterator

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index c8a2d6f..38116b3 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -541,7 +541,7 @@ namespace gapp::detail
         constexpr iota_iterator& operator+=(difference_type n)
         {
             GAPP_ASSERT(n > 0 ? (std::numeric_limits<T>::max() - n) >= value_ : true, "Can't increment iterator past its max value.");
-            GAPP_ASSERT(n < 0 ? size_t(-n) <= (value_ - std::numeric_limits<T>::min()) : true, "Can't decrement iterator past its min value.");
+            GAPP_ASSERT(n < 0 ? size_t(-n) <= (size_t(value_) - size_t(std::numeric_limits<T>::min())) : true, "Can't decrement iterator past its min value.");
 
             value_ += n;
             return *this;
-- 
2.43.0


From a071616b2a28a41c5b996baa889fa458f5ef88b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 20/48] fix: circular_buffer and fifo_cache ranges only need
 forward iterators

---
 src/utility/cache.hpp           | 2 +-
 src/utility/circular_buffer.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/cache.hpp b/src/utility/cache.hpp
index 272c7d4..7bce0af 100644
--- a/src/utility/cache.hpp
+++ b/src/utility/cache.hpp
@@ -137,7 +137,7 @@ namespace gapp::detail
 
             const size_type range_len = std::distance(first, last);
             const size_type insert_count = std::min(capacity(), range_len);
-            first = std::prev(last, insert_count);
+            first = std::next(first, range_len - insert_count);
 
             for (; first != last; ++first)
             {
diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..0942c33 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -60,8 +60,9 @@ namespace gapp::detail
         {
             buffer_ = detail::allocate<T>(alloc_, capacity_).data;
             detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, capacity_); } };
-            const size_type size = std::min<size_type>(capacity, std::distance(first, last));
-            detail::construct_range(alloc_, buffer_, buffer_ + size, std::prev(last, size));
+            const size_type length = std::distance(first, last);
+            const size_type size = std::min<size_type>(capacity, length);
+            detail::construct_range(alloc_, buffer_, buffer_ + size, std::next(first, length - size));
             size_ = size;
             guard.release();
         }
-- 
2.43.0


From 7aa4bf7ca8a3fc68786fc2a48ec95bc51ebd9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 21/48] fix: circular_buffer::push_front(const T&) terminated
 when copying throws

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 0942c33..d6bd8f2 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -203,7 +203,7 @@ namespace gapp::detail
         }
 
         constexpr void push_front(const value_type& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(value);
-- 
2.43.0


From 44103cf6e6cbae75dc3496bbb7f41e94552d9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 22/48] fix: circular_buffer::set_capacity freed the live
 buffer when copying throws

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index d6bd8f2..4f3c3fe 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -279,7 +279,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
-- 
2.43.0


From c256eec6b66a57ed32139d2c4ade8c87263cf8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 23/48] fix: circular_buffer::reset left a dangling buffer when
 allocating throws

---
 src/utility/circular_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 4f3c3fe..da87e55 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -300,8 +300,9 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
+            pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
             if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
-            buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
+            buffer_ = new_buffer;
             capacity_ = new_capacity;
         }
 
-- 
2.43.0


From 291e6e972cae3b7ae54d7ea0f3300a8db134608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 24/48] fix: dynamic_bitset::resize left stale bits when
 growing by whole blocks

---
 src/utility/dynamic_bitset.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..5c418d0 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -121,10 +121,12 @@ namespace gapp::detail
         {
             blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
 
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size() != 0)
             {
-                blocks_.back() &= partial_block_mask();
-                blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
+                block_type& last_block = blocks_[full_block_count()];
+
+                last_block &= partial_block_mask();
+                last_block |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
             size_ = new_size;
-- 
2.43.0


From 0d198d949127ed24efc8a4afc2b74e2569d710d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 25/48] fix: dynamic_bitset accessed the last block of empty
 bitsets

---
 src/utility/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index 5c418d0..9910366 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -247,7 +247,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return partial_block_size() ? (blocks_.back() & partial_block_mask()) : zeros<block_type>;
         }
     };
 
-- 
2.43.0


From eae43ef9df390473ba89ac555ab80c5fc84dd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 26/48] fix: floatIsLessAssumeNotGreater disagreed with
 floatIsLess for negative numbers

---
 src/utility/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..5fa30f0 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,7 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From 246c79585992771ee630d07d7ceae4a96f9034ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 27/48] fix: ConeTree used a dangling node reference when the
 nodes were reallocated

---
 src/utility/cone_tree.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..a751db4 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -159,11 +159,11 @@ namespace gapp::detail
                 Node left_child{ .first = node.first, .last = middle_idx };
                 Node right_child{ .first = middle_idx, .last = node.last };
 
-                nodes_.push_back(left_child);
-                nodes_.push_back(right_child);
+                node.left = nodes_.size();
+                node.right = nodes_.size() + 1;
 
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
+                nodes_.push_back(left_child); // may invalidate node
+                nodes_.push_back(right_child);
             }
         }
     }
-- 
2.43.0


From 746fe73cfba407eb9ad3a334325a153344e87f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 28/48] fix: randomReal is not in [0, 1) for types other than
 double

---
 src/utility/rng.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..bfa02a3 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -339,7 +339,10 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        constexpr int random_bits = std::min(std::numeric_limits<RealType>::digits, std::numeric_limits<std::uint64_t>::digits);
+        constexpr RealType scale = RealType(0.5) / (std::uint64_t(1) << (random_bits - 1));
+
+        return (rng::prng() >> (std::numeric_limits<std::uint64_t>::digits - random_bits)) * scale;
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 6036f545d4b8cea9c8d99a3d70e4eae267d46fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 29/48] fix: randomReal can return the upper bound or overflow,
 sampleCdf can pick zero probabilities

---
 src/utility/rng.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index bfa02a3..6bf2b53 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -350,7 +350,9 @@ namespace gapp::rng
     {
         GAPP_ASSERT(lbound <= ubound);
 
-        return lbound + (ubound - lbound) * rng::randomReal();
+        const RealType value = std::lerp(lbound, ubound, rng::randomReal<RealType>());
+
+        return (value < ubound) ? value : std::nextafter(ubound, lbound); // the result might be rounded up to ubound
     }
 
     template<std::floating_point RealType>
@@ -532,7 +534,7 @@ namespace gapp::rng
         GAPP_ASSERT(!cdf.empty());
         GAPP_ASSERT(0.0 <= cdf.front());
 
-        const RealType threshold = rng::randomReal<RealType>(0.0, cdf.back()); // use cdf.back() in case it's not exactly 1.0
+        const RealType threshold = cdf.back() - rng::randomReal<RealType>(0.0, cdf.back()); // use cdf.back() in case it's not exactly 1.0
 
         return std::distance(cdf.begin(), detail::lower_bound(cdf.begin(), cdf.end(), threshold));
     }
-- 
2.43.0


From 4da18a950a6e226810b77aa0381ebbd46a0cfeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 30/48] fix: sampleUnique returns duplicates for large ranges

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 6bf2b53..b3956c2 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -472,7 +472,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From 6525b7aad37c46b3dd452462f35678647a079003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 31/48] fix: missing return statements in the stream operators
 of uniform_bool_distribution

---
 src/utility/distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/distribution.hpp b/src/utility/distribution.hpp
index 8d1982e..cba5fea 100644
--- a/src/utility/distribution.hpp
+++ b/src/utility/distribution.hpp
@@ -58,13 +58,13 @@ namespace gapp::detail
         template<typename CharT, typename Traits>
         friend std::basic_ostream<CharT, Traits>& operator<<(std::basic_ostream<CharT, Traits>& os, const uniform_bool_distribution& dist)
         {
-            os << dist.bit_pool_;
+            return os << dist.bit_pool_;
         }
 
         template<typename CharT, typename Traits>
         friend std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>& is, uniform_bool_distribution& dist)
         {
-            is >> dist.bit_pool_;
+            return is >> dist.bit_pool_;
         }
 
     private:
-- 
2.43.0


From 73e853a9b72b53e6a5fbec0d86998744cf03086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:55 +0000
Subject: [PATCH 32/48] fix: undefined conversion of large seeds in QuasiRandom

---
 src/utility/qrng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/qrng.hpp b/src/utility/qrng.hpp
index 97ad738..80c9b9a 100644
--- a/src/utility/qrng.hpp
+++ b/src/utility/qrng.hpp
@@ -80,7 +80,7 @@ namespace gapp::rng
         for (size_type i = 0; i < point_.size(); i++)
         {
             point_[i] += alpha_[i];
-            point_[i] -= size_type(point_[i]);
+            point_[i] -= std::floor(point_[i]);
         }
 
         return point_;
-- 
2.43.0


From 962294f4de75ea03e0789c3c3a9acf3b1e2e1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 33/48] fix: rcu readers can access reclaimed objects because
 of a missing store-load barrier

---
 src/utility/rcu.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..ce68935 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -22,7 +22,7 @@ namespace gapp::detail
         static void read_lock() noexcept
         {
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            std::atomic_thread_fence(std::memory_order_seq_cst); // the reads of the critical section can't be reordered before the store
         }
 
         static void read_unlock() noexcept
@@ -32,6 +32,7 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
+            std::atomic_thread_fence(std::memory_order_seq_cst); // pairs with the fence in read_lock
             uint64_t current = writer_epoch.load(std::memory_order_acquire);
             uint64_t target  = current + 1;
             writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
-- 
2.43.0


From d2d580151a074a70362d26aa775ef34bd303c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:31 +0000
Subject: [PATCH 34/48] fix: leaving a nested rcu critical section ends the
 outer ones

---
 src/utility/rcu.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index ce68935..f5739cd 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -21,12 +21,16 @@ namespace gapp::detail
     public:
         static void read_lock() noexcept
         {
+            if (reader.depth++ != 0) return; // the epoch of the outermost critical section has to be kept
+
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
             std::atomic_thread_fence(std::memory_order_seq_cst); // the reads of the critical section can't be reordered before the store
         }
 
         static void read_unlock() noexcept
         {
+            if (--reader.depth != 0) return;
+
             reader.epoch.store(NOT_READING, std::memory_order_release);
         }
 
@@ -61,6 +65,7 @@ namespace gapp::detail
             }
 
             std::atomic<uint64_t> epoch = NOT_READING;
+            std::size_t depth = 0;
         };
 
         struct tls_reader_list
-- 
2.43.0


From b977250512fdf01a88e19c961bbeca2009a206af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 35/48] fix: OR stop conditions nested in other conditions skip
 the evaluation of their right side

---
 src/stop_condition/composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..52cc6f4 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,9 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated, so avoid short circuits with logical ops
+            // (the GA might not be stopped if this is a part of another composite stop condition).
+            return std::invoke(left_, ga) + std::invoke(right_, ga);
         }
 
         Left left_;
-- 
2.43.0


From c2d566c7a5a2161d3f501179f68ec9cd87ddbbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 36/48] fix: the FitnessValue stop condition stops at solutions
 that are worse than the threshold in some objectives

---
 src/stop_condition/stop_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..9bab72f 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,8 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(), fitness_threshold_.end(),
+            [](double fitness, double threshold) noexcept { return !math::floatIsLess(fitness, threshold); });
         });
     }
 
-- 
2.43.0


From 188367626c119799c35ea22c7d6fcdc7f67d61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 37/48] fix: AutoHypervolume corrects the earlier hypervolumes
 wrongly for more than 2 objectives

---
 src/metrics/distribution_metrics.cpp | 21 +++++++++------------
 src/metrics/distribution_metrics.hpp |  3 ++-
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..bbb84fa 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,7 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        fronts_.clear();
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -61,25 +60,23 @@ namespace gapp::metrics
     {
         const auto& fitness_matrix = ga.fitness_matrix();
 
-        FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
-
-        FitnessVector prev_worst_point = worst_point_;
+        const FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
+        const FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
 
         if (worst_point_ != prev_worst_point)
         {
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(fronts_[i], worst_point_);
             }
         }
 
-        data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+        FitnessMatrix front;
+        for (size_t idx : detail::findParetoFront(fitness_matrix)) { front.append_row(fitness_matrix[idx]); }
+
+        data_.push_back(detail::hypervolume(front, worst_point_));
+        fronts_.push_back(std::move(front));
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..5e412ad 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -6,6 +6,7 @@
 #include "monitor.hpp"
 #include "../core/candidate.hpp"
 #include <span>
+#include <vector>
 
 namespace gapp::metrics
 {
@@ -79,7 +80,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fronts_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From f8965b00b8b252d5cf1d073514121ad7d657650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 38/48] fix: runs with a very high maximum number of
 generations fail when metrics are tracked

---
 src/metrics/distribution_metrics.cpp | 6 +-----
 src/metrics/fitness_metrics.hpp      | 3 +--
 src/metrics/misc_metrics.cpp         | 3 +--
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index bbb84fa..5bbf6a4 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -10,10 +10,9 @@
 
 namespace gapp::metrics
 {
-    void NadirPoint::initialize(const GaInfo& ga)
+    void NadirPoint::initialize(const GaInfo&)
     {
         data_.clear();
-        data_.reserve(ga.max_gen(), ga.num_objectives());
     }
 
     void NadirPoint::update(const GaInfo& ga)
@@ -34,7 +33,6 @@ namespace gapp::metrics
         GAPP_ASSERT(ref_point_.size() == ga.num_objectives());
 
         data_.clear();
-        data_.reserve(ga.max_gen());
     }
 
     void Hypervolume::update(const GaInfo& ga)
@@ -49,8 +47,6 @@ namespace gapp::metrics
     void AutoHypervolume::initialize(const GaInfo& ga)
     {
         data_.clear();
-        data_.reserve(ga.max_gen());
-
         fronts_.clear();
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
diff --git a/src/metrics/fitness_metrics.hpp b/src/metrics/fitness_metrics.hpp
index 41cfca5..6b82584 100644
--- a/src/metrics/fitness_metrics.hpp
+++ b/src/metrics/fitness_metrics.hpp
@@ -17,10 +17,9 @@ namespace gapp::metrics
     class FitnessMonitor : public Monitor<Derived, FitnessMatrix>
     {
     private:
-        void initialize(const GaInfo& ga) override
+        void initialize(const GaInfo&) override
         {
             this->data_.clear();
-            this->data_.reserve(ga.max_gen(), ga.num_objectives());
         }
     };
 
diff --git a/src/metrics/misc_metrics.cpp b/src/metrics/misc_metrics.cpp
index f3c6145..2a7adb3 100644
--- a/src/metrics/misc_metrics.cpp
+++ b/src/metrics/misc_metrics.cpp
@@ -8,10 +8,9 @@
 
 namespace gapp::metrics
 {
-    void FitnessEvaluations::initialize(const GaInfo& ga)
+    void FitnessEvaluations::initialize(const GaInfo&)
     {
         data_.clear();
-        data_.reserve(ga.max_gen());
         sum_ = 0;
     }
 
-- 
2.43.0


From 813f54912119be7cf7354f0991e7372b023f7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 39/48] fix: composite stop conditions can't be parts of other
 composite stop conditions

---
 src/stop_condition/composite.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 52cc6f4..d4da1fc 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -23,8 +23,8 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -49,8 +49,8 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -75,7 +75,7 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            base_.initialize(ga);
+            static_cast<StopCondition&>(base_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
-- 
2.43.0


From fa2fd27db334b5cae1fa0dc4e5cad11caa487971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 40/48] fix: the negation of a negated stop condition is the
 negated condition itself

---
 src/stop_condition/composite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index d4da1fc..13ace47 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -103,7 +103,7 @@ namespace gapp::stopping
 
     constexpr auto operator!(std::derived_from<StopCondition> auto base) noexcept
     {
-        return dtl::NOT{ std::move(base) };
+        return dtl::NOT<decltype(base)>{ std::move(base) };
     }
 
 } // namespace gapp::stopping
-- 
2.43.0


From 8b5b53da5d3972030de50db685a7b84345ec15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 41/48] fix: mutations that use other mutations kept a stale
 fitness

The unmutated candidate was kept in a thread local variable while the
user-overridable mutate() function was running. When mutate() applied another
mutation operator, or ran another GA on the same thread, the variable was
overwritten, and the modified candidate could be considered unchanged and kept
its old fitness.
---
 src/mutation/mutation_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/mutation_base.impl.hpp b/src/mutation/mutation_base.impl.hpp
index 398e0f6..38b961a 100644
--- a/src/mutation/mutation_base.impl.hpp
+++ b/src/mutation/mutation_base.impl.hpp
@@ -26,7 +26,7 @@ namespace gapp::mutation
             /* If the candidate is already evaluated (happens when the crossover didn't change the candidate),
                its current fitness vector is valid, and we can save a fitness function call when the mutation
                doesn't change the chromosome. */
-            thread_local Candidate<T> old_candidate; old_candidate = candidate;
+            const Candidate<T> old_candidate = candidate; // must not be shared: mutate() may apply other mutations on this thread
 
             mutate(ga, candidate, candidate.chromosome);
             candidate.is_evaluated = (candidate == old_candidate);
-- 
2.43.0


From 046d7da2be9d2899212aea19cb88c4dc87a6ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 42/48] fix: computing the hypervolume of many points within
 the tolerances of each other never finishes

---
 src/metrics/pop_stats.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/metrics/pop_stats.cpp b/src/metrics/pop_stats.cpp
index 47b86c5..92137c7 100644
--- a/src/metrics/pop_stats.cpp
+++ b/src/metrics/pop_stats.cpp
@@ -130,7 +130,15 @@ namespace gapp::detail
 
         for (size_t optimal_idx : optimal_indices)
         {
-            if (front.empty() || fmat[optimal_idx] != front.back()) front.append_row(fmat[optimal_idx]);
+            const auto point = fmat[optimal_idx];
+
+            /* The points which are covered by another point don't contribute to the hypervolume. The fronts may contain such points,
+             * as the points within the tolerances of each other are all optimal, but keeping these would make the algorithm exponential. */
+            const bool covered = std::any_of(front.begin(), front.end(), [&](const auto& other) noexcept
+            {
+                return std::equal(point.begin(), point.end(), other.begin(), std::less_equal{});
+            });
+            if (!covered) front.append_row(point);
         }
 
         return front;
-- 
2.43.0


From b59fa0864723fda1cf3f3a645c6b3fde561cb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 43/48] fix: the selection probabilities are NaN when all of
 the selection weights are subnormal

---
 src/algorithm/soga_selection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index cddf41d..73a7499 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -32,7 +32,10 @@ namespace gapp::selection
         const double idiv = std::isfinite(1.0 / wsum) ? (1.0 / wsum) : 1.0;
         const double corr = std::isfinite(1.0 / wsum) ? 0.0 : (1.0 / weights.size());
 
-        std::transform_inclusive_scan(weights.begin(), weights.end(), cdf.begin(), std::plus{}, detail::multiply_add(idiv / wmax, corr));
+        std::transform_inclusive_scan(weights.begin(), weights.end(), cdf.begin(), std::plus{}, [&](double weight) noexcept
+        {
+            return weight / wmax * idiv + corr; // idiv / wmax could overflow
+        });
 
         return cdf;
     }
-- 
2.43.0


From 0054d41a638de4a95c570f90a6f946475a81c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 44/48] fix: the default algorithm isn't deduced by the
 constructors that should use the default algorithm

---
 src/core/ga_base.impl.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index b23d41a..b7c5ae7 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
@@ -83,7 +82,7 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
+           std::unique_ptr<algorithm::Algorithm>(),
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From 7869e702c8b9e35970ea96ceb44a0ea86b0bb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 45/48] fix: ideal and nadir points of ZDT3, ZDT6 and DTLZ7
 aren't those of their pareto fronts

---
 src/problems/many_objective.cpp  | 2 +-
 src/problems/multi_objective.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/problems/many_objective.cpp b/src/problems/many_objective.cpp
index 674f3f4..763cf44 100644
--- a/src/problems/many_objective.cpp
+++ b/src/problems/many_objective.cpp
@@ -324,7 +324,7 @@ namespace gapp::problems
 
         ideal_point_ = FitnessVector(num_obj, 0.0);
         ideal_point_.back() = -0.307004 * num_obj - 1.692996;
-        nadir_point_ = FitnessVector(num_obj, -1.0);
+        nadir_point_ = FitnessVector(num_obj, -0.8594009);
         nadir_point_.back() = -2.0 * num_obj;
     }
 
diff --git a/src/problems/multi_objective.cpp b/src/problems/multi_objective.cpp
index 13be268..5817d0d 100644
--- a/src/problems/multi_objective.cpp
+++ b/src/problems/multi_objective.cpp
@@ -106,8 +106,8 @@ namespace gapp::problems
         optimum_ = Chromosome<RealGene>(num_vars, 0.0);
         optimal_value_ = { 0.0, -1.0 };
 
-        ideal_point_ = {  0.0,   0.8 };
-        nadir_point_ = { -0.85, -1.0 };
+        ideal_point_ = {  0.0,         0.7733691 };
+        nadir_point_ = { -0.8518329, -1.0 };
     }
 
     auto ZDT3::invoke(const Chromosome<RealGene>& vars) const -> FitnessVector
@@ -196,8 +196,8 @@ namespace gapp::problems
         optimum_ = Chromosome<RealGene>(num_vars, 0.0);
         optimal_value_ = { -1.0, 0.0 };
 
-        ideal_point_ = {  0.0,  0.0 };
-        nadir_point_ = { -1.0, -0.92 };
+        ideal_point_ = { -0.2807753,  0.0 };
+        nadir_point_ = { -1.0, -0.9211653 };
     }
 
     auto ZDT6::invoke(const Chromosome<RealGene>& vars) const -> FitnessVector
-- 
2.43.0


From 4b8b9b84dbd390d028b76846a16a00fcf6fcce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 46/48] fix: NSGA-III picks only candidates associated with the
 selected reference line

---
 src/algorithm/nsga3.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index 66dcd0c..bbc6073 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -281,10 +281,16 @@ namespace gapp::algorithm
 
     FrontElement& NSGA3::Impl::findClosestAssociated(std::span<FrontElement> pareto_fronts, size_t ref) const noexcept
     {
-        return *detail::min_element(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+        /* The distances may not be finite, so the unassociated candidates can't be excluded based on them. */
+        auto closest = std::find_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol) { return refIndexOf(sol) == ref; });
+        GAPP_ASSERT(closest != pareto_fronts.end());
+
+        for (auto it = std::next(closest); it != pareto_fronts.end(); ++it)
         {
-            return (refIndexOf(sol) == ref) ? refDistOf(sol) : math::inf<double>;
-        });
+            if (refIndexOf(*it) == ref && refDistOf(*it) < refDistOf(*closest)) closest = it;
+        }
+
+        return *closest;
     }
 
     void NSGA3::Impl::incrementNicheCount(std::vector<size_t>& refs, size_t ref)
-- 
2.43.0


From 9b0792e304afd13225cce3e1187be52cd7310a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 47/48] fix: parallel loops use as many threads as
 execution_threads() says

---
 src/utility/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index fc141e4..102b0ae 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -43,7 +43,7 @@ namespace gapp::detail
 
             const size_t iterations  = std::distance(first, last);
             const size_t block_count = iterations / block_size + bool(iterations % block_size);
-            const size_t task_count  = detail::min(workers_.size() + workers_.empty(), iterations, block_count);
+            const size_t task_count  = detail::min(thread_count(), iterations, block_count);
             const size_t step_size   = iterations / task_count;
             const size_t remainder   = iterations % task_count;
 
-- 
2.43.0


From 691c02ad656d3e1c0f947eaeb3cceee14275c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 48/48] fix: non-dominated sorting leaves solutions dominated
 within the tolerances in better fronts

---
 src/algorithm/nd_sort.cpp |  9 +-----
 src/core/population.cpp   | 61 ++++++++++++++++++++++++++++-----------
 src/core/population.hpp   |  3 ++
 3 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/algorithm/nd_sort.cpp b/src/algorithm/nd_sort.cpp
index 3f41192..a017467 100644
--- a/src/algorithm/nd_sort.cpp
+++ b/src/algorithm/nd_sort.cpp
@@ -328,14 +328,7 @@ namespace gapp::algorithm::dtl
         std::vector<FrontElement> pareto_fronts;
         pareto_fronts.reserve(std::distance(first, last));
 
-        const auto indices = detail::argsort(first, last, [](const auto& lhs, const auto& rhs) noexcept
-        {
-            for (size_t i = 0; i < lhs.size(); i++)
-            {
-                if (lhs[i] != rhs[i]) return lhs[i] > rhs[i]; // descending
-            }
-            return false;
-        });
+        const auto indices = detail::lexicographicArgsort(first, last);
 
         for (const size_t idx : indices)
         {
diff --git a/src/core/population.cpp b/src/core/population.cpp
index 9f84a92..ac757de 100644
--- a/src/core/population.cpp
+++ b/src/core/population.cpp
@@ -19,6 +19,48 @@ namespace gapp::detail
         return fitness_vector;
     }
 
+    small_vector<size_t> lexicographicArgsort(FitnessMatrix::const_iterator first, FitnessMatrix::const_iterator last)
+    {
+        if (first == last) return {};
+
+        const size_t popsize = last - first;
+        const size_t num_obj = first->size();
+
+        /* The approximate comparisons aren't transitive, so the values are mapped to levels first, with a new level
+           starting at every value that isn't approximately equal to the previous one along the given axis. */
+        detail::Matrix<size_t> levels(popsize, num_obj);
+        FitnessVector fvec(popsize);
+
+        for (size_t obj = 0; obj < num_obj; obj++)
+        {
+            std::transform(first, last, fvec.begin(), detail::element_at(obj));
+            const auto ascending = detail::argsort(fvec.begin(), fvec.end());
+
+            for (size_t i = 1; i < popsize; i++)
+            {
+                const bool next_level = !math::floatIsEqual(fvec[ascending[i - 1]], fvec[ascending[i]]);
+                levels(ascending[i], obj) = levels(ascending[i - 1], obj) + next_level;
+            }
+        }
+
+        auto indices = detail::index_vector(popsize);
+
+        std::sort(indices.begin(), indices.end(), [&](size_t lhs, size_t rhs) noexcept
+        {
+            for (size_t i = 0; i < num_obj; i++)
+            {
+                if (levels(lhs, i) != levels(rhs, i)) return levels(lhs, i) > levels(rhs, i);
+            }
+            for (size_t i = 0; i < num_obj; i++)
+            {
+                if (first[lhs][i] != first[rhs][i]) return first[lhs][i] > first[rhs][i];
+            }
+            return false;
+        });
+
+        return indices;
+    }
+
     small_vector<size_t> findParetoFront(const FitnessMatrix& fmat)
     {
         if (fmat.empty()) return {};
@@ -44,14 +86,7 @@ namespace gapp::detail
 
     small_vector<size_t> findParetoFrontSort(const FitnessMatrix& fmat)
     {
-        const auto indices = detail::argsort(fmat.begin(), fmat.end(), [](const auto& lhs, const auto& rhs) noexcept
-        {
-            for (size_t i = 0; i < lhs.size(); i++)
-            {
-                if (lhs[i] != rhs[i]) return lhs[i] > rhs[i];
-            }
-            return false;
-        });
+        const auto indices = detail::lexicographicArgsort(fmat.begin(), fmat.end());
 
         small_vector<size_t> optimal_indices;
 
@@ -160,15 +195,7 @@ namespace gapp::detail
         /* See: Kung et al. "On finding the maxima of a set of vectors." Journal of the ACM (JACM) 22.4 (1975): 469-476. */
         /* Doesn't work for d = 1 (single-objective optimization). */
 
-        auto indices = detail::argsort(fmat.begin(), fmat.end(),
-        [](const auto& lhs, const auto& rhs) noexcept
-        {
-            for (size_t i = 0; i < lhs.size(); i++)
-            {
-                if (lhs[i] != rhs[i]) return lhs[i] > rhs[i];
-            }
-            return false;
-        });
+        const auto indices = detail::lexicographicArgsort(fmat.begin(), fmat.end());
 
         return findParetoFrontKungImpl(fmat, indices.cbegin(), indices.cend());
     }
diff --git a/src/core/population.hpp b/src/core/population.hpp
index 46436b5..1d87c01 100644
--- a/src/core/population.hpp
+++ b/src/core/population.hpp
@@ -28,6 +28,9 @@ namespace gapp::detail
     /* Return the fitness vector of a fitness matrix along the first objective axis. */
     FitnessVector toFitnessVector(FitnessMatrix::const_iterator first, FitnessMatrix::const_iterator last);
 
+    /* Sort the rows of the fitness matrix lexicographically in descending order, treating approximately equal values as equal. */
+    small_vector<size_t> lexicographicArgsort(FitnessMatrix::const_iterator first, FitnessMatrix::const_iterator last);
+
     /* Find the pareto-optimal solutions in a population. Assumes fitness maximization, duplicates are not eliminated. */
     template<typename T>
     Candidates<T> findParetoFront(const Population<T>& pop);
-- 
2.43.0

