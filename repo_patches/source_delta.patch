From de48dd21cbf446db89e0c01d3c83b6491068a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 01/19] fix: Cycles32 reports an age of almost a full epoch at
 tick 0

A timestamp taken at tick 0 is recorded as 1 (0 means unset), but AsDuration()
subtracted it from the unclamped tick 0, which wraps to 2^32-1 ticks.
---
 tcmalloc/internal/clock.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/clock.h b/tcmalloc/internal/clock.h
index bf3dffb..d815490 100644
--- a/tcmalloc/internal/clock.h
+++ b/tcmalloc/internal/clock.h
@@ -79,7 +79,10 @@ class Cycles32 {
   absl::Duration AsDuration(Clock::Snapshot snap) const {
     const uint32_t last = val_.load(std::memory_order_relaxed);
     if (last == 0) return absl::InfiniteDuration();
-    const uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    uint32_t now_32 = static_cast<uint32_t>(snap.now >> kShift);
+    // As in Update().  Otherwise a timestamp taken at tick 0, recorded as 1,
+    // seems to lie in the future, that is, almost a full epoch in the past.
+    if (now_32 == 0) now_32 = 1;
     // Unsigned 32-bit modular subtraction across wraparound is safe.
     const uint32_t elapsed_ticks = now_32 - last;
     const double elapsed_cycles =
-- 
2.43.0


From bba50c85ad912d601beb229a4b1c38fe83092f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 02/19] fix: a concurrent decay could hide a stack trace still
 in the filter

DecayingStackTraceFilter::Add() published the new ring entry before counting
it, so that another thread could decay (decrement) it first. Contains() then
reported a stack trace absent although it had been added by others.
---
 tcmalloc/internal/stacktrace_filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/stacktrace_filter.h b/tcmalloc/internal/stacktrace_filter.h
index 9667640..afb9fbc 100644
--- a/tcmalloc/internal/stacktrace_filter.h
+++ b/tcmalloc/internal/stacktrace_filter.h
@@ -116,10 +116,12 @@ class DecayingStackTraceFilter : public StackTraceFilter<kSize, kHashNum> {
   void Add(absl::Span<void* const> stack_trace, int val) {
     const size_t stack_hash = this->GetFirstHash(stack_trace);
     if (val >= 0) {
-      Decay(stack_hash);
       // Because 0-valued entries denote unused entries, add 1 to be decayed if
-      // this is a non-zero hash (very likely).
+      // this is a non-zero hash (very likely). This must precede Decay(), which
+      // publishes the entry: a concurrent decay could otherwise remove it before
+      // it is counted, hiding other additions of the same stack trace.
       Base::Add(stack_hash, val + !!stack_hash);
+      Decay(stack_hash);
     } else {
       // Removal.
       Base::Add(stack_hash, val);
-- 
2.43.0


From cad4f794c56a65315b143120ca66fc55a6bc5893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 03/19] fix: nallocx predicts a page for an over-aligned empty
 request

---
 tcmalloc/tcmalloc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..c337743 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -388,7 +388,9 @@ static ABSL_ATTRIBUTE_NOINLINE size_t nallocx_slow(size_t size, int flags) {
     TC_ASSERT_NE(size_class, 0);
     return tc_globals.sizemap().class_to_size(size_class);
   } else {
-    return BytesToLengthCeil(size).in_bytes();
+    // An over-aligned allocation occupies at least one page, even if the
+    // requested size is 0.
+    return BytesToLengthCeil(std::max<size_t>(size, 1)).in_bytes();
   }
 }
 
-- 
2.43.0


From 98bd58977ae7d2468c00495251880208d99560ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 04/19] fix: a skipped-subrelease decision hid the next peak of
 its epoch

The largest peak confirmed in an epoch was kept when the next epoch was opened
by a decision instead of a peak, so that decisions up to that peak were never
confirmed by a later one.
---
 tcmalloc/huge_page_subrelease.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/huge_page_subrelease.h b/tcmalloc/huge_page_subrelease.h
index 36e7a36..4b67cfd 100644
--- a/tcmalloc/huge_page_subrelease.h
+++ b/tcmalloc/huge_page_subrelease.h
@@ -84,7 +84,10 @@ class SkippedSubreleaseCorrectnessTracker {
     SkippedSubreleaseUpdate update;
     update.decision = SkippedSubreleaseDecision(skipped_pages);
     update.num_pages_at_decision = peak_pages;
-    tracker_.Report(update);
+    if (tracker_.Report(update)) {
+      // A new epoch: no peak has been confirmed in it yet.
+      last_confirmed_peak_ = Length(0);
+    }
   }
 
   void ReportUpdatedPeak(Length current_peak) {
-- 
2.43.0


From 1c818d3efb24631f1f2f6810f7237c2b316c4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 05/19] fix: decisions of the current epoch stay pending when a
 peak is reported

Recomputing the pending decisions dropped those of the current epoch.  With no
other decision pending, no later peak was considered, and they were never
confirmed.
---
 tcmalloc/huge_page_subrelease.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/huge_page_subrelease.h b/tcmalloc/huge_page_subrelease.h
index 4b67cfd..87d80f2 100644
--- a/tcmalloc/huge_page_subrelease.h
+++ b/tcmalloc/huge_page_subrelease.h
@@ -110,8 +110,9 @@ class SkippedSubreleaseCorrectnessTracker {
     tracker_.IterBackwards(
         [&](size_t offset, size_t epoch_delta,
             const SkippedSubreleaseEntry& e) {
-          // Do not clear any decisions in the current epoch.
+          // Do not clear any decisions in the current epoch, they stay pending.
           if (offset == 0) {
+            pending_skipped_ += e.decisions;
             return;
           }
 
-- 
2.43.0


From 0aa69ffb761a3265e97a90e4bfc3447d3cb09891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 06/19] fix: time series stand still when an epoch is a power
 of two of ticks

2^div_precision_ / d was 2^64 for a power of two d and did not fit in
epoch_ticks_m_, so that every time belonged to epoch 0.
---
 tcmalloc/internal/timeseries_tracker.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/timeseries_tracker.h b/tcmalloc/internal/timeseries_tracker.h
index fb30c11..b46d7b6 100644
--- a/tcmalloc/internal/timeseries_tracker.h
+++ b/tcmalloc/internal/timeseries_tracker.h
@@ -56,7 +56,9 @@ class TimeSeriesTracker {
     // See comment in GetCurrentEpoch().
     auto d = static_cast<uint64_t>(absl::ToDoubleSeconds(epoch_length_) *
                                    clock.freq());
-    div_precision_ = 63 + absl::bit_width(d);
+    // bit_width(d - 1) rounds log2(d) up, so that 2^div_precision_ / d fits in 64
+    // bits for powers of two as well.
+    div_precision_ = 63 + absl::bit_width(d - 1);
     epoch_ticks_m_ =
         static_cast<uint64_t>(
             (static_cast<absl::uint128>(1) << div_precision_) / d) +
-- 
2.43.0


From cf27c064f869b64ac795d4a54e99f0ae5c438c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 07/19] fix: sum insert_object_misses over the shards in
 ShardedTransferCacheManager::GetStats

The counter is printed per size class but was always reported as zero.
---
 tcmalloc/transfer_cache.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcmalloc/transfer_cache.h b/tcmalloc/transfer_cache.h
index 57d8421..1cd8c3c 100644
--- a/tcmalloc/transfer_cache.h
+++ b/tcmalloc/transfer_cache.h
@@ -276,6 +276,7 @@ class ShardedTransferCacheManagerBase {
           shard.transfer_caches[size_class].GetStats();
       stats.insert_hits += shard_stats.insert_hits;
       stats.insert_misses += shard_stats.insert_misses;
+      stats.insert_object_misses += shard_stats.insert_object_misses;
       stats.remove_hits += shard_stats.remove_hits;
       stats.remove_object_hits += shard_stats.remove_object_hits;
       stats.remove_misses += shard_stats.remove_misses;
-- 
2.43.0


From 16c8c42628b00998407a165933237fbb380fda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 08/19] fix: GetAllocatedSpans reported freed spans

Only the first page of a span is cleared when it is freed, so the other
pages still refer to the deleted descriptor; a span is reported at its
first page only.
---
 tcmalloc/pagemap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index b895839..3a8f800 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -429,8 +429,10 @@ class PageMap {
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
-      // Free'd up Span that's not yet removed from PageMap.
-      if (page_id < s->first_page() || s->last_page() < page_id) continue;
+      // Free'd up Span that's not yet removed from PageMap. Only the first page
+      // of a Span is cleared when it is freed, so the others may still refer to
+      // it.
+      if (page_id != s->first_page()) continue;
       CompactSizeClass size_class = sizeclass(page_id);
       TC_ASSERT_EQ(s->first_page().index(), i);
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
-- 
2.43.0


From c59dbe37687515ecc6f3337ccd069035f1e50e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 09/19] fix: completed-span lifetime counts lost concurrent
 updates

The histogram is updated after the central free list's lock has been
released, so two threads returning spans at the same time could lose an
increment of LossyAdd.
---
 tcmalloc/central_freelist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/central_freelist.h b/tcmalloc/central_freelist.h
index e778338..a539244 100644
--- a/tcmalloc/central_freelist.h
+++ b/tcmalloc/central_freelist.h
@@ -685,7 +685,7 @@ void CentralFreeList<Forwarder>::DeallocateSpans(absl::Span<Span*> spans) {
           std::max<double>(now - static_cast<double>(span->AllocTime()), 0.0);
       const absl::Duration lifetime =
           absl::Milliseconds(elapsed * 1000 / frequency);
-      completed_spans_[LifetimeBucketNum(lifetime)].LossyAdd(1);
+      completed_spans_[LifetimeBucketNum(lifetime)].Add(1);
     }
   }
   return forwarder_.DeallocateSpans(objects_per_span_, spans);
-- 
2.43.0


From c608a325c543dda9bf3772164268346fde3aa055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 10/19] fix: measure again whether limit enforcement brought
 memory below the limit

ShrinkToUsageLimit trusted the number of pages reported as released, which
may include pages that were unmapped earlier, so memory could stay above the
limit although more could have been released.  The hard limit's success
counter also missed the hits that releasing for the soft limit resolved.
---
 tcmalloc/page_allocator.cc | 46 +++++++++++++++++++++++---------------
 tcmalloc/page_allocator.h  |  7 ++++++
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/tcmalloc/page_allocator.cc b/tcmalloc/page_allocator.cc
index a608ddc..3a45f44 100644
--- a/tcmalloc/page_allocator.cc
+++ b/tcmalloc/page_allocator.cc
@@ -107,31 +107,19 @@ void PageAllocator::ShrinkToUsageLimit(Length n) {
   }
 
   ++limit_hits_[kSoft];
-  if (limits_[kHard] < backed) ++limit_hits_[kHard];
+  const bool hit_hard_limit = limits_[kHard] < backed;
+  if (hit_hard_limit) ++limit_hits_[kHard];
 
-  const size_t overage = backed - limits_[kSoft];
-  const Length pages = BytesToLengthCeil(overage);
-  if (ShrinkHardBy(pages, kSoft)) {
+  if (ShrinkToLimit(kSoft)) {
     ++successful_shrinks_after_limit_hit_[kSoft];
+    if (hit_hard_limit) ++successful_shrinks_after_limit_hit_[kHard];
     return;
   }
 
   // We're still not below limit.
   if (limits_[kHard] < std::numeric_limits<size_t>::max()) {
-    // Recompute how many pages we still need to release.
-    BackingStats s = stats();
-    const size_t backed =
-        s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
-    if (backed <= limits_[kHard]) {
-      // We're already fine in terms of hard limit.
-      return;
-    }
-    const size_t overage = backed - limits_[kHard];
-    const Length pages = BytesToLengthCeil(overage);
-    if (ShrinkHardBy(pages, kHard)) {
-      ++successful_shrinks_after_limit_hit_[kHard];
-      TC_ASSERT_EQ(successful_shrinks_after_limit_hit_[kHard],
-                   limit_hits_[kHard]);
+    if (ShrinkToLimit(kHard)) {
+      if (hit_hard_limit) ++successful_shrinks_after_limit_hit_[kHard];
       return;
     }
     const size_t hard_limit = limits_[kHard];
@@ -153,6 +141,28 @@ void PageAllocator::ShrinkToUsageLimit(Length n) {
          limits_[kSoft]);
 }
 
+Length PageAllocator::OverLimit(LimitKind limit_kind) const {
+  const BackingStats s = stats();
+  const size_t backed =
+      s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
+  if (backed <= limits_[limit_kind]) return Length(0);
+  return BytesToLengthCeil(backed - limits_[limit_kind]);
+}
+
+bool PageAllocator::ShrinkToLimit(LimitKind limit_kind) {
+  // The amount reported as released may include pages that were unmapped before
+  // we measured our usage (HugePageFiller claims credit for pages that it
+  // unmapped since its last release), so measure again instead of relying on
+  // it.
+  for (Length over = OverLimit(limit_kind); over > Length(0);
+       over = OverLimit(limit_kind)) {
+    if (!ShrinkHardBy(over, limit_kind)) {
+      return OverLimit(limit_kind) == Length(0);
+    }
+  }
+  return true;
+}
+
 bool PageAllocator::ShrinkHardBy(Length pages, LimitKind limit_kind) {
   const PageReleaseReason release_reason =
       limit_kind == kHard ? PageReleaseReason::kHardLimitExceeded
diff --git a/tcmalloc/page_allocator.h b/tcmalloc/page_allocator.h
index 7bba5b5..b7d420d 100644
--- a/tcmalloc/page_allocator.h
+++ b/tcmalloc/page_allocator.h
@@ -195,6 +195,13 @@ class PageAllocator {
                                    MemoryTag tag);
   static void InvokeReleaseHookSlow(Length num_pages, Length released,
                                     PageReleaseReason reason);
+  // Returns how many pages the memory backed exceeds the limit by.
+  Length OverLimit(LimitKind limit_kind) const
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock);
+  // Releases memory until it no longer exceeds the limit.  Returns false if
+  // that was not possible.
+  bool ShrinkToLimit(LimitKind limit_kind)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock);
   bool ShrinkHardBy(Length page, LimitKind limit_kind)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock);
 
-- 
2.43.0


From 64d863cc2a7be1a40f0394afe378045c4e227861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 11/19] fix: keep the rest of the carried-over bytes in the
 constant-rate releaser

When a request was partly covered by bytes released earlier, the remaining
carried-over amount was lost or counted twice.
---
 tcmalloc/static_vars.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tcmalloc/static_vars.h b/tcmalloc/static_vars.h
index 1f799c9..3225fcd 100644
--- a/tcmalloc/static_vars.h
+++ b/tcmalloc/static_vars.h
@@ -316,6 +316,7 @@ class ConstantRatePageAllocatorReleaser {
       num_bytes = 0;
     } else {
       num_bytes -= extra_bytes_released_;
+      extra_bytes_released_ = 0;
     }
 
     const Length num_pages = [&] {
@@ -334,16 +335,16 @@ class ConstantRatePageAllocatorReleaser {
     const size_t bytes_released = tc_globals.page_allocator()
                                       .ReleaseAtLeastNPages(num_pages, reason)
                                       .in_bytes();
-    if (bytes_released > num_bytes) {
-      extra_bytes_released_ = bytes_released - num_bytes;
+    if (bytes_released >= num_bytes) {
+      // Any excess counts towards later calls, in addition to what remains from
+      // prior calls.
+      extra_bytes_released_ += bytes_released - num_bytes;
 
       return num_bytes;
     }
 
     // The PageHeap wasn't able to release num_bytes.  Don't try to compensate
     // with a big release next time.
-    extra_bytes_released_ = 0;
-
     return bytes_released;
   }
 
-- 
2.43.0


From 11097502c2d2f1bd3c92902c2bb46db0b9ce4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 12/19] fix: releasing slab metadata aborted while a thread was
 growing a drained CPU's cache

TryDrainingCaches() required that a drained CPU's available capacity equals its
whole capacity when it unpopulates it. Threads in Grow() take capacity out of
available before they add it to a size class and give back what they could not
use, without holding the lock, so some of it may be missing for a moment.
Requires release_drained_slab_metadata.
---
 tcmalloc/cpu_cache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/cpu_cache.h b/tcmalloc/cpu_cache.h
index e13c4dc..7873aa4 100644
--- a/tcmalloc/cpu_cache.h
+++ b/tcmalloc/cpu_cache.h
@@ -1471,7 +1471,10 @@ inline void CpuCache<Forwarder>::TryDrainingCaches()
     freelist_.ReleaseSlabMetadataForDrainedCpus(
         [this](int cpu) { return HasPopulated(cpu); },
         [this](int cpu) {
-          TC_CHECK_EQ(
+          // All capacity was returned by draining the CPU, except that threads
+          // in Grow() may have subtracted some of it from available that they
+          // could not use and are about to add back.
+          TC_CHECK_LE(
               resize_[cpu].available, resize_[cpu].capacity,
               "CPU %u was not actually drained, or available is out of sync",
               cpu);
-- 
2.43.0


From 49c318df6d03fc88df2573d2db672dc05c4564e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 13/19] fix: a sampling interval below zero left weights near
 2^64 behind

---
 tcmalloc/sampler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/sampler.cc b/tcmalloc/sampler.cc
index e471131..cee5c63 100644
--- a/tcmalloc/sampler.cc
+++ b/tcmalloc/sampler.cc
@@ -72,7 +72,9 @@ ssize_t Sampler::PickNextSamplingPoint() {
     // again. However, we have to support the flag changing at
     // runtime, so pick something reasonably large (to keep overhead
     // low) but small enough that we'll eventually start to sample
-    // again.
+    // again.  A negative interval only means that sampling is off: it must not
+    // enter the weight of the first sample after sampling is turned on again.
+    sample_interval_ = 0;
     return 128 << 20;
   }
   if (ABSL_PREDICT_FALSE(sample_interval_ == 1)) {
-- 
2.43.0


From 81022c2b2f6399d02a469b9e4d797cb99d95f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 14/19] fix: a double free of a guarded block was looked up
 through its deleted span

---
 tcmalloc/guarded_page_allocator.h | 7 +++++++
 tcmalloc/tcmalloc.cc              | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/tcmalloc/guarded_page_allocator.h b/tcmalloc/guarded_page_allocator.h
index 7b4be61..8a4e7b3 100644
--- a/tcmalloc/guarded_page_allocator.h
+++ b/tcmalloc/guarded_page_allocator.h
@@ -185,6 +185,13 @@ class GuardedPageAllocator {
     return metadata.allocation_start == addr;
   }
 
+  // Returns true if the allocation ptr points into has been deallocated, that
+  // is, if deallocating it (again) is a double free.
+  [[nodiscard]] bool IsDeallocated(const void* ptr) const {
+    const size_t slot = GetNearestSlot(absl::bit_cast<uintptr_t>(ptr));
+    return data_[slot].dealloc_count.load(std::memory_order_relaxed) != 0;
+  }
+
   // Allows Allocate() to start returning allocations.
   void AllowAllocations() ABSL_LOCKS_EXCLUDED(guarded_page_lock_) {
     AllocationGuardSpinLockHolder h(guarded_page_lock_);
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index c337743..0731619 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -691,6 +691,12 @@ ABSL_ATTRIBUTE_NOINLINE static void InvokeHooksAndFreePages(
 
   auto& gwp_asan = tc_globals.guardedpage_allocator();
   const bool is_gwp_asan_ptr = gwp_asan.PointerIsMine(ptr);
+  if (ABSL_PREDICT_FALSE(is_gwp_asan_ptr && gwp_asan.IsDeallocated(ptr))) {
+    // The pagemap still refers to the Span deleted by the first deallocation,
+    // which may describe another allocation by now.  Deallocate reports the
+    // double free.
+    gwp_asan.Deallocate(ptr);
+  }
   // Check for alignment before invoking hooks.
   //
   // We need to do special checks for GWP-ASan guarded allocations, since we may
-- 
2.43.0


From 88780b8aba926418627077141354dfd23ababbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 15/19] fix: realloc kept a whole-page block in place under a
 small size

---
 tcmalloc/tcmalloc.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 0731619..72ee6c5 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1456,6 +1456,7 @@ using tcmalloc::tcmalloc_internal::GetPageSize;
 using tcmalloc::tcmalloc_internal::GetSizeAndSampled;
 using tcmalloc::tcmalloc_internal::kMaxSize;
 using tcmalloc::tcmalloc_internal::MultiplyOverflow;
+using tcmalloc::tcmalloc_internal::PageIdContainingTagged;
 
 // depends on TCMALLOC_HAVE_STRUCT_MALLINFO, so needs to come after that.
 #ifndef TCMALLOC_INTERNAL_METHODS_ONLY
@@ -1607,7 +1608,13 @@ static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
     } else {
       actual_new_size = BytesToLengthCeil(new_size).in_bytes();
     }
-    changes_correct_size = actual_new_size != old_size;
+    // A block aligned to more than a page is made of whole pages, even if a
+    // size class has its size.  It cannot stay in place when `new_size` is
+    // small: `free_sized` would return it to that size class.
+    const bool old_is_small =
+        tc_globals.pagemap().sizeclass(PageIdContainingTagged(old_ptr)) != 0;
+    changes_correct_size =
+        actual_new_size != old_size || is_small != old_is_small;
   }
 
   if (changes_correct_size || was_sampled || will_sample ||
-- 
2.43.0


From fbfa66eac650fbb46acf1e822e85353abdbc33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 16/19] fix: pages of returned small-object spans kept
 referring to the deleted span

---
 tcmalloc/pagemap.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/pagemap.cc b/tcmalloc/pagemap.cc
index 2a51520..c983f07 100644
--- a/tcmalloc/pagemap.cc
+++ b/tcmalloc/pagemap.cc
@@ -45,8 +45,12 @@ void PageMap::UnregisterSizeClass(Span* span) {
   const PageId first = span->first_page();
   const PageId last = span->last_page();
   TC_ASSERT_EQ(GetDescriptor(first), span);
-  for (PageId p = first; p <= last; ++p) {
-    map_.clear_sizeclass(p.index());
+  // Only the entry of the first page is replaced when the span is deleted.  The
+  // others must not keep referring to a span that no longer exists: looking up
+  // an address inside of a later block would find it.
+  map_.set_with_sizeclass(first.index(), span, 0);
+  for (PageId p = first + Length(1); p <= last; ++p) {
+    map_.set_with_sizeclass(p.index(), nullptr, 0);
   }
 }
 
-- 
2.43.0


From c5b95588f8e63cc9eee147c1677ccbd9dc33534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 17/19] fix: growing the CPU caches' slabs passed bytes as
 pages to ShrinkToUsageLimit

The estimate of application bytes at a new peak of backed memory was inflated by the page size.
---
 tcmalloc/cpu_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/cpu_cache.h b/tcmalloc/cpu_cache.h
index 7873aa4..72f84b6 100644
--- a/tcmalloc/cpu_cache.h
+++ b/tcmalloc/cpu_cache.h
@@ -141,7 +141,7 @@ class StaticForwarder {
     // present a consistent view of memory usage.
     PageHeapSpinLockHolder l;
     if (allocated > 0) {
-      state_.page_allocator().ShrinkToUsageLimit(Length(allocated));
+      state_.page_allocator().ShrinkToUsageLimit(BytesToLengthCeil(allocated));
     }
     state_.arena().UpdateAllocatedAndNonresident(allocated, nonresident);
   }
-- 
2.43.0


From d4e86a2c2bfd057a23e473344916da00e9c2356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 18/19] fix: tcmalloc.pageheap_unmapped_bytes counted
 non-resident arena bytes when queried by name

The property map and the documentation count the page heap only; free plus unmapped bytes now equal the slack again.
---
 tcmalloc/global_stats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index d7e4e63..c026d0e 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -1049,8 +1049,13 @@ bool GetNumericProperty(const char* name_data, size_t name_size,
     return true;
   }
 
-  if (name == "tcmalloc.pageheap_unmapped_bytes" ||
-      name == "tcmalloc.page_heap_unmapped") {
+  if (name == "tcmalloc.pageheap_unmapped_bytes") {
+    PageHeapSpinLockHolder l;
+    *value = tc_globals.page_allocator().stats().unmapped_bytes;
+    return true;
+  }
+
+  if (name == "tcmalloc.page_heap_unmapped") {
     PageHeapSpinLockHolder l;
     // Arena non-resident bytes aren't on the page heap, but they are unmapped.
     *value = tc_globals.page_allocator().stats().unmapped_bytes +
-- 
2.43.0


From efc9481a79fe5d4c56dc8234c794bbda7d498383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 19/19] fix: generic.peak_memory_usage of GetProperties
 reported the sampled application bytes

It reports the backed bytes at the peak, as the numeric property does.
---
 tcmalloc/tcmalloc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 72ee6c5..0c3be78 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -439,7 +439,7 @@ extern "C" void MallocExtension_Internal_GetProperties(
   (*result)["generic.bytes_in_use_by_app"].value = bytes_in_use_by_app;
   (*result)["generic.heap_size"].value = HeapSizeBytes(stats.pageheap);
   (*result)["generic.peak_memory_usage"].value =
-      static_cast<uint64_t>(stats.peak_stats.sampled_application_bytes);
+      static_cast<uint64_t>(stats.peak_stats.backed_bytes);
   (*result)["generic.realized_fragmentation"].value = static_cast<uint64_t>(
       100. * safe_div(stats.peak_stats.backed_bytes -
                           stats.peak_stats.sampled_application_bytes,
-- 
2.43.0

