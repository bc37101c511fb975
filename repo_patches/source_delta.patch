From 9e7899dd5dfc23c56c1f20ab3952ce1443a36d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 01/61] fix: forced stop could wait forever for a pool worker
 that had already left its loop

The consumer thread id was written by the worker without the pool mutex while stop(FORCE) reads it under the mutex, and
it was only cleared after the worker had released the mutex for the last time. A forced stop in that window delegated
draining the queue to a worker that would never look again and waited for it forever.
---
 src/threading/scheduler/Pool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 697fc64..b7a4f6d 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -285,7 +285,10 @@ namespace threading {
         }
 
         void Pool::run() {
-            consumer_thread_id = std::this_thread::get_id();
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                consumer_thread_id = std::this_thread::get_id();
+            }
             Pool::current_pool = this;
             try {
                 while (true) {
@@ -295,7 +298,6 @@ namespace threading {
             }
             catch (const ShutdownThreadException&) {
                 Pool::current_pool = nullptr;
-                consumer_thread_id = std::thread::id{};
                 return;
             }
         }
@@ -434,6 +436,9 @@ namespace threading {
                 });
             }
 
+            // This worker will not dequeue again, clear this while still holding the mutex so that a forced stop never waits
+            // for a worker which has already left the loop to discard the queues.
+            consumer_thread_id = std::thread::id{};
             condition.notify_all();
             throw ShutdownThreadException();
         }
-- 
2.43.0


From 3f207548dd436de75bc7d209332280abbf62464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 02/61] fix: tasks could be stranded behind a task that was
 waiting for its groups

A pool worker that dequeued a task whose groups were not available put it back and went to sleep without looking at the
tasks queued behind it. Nobody notifies the pool about those again, so they did not run until something unrelated was
submitted to the pool (and never if the blocked task was waiting for one of them).
---
 src/threading/scheduler/Pool.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index b7a4f6d..7766e07 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -400,28 +400,35 @@ namespace threading {
                     }
                 }
 
-                bool got = false;
+                std::vector<Task> blocked;
                 if (live) {
                     Task task;
-                    got = try_dequeue_task(task);
-                    if (got) {
-                        if (task.lock == nullptr || task.lock->lock()) {
-                            thread_idle[std::this_thread::get_id()] = nullptr;
-                            pool_idle                               = nullptr;
-                            return task;
+                    bool got = false;
+                    while (!got && try_dequeue_task(task)) {
+                        got = task.lock == nullptr || task.lock->lock();
+                        if (!got) {
+                            // The task was dequeued but its lock isn't acquirable. Set it aside and look for another task
+                            // that can run, as nobody will notify us again about the tasks queued behind this one.
+                            blocked.push_back(std::move(task));
                         }
-                        // The task was dequeued but its lock isn't acquirable. Re-enqueue and
-                        // wait for someone to notify us when the lock state changes.
-                        const std::size_t bucket = queue::priority_index(task.task->priority);
+                    }
+                    // Put the blocked tasks back so they are tried again when the lock state changes.
+                    for (auto& t : blocked) {
+                        const std::size_t bucket = queue::priority_index(t.task->priority);
                         pending_tasks.fetch_add(1, std::memory_order_release);
-                        buckets[bucket]->enqueue(std::move(task));
+                        buckets[bucket]->enqueue(std::move(t));
+                    }
+                    if (got) {
+                        thread_idle[std::this_thread::get_id()] = nullptr;
+                        pool_idle                               = nullptr;
+                        return task;
                     }
                 }
                 live = false;
 
                 // Only account for idle when we genuinely found nothing; threads whose locks
                 // fail are not idle, they are blocked waiting for the lock state to change.
-                if (!got) {
+                if (blocked.empty()) {
                     auto idle_task = get_idle_task();
                     if (idle_task.task != nullptr) {
                         return idle_task;
-- 
2.43.0


From 078bafca32efe39083ab4d059b477c3a48b3a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 03/61] fix: a task waiting for several groups could miss the
 notification that a group became available

The notified flag stayed set when the notified task failed to take the lock because a single group task had briefly taken
the token. When that token was returned the waiting task was then skipped and never ran.
---
 src/threading/scheduler/Group.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..c93e135 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -140,6 +140,8 @@ namespace threading {
                 free -= h->locked ? 0 : 1;
 
                 if (free < 0) {
+                    // Not our turn yet, this handle must be notified (again) once it is
+                    handle->notified = false;
                     return false;
                 }
                 if (h == handle) {
-- 
2.43.0


From 6d35c928528a1c6a82525f38d34071cc9f93e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 04/61] fix: a group could run more tasks at once than its
 concurrency allows

Parking a task on the lock-free path reserved its token before deciding who accounts for it. When a drain had already
started that task the reservation was undone through release_token(), which took the negative count for a freed slot and
started another waiter although nothing had finished. Taking a token on the slow path was also not atomic with respect
to the fast path. Count only free tokens, which are always taken by compare and exchange, and let everyone who makes a
token or a waiter available drain the waiters while there are tokens.
---
 docs/explanation/scheduler.md     |  10 +-
 src/threading/scheduler/Group.cpp | 244 ++++++++++--------------------
 src/threading/scheduler/Group.hpp |  34 ++---
 3 files changed, 94 insertions(+), 194 deletions(-)

diff --git a/docs/explanation/scheduler.md b/docs/explanation/scheduler.md
index 3d14a8e..5e16426 100644
--- a/docs/explanation/scheduler.md
+++ b/docs/explanation/scheduler.md
@@ -221,19 +221,17 @@ For these, `Group::try_submit()`:
 
 1. Tries to decrement `tokens` with a compare-exchange.
 1. On success, submits to the pool immediately with a `RunningLock` that calls `release_token()` on destruction.
-1. On failure, **parks** the task in priority-ordered waiter buckets via `park_publish()` / `park_reconcile()`.
+1. On failure, **parks** the task in priority-ordered waiter buckets via `park()`.
 
-The token counter can go **negative** when waiters reserve slots they have not yet consumed.
-This signed counter, combined with per-waiter **arbiter slots** (`atomic<bool>`), ensures no lost wakeups and exact accounting when multiple waiters race with draining threads.
-
-When a running task finishes, `release_token()` increments `tokens` and drains at most one parked waiter into the pool — keeping running count bounded by the group's concurrency.
+The token counter never goes negative: every running task holds exactly one token.
+Whoever makes a token or a waiter available (a finishing task, a parking submitter, a slow path task which is done) calls `drain_to_pool()` afterwards, which moves parked waiters into their pools while there are tokens for them, so no wakeup is lost.
 
 ### Multi-group slow path
 
 Tasks bound to multiple groups (`Sync<A>` and `Sync<B>`, etc.) use `CombinedLock`: each group gets a `GroupLock` backed by a mutex-protected sorted queue.
 `slow_pending` on each group prevents fast-path submitters from jumping ahead of older multi-group waiters.
 
-When a `GroupLock` is released, the group may drain a fast-path waiter even if slow-path waiters exist, if the pre-release token count indicates a committed fast waiter is owed a slot — avoiding deadlocks between fast and slow paths.
+Parked fast-path waiters are drained once no slow-path waiter is pending any more. They hold no token while they are parked, so they can't block the slow path.
 
 ### External waiters
 
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index c93e135..65bc490 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -27,6 +27,7 @@
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <utility>
 #include <vector>
 
@@ -61,15 +62,12 @@ namespace threading {
         Group::GroupLock::~GroupLock() {
             std::vector<std::shared_ptr<LockHandle>> to_notify;
             bool removed_from_queue = false;
-            bool was_locked         = false;
-            int prev_tokens         = 0;
 
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(group.mutex);
                 if (handle->locked) {
                     handle->locked = false;
-                    prev_tokens    = group.tokens.fetch_add(1, std::memory_order_acq_rel);
-                    was_locked     = true;
+                    group.tokens.fetch_add(1, std::memory_order_seq_cst);
                 }
 
                 auto it = std::find(group.queue.begin(), group.queue.end(), handle);
@@ -90,42 +88,15 @@ namespace threading {
             }
 
             if (removed_from_queue) {
-                group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
+                group.slow_pending.fetch_sub(1, std::memory_order_seq_cst);
             }
 
             for (const auto& h : to_notify) {
                 h->notify();
             }
 
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
-            if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
-
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-            }
+            // Fast path waiters give way to slow path waiters. If this was the last of those they can run now.
+            group.drain_to_pool();
         }
 
         bool Group::GroupLock::lock() {
@@ -135,22 +106,22 @@ namespace threading {
 
             const std::lock_guard<std::mutex> lock(group.mutex);
 
-            int free = group.tokens.load(std::memory_order_relaxed);
+            int ahead = 0;
             for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
-
-                if (free < 0) {
-                    // Not our turn yet, this handle must be notified (again) once it is
-                    handle->notified = false;
-                    return false;
-                }
                 if (h == handle) {
-                    handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
-                    return true;
+                    // Leave enough tokens for everyone ahead of us who is yet to lock. The fast path takes tokens without
+                    // holding the mutex, so the token has to be claimed by the same operation that checks there is one.
+                    if (group.try_take_token(ahead)) {
+                        handle->locked = true;
+                        return true;
+                    }
+                    break;
                 }
+                ahead += h->locked ? 0 : 1;
             }
 
+            // Not our turn yet, this handle must be notified (again) once it is
+            handle->notified = false;
             return false;
         }
 
@@ -168,97 +139,55 @@ namespace threading {
             }
         }
 
-        std::unique_ptr<Lock> Group::try_acquire_running_lock() {
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                return nullptr;
-            }
-            int expected = tokens.load(std::memory_order_acquire);
-            while (expected > 0) {
-                if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        // A multi-group waiter slipped in; restore the token and back off.
-                        release_token();
-                        return nullptr;
-                    }
-                    return make_running_lock();
+        bool Group::try_take_token(const int& leave) noexcept {
+            int available = tokens.load(std::memory_order_seq_cst);
+            while (available > leave) {
+                if (tokens.compare_exchange_weak(available, available - 1, std::memory_order_seq_cst)) {
+                    return true;
                 }
             }
-            return nullptr;
+            return false;
+        }
+
+        bool Group::try_take_fast_token() noexcept {
+            // Don't jump ahead of multi-group waiters or of tasks which are already parked
+            if (slow_pending.load(std::memory_order_seq_cst) > 0 || waiting.load(std::memory_order_seq_cst) > 0
+                || !try_take_token(0)) {
+                return false;
+            }
+            if (slow_pending.load(std::memory_order_seq_cst) > 0) {
+                // A multi-group waiter slipped in; restore the token and back off.
+                release_token();
+                return false;
+            }
+            return true;
+        }
+
+        std::unique_ptr<Lock> Group::try_acquire_running_lock() {
+            return try_take_fast_token() ? make_running_lock() : nullptr;
         }
 
         bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
-                    }
-                }
+            if (try_take_fast_token()) {
+                pool->submit({std::move(task), make_running_lock()}, clear_idle);
+                return true;
             }
 
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
+            park(std::move(task), pool, clear_idle);
             return false;
         }
 
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
+        void Group::park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept {
             const std::size_t bucket = queue::priority_index(task->priority);
             ExternalWaiterRegistration external_waiter;
             if (pool != nullptr) {
                 external_waiter = pool->register_external_waiter();
             }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
-        }
-
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
-            }
+            wait_buckets[bucket].enqueue(WaitEntry{std::move(task), pool, clear_idle, std::move(external_waiter)});
+            waiting.fetch_add(1, std::memory_order_seq_cst);
 
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
-            }
-
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-            }
+            // The token (or the slow path's priority) which made us park may have been given up before we were visible
+            drain_to_pool();
 
             // The destination pool's "pending idle" latch was set by register_external_waiter
             // above; that path also notifies one waiting worker so a pool that is parked on its
@@ -269,39 +198,13 @@ namespace threading {
         }
 
         void Group::release_token() noexcept {
-            const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
-
-            // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
-            // That waiter committed before any slow waiter and now owns the slot we just freed, so it
-            // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
-            if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
+            tokens.fetch_add(1, std::memory_order_seq_cst);
 
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
+            // Give any slow-path waiter first chance.
+            if (slow_pending.load(std::memory_order_seq_cst) > 0) {
                 notify_slow_path();
-                return;
-            }
-
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
             }
+            drain_to_pool();
         }
 
         void Group::notify_slow_path() noexcept {
@@ -322,23 +225,32 @@ namespace threading {
             }
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
-            WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
-                    Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
+        void Group::drain_to_pool() noexcept {
+            // Everyone who makes a token or a waiter available calls this afterwards. As all of these accesses are
+            // sequentially consistent, either they see the other's change here or the other sees theirs.
+            while (waiting.load(std::memory_order_seq_cst) > 0 && slow_pending.load(std::memory_order_seq_cst) == 0
+                   && try_take_token(0)) {
+                WaitEntry entry;
+                bool found = false;
+                if (slow_pending.load(std::memory_order_seq_cst) == 0) {
+                    for (std::size_t bucket = 0; !found && bucket < queue::PRIORITY_BUCKETS; ++bucket) {
+                        found = wait_buckets[bucket].try_dequeue(entry);
+                    }
+                }
+
+                if (found) {
+                    waiting.fetch_sub(1, std::memory_order_seq_cst);
+                    entry.pool->submit({std::move(entry.task), make_running_lock()}, entry.clear_idle, /*force=*/true);
+                }
+                else {
+                    // Someone else got to the waiter first or the slow path has priority, return the token we took.
+                    tokens.fetch_add(1, std::memory_order_seq_cst);
+                    if (slow_pending.load(std::memory_order_seq_cst) > 0) {
+                        notify_slow_path();
+                    }
+                    std::this_thread::yield();
                 }
             }
-            return {};
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
@@ -351,7 +263,7 @@ namespace threading {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
-            slow_pending.fetch_add(1, std::memory_order_acq_rel);
+            slow_pending.fetch_add(1, std::memory_order_seq_cst);
 
             const std::lock_guard<std::mutex> lock(mutex);
             queue.insert(std::lower_bound(queue.begin(), queue.end(), handle), handle);
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..be665b6 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -63,26 +63,10 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -255,17 +239,23 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
+            /// Take a token if more than `leave` of them are available
+            bool try_take_token(const int& leave) noexcept;
+            /// Take a token for a fast path task, unless others have to go first
+            bool try_take_fast_token() noexcept;
+            /// Park a task until a token is available for it
+            void park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept;
+            /// Return a token and hand it on to whoever is next
             void release_token() noexcept;
             void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+            /// Submit parked fast path tasks to their pools while there are tokens for them
+            void drain_to_pool() noexcept;
             std::unique_ptr<Lock> make_running_lock();
 
-            /// Available group tokens (signed when waiters are queued on the fast path)
+            /// Available group tokens, every running task and every locked slow path waiter holds one
             std::atomic<int> tokens;
+            /// Number of tasks which are parked in the wait queues
+            std::atomic<int> waiting{0};
             /// Number of unsatisfied slow-path waiters
             std::atomic<int> slow_pending{0};
             /// Lock-free wait queues keyed by priority
-- 
2.43.0


From 0999bfc4ec1e4496a7358657b3275fbc0d311e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:59 +0000
Subject: [PATCH 05/61] fix: a queue could skip the last items of a block that
 filled up while it was being read

try_dequeue read how many slots were published, found them all consumed, and
then found a successor block. When the last slots of the block and its
successor were added between the two reads, head moved past items nobody had
taken: they were lost (and leaked).
---
 src/threading/scheduler/queue/MPSCQueue.hpp | 5 ++++-
 src/threading/scheduler/queue/TaskQueue.hpp | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..e299fe1 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -171,7 +171,10 @@ namespace threading {
                                 return false;
                             }
                         }
-                        else {
+                        else if (published == BLOCK_SIZE) {
+                            // (When published < BLOCK_SIZE the block filled up after it was read, so it still holds
+                            // unread slots: start over rather than moving past them.)
+                            //
                             // We're the sole consumer so advancing head_block is a plain store. The old
                             // block goes to the graveyard so any producer that still holds a pointer to
                             // it (e.g. one mid-way through link_next_block) doesn't touch freed memory.
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..d6dac09 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -169,6 +169,11 @@ namespace threading {
                                         return false;
                                     }
                                 }
+                                else if (published < BLOCK_SIZE) {
+                                    // The block filled up after `published` was read (a successor is only linked
+                                    // once it is full), so it still holds slots this consumer has not looked at.
+                                    // Start over rather than moving head past them.
+                                }
                                 else if (head.compare_exchange_strong(block,
                                                                       next,
                                                                       std::memory_order_release,
-- 
2.43.0


From 2a09c39fe97dbae32c9c1595f3ae63b3254082f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 06/61] fix: two forced stops from single-thread pools waited
 for each other forever

A forced stop waited until the worker of a single-thread pool had discarded its
queue. When that worker was in a task which itself was force stopping the pool
of the first thread, neither could go on. The request does not have to be
waited for: the worker discards the queue before it takes another task.
---
 src/threading/scheduler/Pool.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 7766e07..b10a12b 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -111,7 +111,7 @@ namespace threading {
             // their destruction until after the mutex is released.
             std::vector<Task> drained;
             {
-                std::unique_lock<std::mutex> lock(mutex);
+                const std::lock_guard<std::mutex> lock(mutex);
 
                 live = true;
                 accept.store(descriptor->persistent, std::memory_order_release);
@@ -139,12 +139,9 @@ namespace threading {
                             mpsc_consumer_alive && std::this_thread::get_id() == consumer_thread_id;
 
                         if (mpsc_consumer_alive && !on_mpsc_consumer) {
+                            // Don't wait for it: the worker discards the queues before it takes another task, and it
+                            // may itself be in a task that is force stopping the pool of the calling thread.
                             discard_queues_requested.store(true, std::memory_order_release);
-                            condition.notify_all();
-                            condition.wait(lock, [this] {
-                                return !discard_queues_requested.load(std::memory_order_acquire);
-                            });
-                            pending_tasks.store(0, std::memory_order_relaxed);
                         }
                         else {
                             drain_queues(drained);
@@ -331,7 +328,6 @@ namespace threading {
                     drain_queues(discarded);
                     pending_tasks.store(0, std::memory_order_relaxed);
                     discard_queues_requested.store(false, std::memory_order_release);
-                    condition.notify_all();
                     lock.unlock();
                     discarded.clear();
                     lock.lock();
@@ -443,10 +439,9 @@ namespace threading {
                 });
             }
 
-            // This worker will not dequeue again, clear this while still holding the mutex so that a forced stop never waits
-            // for a worker which has already left the loop to discard the queues.
+            // This worker will not dequeue again, clear this while still holding the mutex so that a forced stop never leaves
+            // discarding the queues to a worker which has already left the loop.
             consumer_thread_id = std::thread::id{};
-            condition.notify_all();
             throw ShutdownThreadException();
         }
 
-- 
2.43.0


From 0921ad43b2eba7da383b48b72c85c21fef322cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:42 +0000
Subject: [PATCH 07/61] fix: emitting to a pool that was never used terminated
 the process during shutdown

Scheduler::submit is noexcept, but creating a pool throws once the scheduler is
shutting down. Such a task is now dropped like every other task submitted after
shutdown (inline tasks still run).
---
 src/threading/scheduler/Scheduler.cpp | 28 +++++++++++++++++++++++----
 src/threading/scheduler/Scheduler.hpp | 10 ++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 1419dfe..5e68315 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -205,13 +205,24 @@ namespace threading {
                 lock->add(get_group(desc)->lock(task_id, priority, [pool] {
                     const auto current_pool = Pool::current();
                     const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
-                    pool->notify(!current_pool_idle);
+                    if (pool != nullptr) {
+                        pool->notify(!current_pool_idle);
+                    }
                 }));
             }
 
             return lock;
         }
 
+        Pool* Scheduler::find_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc) {
+            try {
+                return get_pool(desc).get();
+            }
+            catch (const std::invalid_argument&) {
+                return nullptr;
+            }
+        }
+
         void Scheduler::submit(std::unique_ptr<ReactionTask>&& task) noexcept {
             // Ignore null tasks
             if (task == nullptr) {
@@ -238,12 +249,18 @@ namespace threading {
             if (task->parent) {
                 pool = task->parent->scheduler_data.load(std::memory_order_acquire);
                 if (pool == nullptr) {
-                    pool = get_pool(task->pool_descriptor).get();
+                    pool = find_pool(task->pool_descriptor);
                     task->parent->scheduler_data.store(pool, std::memory_order_release);
                 }
             }
             else {
-                pool = get_pool(task->pool_descriptor).get();
+                pool = find_pool(task->pool_descriptor);
+            }
+
+            // The pool was never used and can't be created any more as we are shutting down, so like any other task that is
+            // submitted to a pool after shutdown this one is dropped. Inline tasks do not need the pool to run.
+            if (pool == nullptr && !task->run_inline) {
+                return;
             }
 
             const auto current_pool = Pool::current();
@@ -260,6 +277,9 @@ namespace threading {
                     }
                 }
 
+                if (pool == nullptr) {
+                    return;
+                }
                 group->try_submit(std::move(task), pool, !current_pool_idle);
                 return;
             }
@@ -270,7 +290,7 @@ namespace threading {
             if (task->run_inline && (group_lock == nullptr || group_lock->lock())) {
                 task->run();
             }
-            else {
+            else if (pool != nullptr) {
                 pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
             }
         }
diff --git a/src/threading/scheduler/Scheduler.hpp b/src/threading/scheduler/Scheduler.hpp
index 3df15af..c7d66a5 100644
--- a/src/threading/scheduler/Scheduler.hpp
+++ b/src/threading/scheduler/Scheduler.hpp
@@ -124,6 +124,16 @@ namespace threading {
              */
             std::shared_ptr<Pool> get_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc);
 
+            /**
+             * Like get_pool, but returns nullptr if the pool does not exist and can't be created any more as the scheduler is
+             * shutting down.
+             *
+             * @param desc the descriptor for the pool to get
+             *
+             * @return a pointer to the pool which is valid as long as the scheduler, or nullptr
+             */
+            Pool* find_pool(const std::shared_ptr<const util::ThreadPoolDescriptor>& desc);
+
             /**
              * Gets a pointer to a specific group, or creates a new one if it does not exist.
              *
-- 
2.43.0


From 6cf7822ba0d4ff30f62c8b83dbcbe5a7c17c17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 08/61] fix: shutdown reactions could run more than once

Every call to shutdown emitted the shutdown event, so two requests (from two
threads, or one made by an inline shutdown reaction, which then recursed without
end) ran the shutdown reactions twice.
---
 src/PowerPlant.cpp | 12 ++++++++++--
 src/PowerPlant.hpp |  4 ++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/PowerPlant.cpp b/src/PowerPlant.cpp
index 790eb89..0bda99d 100644
--- a/src/PowerPlant.cpp
+++ b/src/PowerPlant.cpp
@@ -104,8 +104,16 @@ void PowerPlant::submit(std::unique_ptr<threading::ReactionTask>&& task) noexcep
 
 void PowerPlant::shutdown(bool force) {
 
-    // Emit our shutdown event
-    emit(std::make_unique<dsl::word::Shutdown>());
+    // Emit our shutdown event, but only for the first request as the shutdown reactions must only run once
+    auto stage = ShutdownStage::NONE;
+    if (shutdown_stage.compare_exchange_strong(stage, ShutdownStage::ANNOUNCING)) {
+        emit(std::make_unique<dsl::word::Shutdown>());
+        shutdown_stage.store(ShutdownStage::ANNOUNCED);
+    }
+    else if (stage == ShutdownStage::ANNOUNCING && !force) {
+        // The first request stops the scheduler once everyone has been told, doing it here could lose the shutdown event
+        return;
+    }
 
     // Shutdown the scheduler
     scheduler.stop(force);
diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index afcf9d9..0433326 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_POWER_PLANT_HPP
 #define NUCLEAR_POWER_PLANT_HPP
 
+#include <atomic>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -311,6 +312,9 @@ public:
         FusionFunction::call(*this, data, std::forward<Arguments>(args)...);
     }
 
+    /// How far the first request to shut down has got
+    enum class ShutdownStage : unsigned char { NONE, ANNOUNCING, ANNOUNCED };
+    std::atomic<ShutdownStage> shutdown_stage{ShutdownStage::NONE};
     /// Our TaskScheduler that handles distributing task to the pool threads
     threading::scheduler::Scheduler scheduler;
     /// Our vector of Reactors, will get destructed when this vector is
-- 
2.43.0


From ec4fd0c13a0054b7555aa73c525d95d7cd3b03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 09/61] fix: an idle reaction could be missed after a task that
 waited for several groups

A pool thread that found a task it could not lock waits without being counted as
idle. When another thread took that task nobody woke it up, so the pool (and with
it the whole system) never became idle again until it got more work.
---
 src/threading/scheduler/Pool.cpp | 15 +++++++++++++--
 src/threading/scheduler/Pool.hpp |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index b10a12b..95ffdb5 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -415,6 +415,12 @@ namespace threading {
                         buckets[bucket]->enqueue(std::move(t));
                     }
                     if (got) {
+                        // Threads that wait beside a blocked task do not count as idle. The task they wait beside may be
+                        // the one that was just taken, so have them look again.
+                        if (blocked_threads > 0) {
+                            ++blocked_epoch;
+                            condition.notify_all();
+                        }
                         thread_idle[std::this_thread::get_id()] = nullptr;
                         pool_idle                               = nullptr;
                         return task;
@@ -431,12 +437,17 @@ namespace threading {
                     }
                 }
 
-                condition.wait(lock, [this] {
-                    return live || pending_idle.load(std::memory_order_acquire)
+                const bool is_blocked     = !blocked.empty();
+                const std::uint64_t epoch = blocked_epoch;
+                blocked_threads += is_blocked ? 1 : 0;
+                condition.wait(lock, [&] {
+                    return live || (is_blocked && blocked_epoch != epoch) || pending_idle.load(std::memory_order_acquire)
                            || discard_queues_requested.load(std::memory_order_acquire)
                            || (!running && pending_tasks.load(std::memory_order_acquire) == 0
                                && external_waiters.load(std::memory_order_acquire) == 0);
                 });
+                blocked_threads -= is_blocked ? 1 : 0;
+                live = live || (is_blocked && blocked_epoch != epoch);
             }
 
             // This worker will not dequeue again, clear this while still holding the mutex so that a forced stop never leaves
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index b2004fb..c83ba0f 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -25,6 +25,7 @@
 #include <array>
 #include <atomic>
 #include <condition_variable>
+#include <cstdint>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -348,6 +349,10 @@ namespace threading {
             bool idle_relevant() const;
             /// A boolean which is set to true when the queue is modified and set to false when there was no work to do
             bool live = true;
+            /// The number of threads waiting beside a task whose lock could not be acquired, these don't count as idle
+            int blocked_threads = 0;
+            /// Incremented when a task is taken while threads wait beside a blocked task, so that they look again
+            std::uint64_t blocked_epoch = 0;
             /// True when this pool's buckets use MPSCQueue (single consumer).
             bool single_consumer = false;
             /// Worker thread that owns MPSC dequeue; default until run() sets it.
-- 
2.43.0


From 9321844952d9e812ec08277868d44c58a3ca88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 10/61] fix: the messages collected by Last could be corrupted
 by emitters in different threads

The transient data of a reaction is shared by all threads that create tasks for
it, and was modified by them without any synchronisation.
---
 src/util/CallbackGenerator.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 93ada18..59e6f7a 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 #define NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 
+#include <mutex>
 #include <type_traits>
 
 #include "../dsl/word/emit/Inline.hpp"
@@ -57,14 +58,21 @@ namespace util {
                              bool> = true>
         explicit CallbackGenerator(F&& callback) : callback(std::forward<F>(callback)) {}
 
+        // If there is no transient data there is nothing to merge
+        template <typename... T>
+        void merge_transients(std::tuple<T...>& /*data*/, const Sequence<>& /*d*/, const Sequence<>& /*i*/) {}
+
         template <typename... T, int... DIndex, int... Index>
         void merge_transients(std::tuple<T...>& data,
                               const Sequence<DIndex...>& /*d*/,
                               const Sequence<Index...>& /*i*/) {
 
+            // Tasks of the same reaction can be created by several threads at once
+            const std::lock_guard<std::mutex> lock(transients->mutex);
+
             // Merge our transient data
             unpack(MergeTransients<std::remove_reference_t<decltype(std::get<DIndex>(data))>>::merge(
-                std::get<Index>(*transients),
+                std::get<Index>(transients->data),
                 std::get<DIndex>(data))...);
         }
 
@@ -155,9 +163,14 @@ namespace util {
             return task;
         }
 
+        /// The transient data of the reaction and the mutex which protects it
+        struct Transients {
+            std::mutex mutex;
+            typename TransientDataElements<DSL>::type data;
+        };
+
         Function callback;
-        std::shared_ptr<typename TransientDataElements<DSL>::type> transients{
-            std::make_shared<typename TransientDataElements<DSL>::type>()};
+        std::shared_ptr<Transients> transients{std::make_shared<Transients>()};
     };
 
 }  // namespace util
-- 
2.43.0


From ace94594d732458ddfe41b02e0881e177ecefcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 11/61] fix: Last provided data that does not exist

A reaction bound with Last<n, With<T>> was run before any T had been emitted, and
got a list of null pointers.
---
 src/dsl/word/Last.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Last.hpp b/src/dsl/word/Last.hpp
index 49fdaab..4468bbc 100644
--- a/src/dsl/word/Last.hpp
+++ b/src/dsl/word/Last.hpp
@@ -52,13 +52,21 @@ namespace dsl {
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(T&& data) : list({std::move(data)}) {}
+            explicit LastItemStorage(T&& data) {
+                if (has_data(data, 0)) {
+                    list.push_back(std::move(data));
+                }
+            }
             /**
              * Constructs a LastItemStorage object with the given data.
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(const T& data) : list({data}) {}
+            explicit LastItemStorage(const T& data) {
+                if (has_data(data, 0)) {
+                    list.push_back(data);
+                }
+            }
 
             /**
              * Converts the stored list to a list of the given type.
@@ -110,6 +118,17 @@ namespace dsl {
 
             /// The items we are storing
             std::list<T> list;
+
+        private:
+            // Data which does not exist (e.g. a type which was never emitted) is not an item
+            template <typename U>
+            static auto has_data(const U& data, int /*preferred*/) -> decltype(static_cast<bool>(data)) {
+                return static_cast<bool>(data);
+            }
+            template <typename U>
+            static bool has_data(const U& /*data*/, char /*fallback*/) {
+                return true;
+            }
         };
 
         /**
-- 
2.43.0


From 818890282e04c0b09fc481a09898d794b9c1eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:29 +0000
Subject: [PATCH 12/61] fix: simultaneous emissions to a Single or Buffer
 reaction could all be dropped

Each task was counted before it was decided if it is accepted, so two tasks that
were created at the same time rejected each other although nothing was pending.
---
 src/dsl/word/Buffer.hpp        | 21 ++++++++++++++++++---
 src/threading/Reaction.hpp     |  3 +++
 src/threading/ReactionTask.cpp |  3 +++
 src/threading/ReactionTask.hpp |  3 +++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/dsl/word/Buffer.hpp b/src/dsl/word/Buffer.hpp
index 8cf395a..5f5d48b 100644
--- a/src/dsl/word/Buffer.hpp
+++ b/src/dsl/word/Buffer.hpp
@@ -47,9 +47,24 @@ namespace dsl {
         struct Buffer {
 
             template <typename DSL>
-            static bool precondition(const threading::ReactionTask& task) {
-                // We only run if there are less than the target number of active tasks
-                return task.parent->active_tasks.load(std::memory_order_acquire) < (n + 1);
+            static bool precondition(threading::ReactionTask& task) {
+                auto& buffered = task.parent->buffered_tasks;
+
+                // Another word already counted this task
+                if (task.buffered) {
+                    return buffered.load(std::memory_order_acquire) <= n;
+                }
+
+                // We only run if there are less than the target number of active tasks.
+                // Only tasks which are accepted are counted, so that simultaneous tasks can't reject each other.
+                int current = buffered.load(std::memory_order_acquire);
+                while (current < n) {
+                    if (buffered.compare_exchange_weak(current, current + 1, std::memory_order_acq_rel)) {
+                        task.buffered = true;
+                        return true;
+                    }
+                }
+                return false;
             }
         };
 
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fc8eec2..694b5ef 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -119,6 +119,9 @@ namespace threading {
         /// the number of currently active tasks (existing reaction tasks)
         std::atomic<int> active_tasks{0};
 
+        /// the number of tasks that were accepted by a word which limits them (e.g. Buffer) and still exist
+        std::atomic<int> buffered_tasks{0};
+
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
diff --git a/src/threading/ReactionTask.cpp b/src/threading/ReactionTask.cpp
index 5e3eddf..17fcb54 100644
--- a/src/threading/ReactionTask.cpp
+++ b/src/threading/ReactionTask.cpp
@@ -41,6 +41,9 @@ namespace threading {
     ReactionTask::~ReactionTask() {
         // Decrement the number of active tasks
         if (parent != nullptr) {
+            if (buffered) {
+                parent->buffered_tasks.fetch_sub(1, std::memory_order_release);
+            }
             parent->active_tasks.fetch_sub(1, std::memory_order_release);
         }
     }
diff --git a/src/threading/ReactionTask.hpp b/src/threading/ReactionTask.hpp
index b559d0c..539002c 100644
--- a/src/threading/ReactionTask.hpp
+++ b/src/threading/ReactionTask.hpp
@@ -134,6 +134,9 @@ namespace threading {
         /// If the task should execute inline
         bool run_inline{false};
 
+        /// If this task is counted in the buffered_tasks of its reaction
+        bool buffered{false};
+
         /// The priority to run this task at
         int priority;
         /// If the task should be executed inline (in the current thread) or not
-- 
2.43.0


From 8c5e2cf14306f19661d33e5b4d91af06deed847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 13/61] fix: binding or unbinding a reaction while its type is
 emitted corrupted the list of reactions

---
 src/dsl/operation/TypeBind.hpp | 19 ++------
 src/dsl/word/emit/Inline.hpp   |  2 +-
 src/dsl/word/emit/Local.hpp    |  2 +-
 src/util/TypeList.hpp          | 89 +++++++++++++++++++++++++++++++---
 4 files changed, 90 insertions(+), 22 deletions(-)

diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..2da17ca 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -23,8 +23,6 @@
 #ifndef NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 #define NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 
-#include <algorithm>
-
 #include "../store/TypeCallbackStore.hpp"
 
 namespace NUClear {
@@ -64,25 +62,18 @@ namespace dsl {
             static void bind(const std::shared_ptr<threading::Reaction>& reaction) {
 
                 // Set this reaction as no stats emitting
-                reaction->emit_stats = reaction->emit_stats && EmitStats<DataType>::value;
+                if (!EmitStats<DataType>::value) {
+                    reaction->emit_stats = false;
+                }
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
+                    store::TypeCallbackStore<DataType>::remove_first(
                         [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
-                    // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::add(reaction);
             }
         };
 
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..09ffe7d 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -58,7 +58,7 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    for (const auto& reaction : store::TypeCallbackStore<DataType>::get()) {
                         // Set our thread local store data each time (as during inline it can be overwritten)
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
                         powerplant.submit(reaction->get_task(true));
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..405fb9e 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -53,7 +53,7 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    for (const auto& reaction : store::TypeCallbackStore<DataType>::get()) {
 
                         // Set our thread local store data
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
diff --git a/src/util/TypeList.hpp b/src/util/TypeList.hpp
index 8473c55..e03d49d 100644
--- a/src/util/TypeList.hpp
+++ b/src/util/TypeList.hpp
@@ -23,8 +23,12 @@
 #ifndef NUCLEAR_UTIL_TYPELIST_HPP
 #define NUCLEAR_UTIL_TYPELIST_HPP
 
+#include <algorithm>
+#include <cstddef>
+#include <iterator>
 #include <memory>
 #include <mutex>
+#include <utility>
 #include <vector>
 
 namespace NUClear {
@@ -41,24 +45,97 @@ namespace util {
         TypeList operator=(const TypeList& /*other*/)     = delete;
         TypeList operator=(TypeList&& /*other*/) noexcept = delete;
 
+        /**
+         * The elements of the list at the time it was obtained.
+         *
+         * It can be iterated safely, also while elements are added to the list or removed from it.
+         */
+        class Snapshot {
+        public:
+            using const_iterator = typename std::vector<Value>::const_iterator;
+
+            explicit Snapshot(std::shared_ptr<const std::vector<Value>> list) : list(std::move(list)) {}
+
+            const_iterator begin() const {
+                return list == nullptr ? const_iterator() : list->begin();
+            }
+            const_iterator end() const {
+                return list == nullptr ? const_iterator() : list->end();
+            }
+            std::size_t size() const {
+                return list == nullptr ? 0 : list->size();
+            }
+            bool empty() const {
+                return size() == 0;
+            }
+
+        private:
+            /// The elements, which are never modified
+            std::shared_ptr<const std::vector<Value>> list;
+        };
+
     private:
-        /// The data variable where the data is stored for this map key
-        static std::vector<Value> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// The elements which are stored for this map key, they are replaced rather than modified
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+        static std::shared_ptr<const std::vector<Value>> data;
+        /// The mutex which protects the data pointer
+        static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     public:
         /**
          * Gets the list that is stored in this type location.
          *
-         * @return A reference to the vector stored in this location
+         * @return the elements which are in the list at the moment
+         */
+        static Snapshot get() {
+            const std::lock_guard<std::mutex> lock(mutex);
+            return Snapshot(data);
+        }
+
+        /**
+         * Adds an element to the end of the list that is stored in this type location.
+         *
+         * @param value the element to add
+         */
+        static void add(const Value& value) {
+            const std::lock_guard<std::mutex> lock(mutex);
+            auto list = data == nullptr ? std::make_shared<std::vector<Value>>()
+                                        : std::make_shared<std::vector<Value>>(*data);
+            list->push_back(value);
+            data = std::move(list);
+        }
+
+        /**
+         * Removes the first element for which the predicate is true, if there is one.
+         *
+         * @param predicate the predicate that identifies the element
          */
-        static std::vector<Value>& get() {
-            return data;
+        template <typename Predicate>
+        static void remove_first(const Predicate& predicate) {
+            // The element must not be destroyed while we are holding the mutex
+            std::shared_ptr<const std::vector<Value>> old;
+
+            const std::lock_guard<std::mutex> lock(mutex);
+            if (data != nullptr) {
+                const auto it = std::find_if(data->begin(), data->end(), predicate);
+                if (it != data->end()) {
+                    auto list = std::make_shared<std::vector<Value>>(data->begin(), it);
+                    list->insert(list->end(), std::next(it), data->end());
+                    old  = std::move(data);
+                    data = std::move(list);
+                }
+            }
         }
     };
 
     /// Initialize our type list data
     template <typename MapID, typename Key, typename Value>
-    std::vector<Value> TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+    std::shared_ptr<const std::vector<Value>> TypeList<MapID, Key, Value>::data;
+
+    /// Initialize our type list mutex
+    template <typename MapID, typename Key, typename Value>
+    std::mutex TypeList<MapID, Key, Value>::mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
 }  // namespace util
 }  // namespace NUClear
-- 
2.43.0


From 7567eaf3a6c2f4b9973d4e980bd9533f7f0d059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 14/61] fix: a Once reaction could run twice when triggered by
 several threads

---
 src/dsl/word/Once.hpp      | 6 ++++++
 src/threading/Reaction.cpp | 7 +++++--
 src/threading/Reaction.hpp | 3 +++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Once.hpp b/src/dsl/word/Once.hpp
index 7699971..cba7416 100644
--- a/src/dsl/word/Once.hpp
+++ b/src/dsl/word/Once.hpp
@@ -39,6 +39,12 @@ namespace dsl {
          */
         struct Once : Single {
 
+            // Another thread may be triggering this reaction at the moment it is unbound.
+            template <typename DSL>
+            static bool precondition(threading::ReactionTask& task) {
+                return Single::precondition<DSL>(task) && !task.parent->unbound.load(std::memory_order_acquire);
+            }
+
             // Post condition to unbind this reaction.
             template <typename DSL>
             static void post_run(threading::ReactionTask& task) {
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..5a299df 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -41,8 +41,8 @@ namespace threading {
     Reaction::~Reaction() = default;
 
     std::unique_ptr<ReactionTask> Reaction::get_task(const bool& request_inline) {
-        // If we are not enabled, don't run
-        if (!enabled) {
+        // If we are not enabled or were removed, don't run
+        if (!enabled || unbound.load(std::memory_order_acquire)) {
             return nullptr;
         }
 
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // An emission that is under way may still know this reaction
+        unbound.store(true, std::memory_order_release);
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index 694b5ef..2f218f7 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -125,6 +125,9 @@ namespace threading {
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
+        /// if this reaction object has been unbound, after which it never runs again
+        std::atomic<bool> unbound{false};
+
         /// list of functions to use to unbind the reaction and clean
         std::vector<std::function<void(Reaction&)>> unbinders;
 
-- 
2.43.0


From 339dd37bfd89e7ac7e055b6d09bfaacdfe8eaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 15/61] fix: binding reactions of one reactor from several
 threads raced on its list of handles

---
 src/Reactor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index f90a464..df93cb3 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <regex>
 #include <string>
 #include <tuple>
@@ -186,6 +187,8 @@ public:
 
 private:
     std::vector<threading::ReactionHandle> reaction_handles;
+    /// Reactions can be bound from several threads at once
+    std::mutex reaction_handles_mutex;
 
 public:
     /// The powerplant that this reactor is running in
@@ -381,7 +384,10 @@ public:
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
             auto handle = threading::ReactionHandle(reaction);
-            reactor.reaction_handles.push_back(handle);
+            {
+                const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
+                reactor.reaction_handles.push_back(handle);
+            }
 
             // Return the arguments to the user (if there is only 1 we unwrap it for them since this is the most common
             // case)
-- 
2.43.0


From c901ba486ace75dd5d18c37353b7253f9c12b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:47 +0000
Subject: [PATCH 16/61] fix: an unbound Always reaction kept its thread
 spinning

---
 src/dsl/word/Always.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsl/word/Always.hpp b/src/dsl/word/Always.hpp
index b522ae0..efa3c67 100644
--- a/src/dsl/word/Always.hpp
+++ b/src/dsl/word/Always.hpp
@@ -137,6 +137,11 @@ namespace dsl {
                     DSL::group);
 
                 idle_task->callback = [](threading::ReactionTask& task) {
+                    // Once the reaction is unbound there is nothing left to resubmit
+                    if (task.parent->unbound) {
+                        return;
+                    }
+
                     // Submit the always and idle tasks to the scheduler
                     PowerPlant::powerplant->submit(task.parent->get_task());
                     PowerPlant::powerplant->submit(make_idle_task<DSL>(task.parent));
-- 
2.43.0


From adb4379ac2926e8c591679ed7dacde49879f0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 17/61] fix: shutdown is not delayed until the next timer

The chrono controller could find that the system is running, then miss the notification of the shutdown before it took the
lock, and wait for its next timer.
---
 src/extension/ChronoController.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b42859b..f4a9339 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -136,6 +136,11 @@ namespace extension {
                 // Acquire the mutex lock so we can wait on it
                 std::unique_lock<std::mutex> lock(mutex);
 
+                // The shutdown may have been announced before we got the lock, in which case nobody would wake us up
+                if (!running.load(std::memory_order_acquire)) {
+                    break;
+                }
+
                 // If we have no chrono tasks wait until we are notified
                 if (tasks.empty()) {
                     wait.wait(lock, [this] { return !running.load(std::memory_order_acquire) || !tasks.empty(); });
-- 
2.43.0


From be5eb169f1efce8d9958cf84235beb22207b742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 18/61] fix: reactions to timers can add and remove timers

The chrono controller ran its tasks while holding the lock of its task list, so that a reaction which runs inline in its
thread (Inline::ALWAYS) deadlocked when it emitted a delayed message, bound or unbound a timer or travelled in time.
---
 src/extension/ChronoController.cpp | 44 ++++++++++++++++++++++++------
 src/extension/ChronoController.hpp | 16 +++++++++++
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index f4a9339..916c971 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -25,6 +25,7 @@
 #include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <mutex>
 #include <utility>
@@ -91,6 +92,10 @@ namespace extension {
                     tasks.erase(it);
                     std::make_heap(tasks.begin(), tasks.end(), std::greater<>());
                 }
+                // If it is running at the moment it must not be put back
+                if (executing != nullptr && executing->id == unbind.id) {
+                    executing->removed = true;
+                }
 
                 // Poke the system to make sure it's not waiting on something that's gone
                 wait.notify_all();
@@ -115,12 +120,18 @@ namespace extension {
                     for (auto& task : tasks) {
                         task.time += adjustment;
                     }
+                    if (executing != nullptr) {
+                        executing->adjustment += adjustment;
+                    }
 
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
-                    const clock::time_point nearest =
+                    clock::time_point nearest =
                         tasks.empty() ? travel.target
                                       : std::min(travel.target, std::min_element(tasks.begin(), tasks.end())->time);
+                    if (executing != nullptr) {
+                        nearest = std::min(nearest, executing->time);
+                    }
                     clock::set_clock(nearest, travel.rtf);
                 } break;
             }
@@ -150,19 +161,34 @@ namespace extension {
                     auto target = tasks.front().time;
 
                     if (target <= start) {
-                        // Run our task and if it returns false remove it
-                        const bool renew = tasks.front()();
-
-                        // Move this to the back of the list
+                        // Take our task out of the list
                         std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
+                        ChronoTask task(std::move(tasks.back()));
+                        tasks.pop_back();
+
+                        // Run it without holding the lock, as whatever it triggers may add and remove tasks
+                        Executing current{task.id, task.time};
+                        executing = &current;
+                        lock.unlock();
+                        bool renew = true;
+                        std::exception_ptr error;
+                        try {
+                            renew = task();
+                        }
+                        catch (...) {
+                            error = std::current_exception();
+                        }
+                        lock.lock();
+                        executing = nullptr;
 
-                        if (renew) {
+                        if (renew && !current.removed) {
                             // Put the item back in the list
+                            task.time += current.adjustment;
+                            tasks.push_back(std::move(task));
                             std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
                         }
-                        else {
-                            // Remove the item from the list
-                            tasks.pop_back();
+                        if (error) {
+                            std::rethrow_exception(error);
                         }
                     }
                     else {
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index e3954f6..496ba25 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -37,8 +37,24 @@ namespace extension {
         explicit ChronoController(std::unique_ptr<NUClear::Environment> environment);
 
     private:
+        /// What happens to a task while it is being run, during which it is not in the list of tasks
+        struct Executing {
+            Executing(const NUClear::id_t& id, const NUClear::clock::time_point& time) : id(id), time(time) {}
+
+            /// The identifier of the task
+            NUClear::id_t id;
+            /// The time the task was due
+            NUClear::clock::time_point time;
+            /// How far the tasks have been moved in time
+            NUClear::clock::duration adjustment{0};
+            /// If the task has been unbound
+            bool removed{false};
+        };
+
         /// The list of tasks we need to process
         std::vector<dsl::operation::ChronoTask> tasks;
+        /// The task which is being run at the moment or nullptr
+        Executing* executing{nullptr};
         /// The mutex we use to lock the task list
         std::mutex mutex;
         /// The condition variable we use to wait on
-- 
2.43.0


From a59b41c237a0aaa3777fa9a3ceb09ea41dad04d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 19/61] fix: time travel does not spoil the accuracy of later
 timers

The lateness of the chrono controller's waits was measured with the clock that time travel adjusts, so that a jump over a timer
counted as lateness and the controller slept with its list of timers locked from then on, delaying timers added meanwhile.
---
 src/extension/ChronoController.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index 916c971..c2e5783 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -200,12 +200,14 @@ namespace extension {
                             wait.wait(lock);
                         }
                         else if (time_until_task > cv_accuracy) {  // A long time in the future
-                            // Wait on the cv
-                            wait.wait_for(lock, time_until_task - cv_accuracy);
+                            // Wait on the cv, timed by the base clock as time travel does not affect it
+                            const NUClear::clock::duration wait_time = time_until_task - cv_accuracy;
+                            const auto wait_start                    = NUClear::base_clock::now();
+                            wait.wait_for(lock, wait_time);
 
                             // Update the accuracy of our cv wait
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
+                            const auto end = NUClear::base_clock::now();
+                            const NUClear::clock::duration error = end - (wait_start + wait_time);  // ended - wanted to
                             if (error.count() > 0) {                          // only if we were late
                                 cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
                             }
@@ -213,11 +215,12 @@ namespace extension {
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
                             // Wait on nanosleep
                             const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            const auto sleep_start                    = NUClear::base_clock::now();
                             util::precise_sleep(sleep_time);
 
                             // Update the accuracy of our precise sleep
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - ns_accuracy);  // when ended - when wanted to end
+                            const auto end = NUClear::base_clock::now();
+                            const NUClear::clock::duration error = end - (sleep_start + sleep_time);  // ended - wanted to
                             if (error.count() > 0) {                          // only if we were late
                                 ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
                             }
-- 
2.43.0


From fb46a59f2dc2559c26b89a195d8bc458e4b2e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 20/61] fix: the clock never shows a mixture of two settings

now() and rtf() copied the clock's data without protection from a ring of three, so that a reader which was interrupted while the
clock was adjusted three times read data that was being overwritten.
---
 src/clock.cpp | 60 +++++++++++++++++++++++++++++++--------------------
 src/clock.hpp | 36 ++++++++++++++++++++++++++-----
 2 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/clock.cpp b/src/clock.cpp
index 3e5831b..726d51c 100644
--- a/src/clock.cpp
+++ b/src/clock.cpp
@@ -24,6 +24,7 @@
 #include <array>
 #include <atomic>
 #include <chrono>
+#include <cstdint>
 #include <mutex>
 
 namespace NUClear {
@@ -35,51 +36,64 @@ namespace {
     }
 }  // namespace
 
+clock::Snapshot clock::read() {
+    while (true) {
+        const uint64_t version = active.load(std::memory_order_acquire);
+        const auto& current    = data[version % data.size()];
+        const Snapshot result{current.base_from.load(std::memory_order_relaxed),
+                              current.epoch.load(std::memory_order_relaxed),
+                              current.rtf.load(std::memory_order_relaxed)};
+
+        // What we read is only overwritten once there have been at least two more updates
+        std::atomic_thread_fence(std::memory_order_acquire);
+        if (active.load(std::memory_order_relaxed) - version < data.size() - 1) {
+            return result;
+        }
+    }
+}
+
+void clock::write(const Snapshot& next) {
+    const uint64_t version = active.load(std::memory_order_relaxed) + 1;
+    auto& slot             = data[version % data.size()];
+
+    // Whoever sees any of the new values also sees that there have been updates since those they replace were current
+    std::atomic_thread_fence(std::memory_order_release);
+    slot.base_from.store(next.base_from, std::memory_order_relaxed);
+    slot.epoch.store(next.epoch, std::memory_order_relaxed);
+    slot.rtf.store(next.rtf, std::memory_order_relaxed);
+    active.store(version, std::memory_order_release);
+}
+
 clock::time_point clock::now() {
-    const ClockData current = data[active.load(std::memory_order_acquire)];  // Take a copy in case it changes
+    const Snapshot current = read();
     return current.epoch + dc((base_clock::now() - current.base_from) * current.rtf);
 }
 
 void clock::adjust_clock(const duration& adjustment, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
-    // Load the current state
-    const int c         = active.load(std::memory_order_relaxed);
-    const auto& current = data[c];
-    const auto n        = int((c + 1) % data.size());
-    auto& next          = data[n];
+    const Snapshot current = read();
 
     // Perform the update
-    auto base      = base_clock::now();
-    next.epoch     = current.epoch + adjustment + dc((base - current.base_from) * current.rtf);
-    next.base_from = base;
-    next.rtf       = rtf;
-    active.store(n, std::memory_order_release);
+    auto base = base_clock::now();
+    write({base, current.epoch + adjustment + dc((base - current.base_from) * current.rtf), rtf});
 }
 
 void clock::set_clock(const time_point& time, const double& rtf) {
     const std::lock_guard<std::mutex> lock(mutex);
-    // Load the next state
-    const int c = active.load(std::memory_order_acquire);
-    const int n = int((c + 1) % data.size());
-    auto& next  = data[n];
 
     // Perform the update
-    auto base      = base_clock::now();
-    next.epoch     = time;
-    next.base_from = base;
-    next.rtf       = rtf;
-    active         = n;
+    write({base_clock::now(), time, rtf});
 }
 
 double clock::rtf() {
-    return data[active.load(std::memory_order_acquire)].rtf;
+    return read().rtf;
 }
 
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
 std::mutex clock::mutex;
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::array<clock::ClockData, 3> clock::data = std::array<typename clock::ClockData, 3>{};
+std::array<clock::ClockData, 3> clock::data{};
 // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
-std::atomic<int> clock::active{0};
+std::atomic<uint64_t> clock::active{0};
 
 }  // namespace NUClear
diff --git a/src/clock.hpp b/src/clock.hpp
index 75fbc99..2ffaa02 100644
--- a/src/clock.hpp
+++ b/src/clock.hpp
@@ -26,6 +26,7 @@
 #include <array>
 #include <atomic>
 #include <chrono>
+#include <cstdint>
 #include <mutex>
 
 namespace NUClear {
@@ -76,26 +77,51 @@ struct clock : base_clock {
 private:
     /**
      * Data structure to hold clock information.
+     *
+     * The members are atomic as they may be overwritten while they are being read.
      */
     struct ClockData {
         /// When the clock was last updated under the true time
-        time_point base_from = base_clock::now();
+        std::atomic<time_point> base_from{base_clock::now()};
         /// Our calculated time when the clock was last updated in simulated time
-        time_point epoch = base_from;
+        std::atomic<time_point> epoch{base_from.load()};
         /// The real time factor of the simulated clock
-        double rtf = 1.0;
+        std::atomic<double> rtf{1.0};
 
         ClockData() = default;
     };
 
+    /**
+     * A consistent copy of the clock information.
+     */
+    struct Snapshot {
+        time_point base_from;
+        time_point epoch;
+        double rtf;
+    };
+
+    /**
+     * Read the current clock information without locking.
+     *
+     * @return a copy of the clock information as it was written by one update
+     */
+    static Snapshot read();
+
+    /**
+     * Make new clock information current.  The mutex must be held.
+     *
+     * @param next the new clock information
+     */
+    static void write(const Snapshot& next);
+
     /// The mutex to protect the clock data
     static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     /// The clock data for the system
     static std::array<ClockData, 3> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
-    /// The active clock data index
-    static std::atomic<int> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    /// The number of updates of the clock, the active clock data is the one at this index modulo the size of the data
+    static std::atomic<uint64_t> active;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 };
 
 }  // namespace NUClear
-- 
2.43.0


From 8a06eed357e8b77ef034726b9124cc723ba2e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:35 +0000
Subject: [PATCH 21/61] fix: a watchdog fires at the time it is due

When the clock showed exactly the time at which a watchdog was due it was put back for that same time.  With a clock that was
paused at it, as time travel to the nearest timer does, it never fired and kept the chrono controller busy for ever.
---
 src/dsl/word/Watchdog.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index f2b2ac7..6567d33 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -326,7 +326,7 @@ namespace dsl {
                                     NUClear::clock::time_point& time) {
 
                 // Check if our watchdog has timed out
-                if (NUClear::clock::now() > (service_time + period(ticks))) {
+                if (NUClear::clock::now() >= (service_time + period(ticks))) {
                     // Submit the reaction to the thread pool
                     reaction->reactor.powerplant.submit(reaction->get_task());
 
-- 
2.43.0


From b551bc9c6ba360f496eb14f0b5015de53f17a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:07 +0000
Subject: [PATCH 22/61] fix: a reaction keeps a copy of a callback that was
 passed by name

then() stored a reference to a callback which was passed as an lvalue, and so called a lambda that had gone out of scope.
---
 src/Reactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index df93cb3..9eb68e6 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -378,7 +378,7 @@ public:
             auto reaction = std::make_shared<threading::Reaction>(
                 reactor,
                 std::move(identifiers),
-                util::CallbackGenerator<DSL, Function>(std::forward<Function>(callback)));
+                util::CallbackGenerator<DSL, std::decay_t<Function>>(std::forward<Function>(callback)));
 
             // Get our tuple from binding our reaction
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
-- 
2.43.0


From 86bccc9f63aa4c4c2f7ff3ee56c9d91fb5b7554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:07 +0000
Subject: [PATCH 23/61] fix: unbinding a watchdog does not affect others with
 the same key

The service time was erased with the first of the watchdogs that share it, after which the others threw in the chrono controller
for ever and no timer fired any more.  It was also erased before the timer that reads it was removed.
---
 src/dsl/word/Watchdog.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index 6567d33..aee849f 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -51,7 +51,13 @@ namespace dsl {
         template <typename WatchdogGroup, typename RuntimeType = void>
         struct WatchdogDataStore {
             using MapType       = std::remove_cv_t<RuntimeType>;
-            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, NUClear::clock::time_point>>;
+
+            /// A service time and how many watchdogs use it
+            struct Entry {
+                NUClear::clock::time_point time{NUClear::clock::now()};
+                int users{0};
+            };
+            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, Entry>>;
 
             /**
              * Mutex protecting structural and value updates to the underlying map for this
@@ -73,11 +79,9 @@ namespace dsl {
             static void init(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<std::map<MapType, NUClear::clock::time_point>>());
-                }
-                if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, NUClear::clock::now()});
+                    WatchdogStore::set(std::make_shared<std::map<MapType, Entry>>());
                 }
+                ++(*WatchdogStore::get())[data].users;
             }
 
             /**
@@ -95,7 +99,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data);
+                return WatchdogStore::get()->at(data).time;
             }
 
             /**
@@ -111,18 +115,22 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data) = when;
+                WatchdogStore::get()->at(data).time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog
+             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog once the last of its users has
+             * gone
              *
              * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
              */
             static void unbind(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get()->erase(data);
+                    auto it = WatchdogStore::get()->find(data);
+                    if (it != WatchdogStore::get()->end() && --it->second.users == 0) {
+                        WatchdogStore::get()->erase(it);
+                    }
                 }
             }
         };
@@ -270,9 +278,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([data](const threading::Reaction& r) {
-                    // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
+                    // Nothing reads the service time any more, remove it from the data store
+                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                 });
 
                 // Send our configuration out
-- 
2.43.0


From 80e434384e2603b034fdf06ec94d533799b7af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 24/61] fix: assigning a task scope lock returns the lock

---
 src/dsl/word/TaskScope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsl/word/TaskScope.hpp b/src/dsl/word/TaskScope.hpp
index b73e825..47903df 100644
--- a/src/dsl/word/TaskScope.hpp
+++ b/src/dsl/word/TaskScope.hpp
@@ -59,6 +59,7 @@ namespace dsl {
                         valid  = std::exchange(other.valid, false);
                         old_id = other.old_id;
                     }
+                    return *this;
                 }
                 ~Lock() {  // Only restore if this lock hasn't been invalidated
                     current_task_id = valid ? old_id : current_task_id;
-- 
2.43.0


From 8d668d9d5de66830c9f68935d7d64c28b70b1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 25/61] fix: the level passed to log as an argument is used as
 the level

---
 src/PowerPlant.hpp | 7 ++++++-
 src/Reactor.hpp    | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index 0433326..06612ed 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -341,12 +341,17 @@ void log(Arguments&&... args) {
         PowerPlant::powerplant->log<level>(std::forward<Arguments>(args)...);
     }
 }
+// The level is taken by value so this overload is preferred over the one above for every kind of LogLevel argument
 template <typename... Arguments>
-void log(const LogLevel& level, Arguments&&... args) {
+void log(LogLevel level, Arguments&&... args) {
     if (PowerPlant::powerplant != nullptr) {
         PowerPlant::powerplant->log(level, std::forward<Arguments>(args)...);
     }
 }
+template <typename... Arguments>
+void log(LogLevel::Value level, Arguments&&... args) {
+    NUClear::log(LogLevel(level), std::forward<Arguments>(args)...);
+}
 
 }  // namespace NUClear
 
diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index 9eb68e6..c7139fa 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -485,16 +485,20 @@ public:
      *
      * @tparam Arguments The types of the arguments we are logging
      *
-     * @param level The level to log at
+     * @param level The level to log at, by value so this is preferred over the above for every kind of LogLevel argument
      * @param args The arguments we are logging
      */
     template <typename... Arguments>
-    void log(const LogLevel& level, Arguments&&... args) const {
+    void log(LogLevel level, Arguments&&... args) const {
         // Short circuit here before going to the more expensive log function
         if (level >= min_log_level || level >= log_level) {
             powerplant.log(this, level, std::forward<Arguments>(args)...);
         }
     }
+    template <typename... Arguments>
+    void log(LogLevel::Value level, Arguments&&... args) const {
+        log(LogLevel(level), std::forward<Arguments>(args)...);
+    }
 };
 
 }  // namespace NUClear
-- 
2.43.0


From 16ce8cd6048566a847bd29abf5a5be9223a11503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 26/61] fix: flow ids in traces are encoded as fixed64

---
 src/extension/TraceController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index 15c5002..f0c34c0 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -198,7 +198,7 @@ namespace extension {
                 trace::protobuf::uint64(31, thread_time_uuid, data);       // extra_counter_track_uuids:31:uint64
                 trace::protobuf::int64(12, ts(relevant.thread_time).count(), data);  // extra_counter_values:12:int64
                 if (event.type == ReactionEvent::CREATED || event.type == ReactionEvent::STARTED) {
-                    trace::protobuf::uint64(47, task_id, data);  // flow_ids:47:fixed64
+                    trace::protobuf::fixed64(47, task_id, data);  // flow_ids:47:fixed64
                 }
             }
         }
-- 
2.43.0


From c0c233617e4ef521912f7c544b36911b45c50eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 27/61] fix: a trace defines all the names and tracks it uses
 even if it is not the first

---
 src/extension/TraceController.cpp      | 7 +++++++
 src/extension/trace/StringInterner.hpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index f0c34c0..512a6ac 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -273,6 +273,13 @@ namespace extension {
             log_handle.unbind();
             trace_file.close();
 
+            // The new trace doesn't know about anything that was defined in a previous one
+            process_uuid = 0;
+            thread_uuids.clear();
+            categories.clear();
+            event_names.clear();
+            log_message_bodies.clear();
+
             // Open a new file in the target location
             trace_file.open(e.file, std::ios::binary);
 
diff --git a/src/extension/trace/StringInterner.hpp b/src/extension/trace/StringInterner.hpp
index 11c9a72..2595d27 100644
--- a/src/extension/trace/StringInterner.hpp
+++ b/src/extension/trace/StringInterner.hpp
@@ -93,6 +93,13 @@ namespace extension {
                 return iid;
             }
 
+            /**
+             * Forget all the interned strings, so they are written again when they are next used.
+             */
+            void clear() {
+                interned.clear();
+            }
+
         private:
             /// The trusted packet sequence id to use for the trace file
             const uint32_t trusted_packet_sequence_id;
-- 
2.43.0


From 6ebbb1fbbbed1da5807ad6d7220344b8e80da71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 28/61] fix: the length of a large trace message is encoded
 with as many bytes as it needs

---
 src/extension/trace/protobuf.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extension/trace/protobuf.cpp b/src/extension/trace/protobuf.cpp
index 017b54e..7a35069 100644
--- a/src/extension/trace/protobuf.cpp
+++ b/src/extension/trace/protobuf.cpp
@@ -148,8 +148,14 @@ namespace extension {
             SubMessage::~SubMessage() {
                 // Update the length of the SubMessage
                 auto size = uint32_t(data.size() - start - varint_bytes);
-                auto it   = std::next(data.begin(), ptrdiff_t(start));
-                encode::redundant_varint(size, varint_bytes, it);
+                // Make room if the length does not fit into the reserved space
+                size_t needed = varint_bytes;
+                while (needed < 5 && (size >> (7 * needed)) != 0) {
+                    ++needed;
+                }
+                data.insert(std::next(data.begin(), ptrdiff_t(start)), needed - varint_bytes, 0);
+                auto it = std::next(data.begin(), ptrdiff_t(start));
+                encode::redundant_varint(size, needed, it);
             }
 
         }  // namespace protobuf
-- 
2.43.0


From 4db3cd19251de999043e6ac3d2a7b78902f6a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:05 +0000
Subject: [PATCH 29/61] fix: events queued for one trace are not written into
 the next one

---
 src/extension/TraceController.cpp | 14 ++++++++++----
 src/extension/TraceController.hpp |  3 +++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/extension/TraceController.cpp b/src/extension/TraceController.cpp
index 512a6ac..c51d3ab 100644
--- a/src/extension/TraceController.cpp
+++ b/src/extension/TraceController.cpp
@@ -299,13 +299,19 @@ namespace extension {
             encode_event(ReactionEvent(ReactionEvent::CREATED, current_stats));
             encode_event(ReactionEvent(ReactionEvent::STARTED, current_stats));
 
-            // Bind new handles
-            event_handle = on<Trigger<ReactionEvent>, Pool<TracePool>>().then([this](const ReactionEvent& e) {  //
-                encode_event(e);
+            // Bind new handles, which ignore what is still queued for them once another trace has begun
+            const uint64_t trace = ++current_trace;
+            event_handle = on<Trigger<ReactionEvent>, Pool<TracePool>>().then([this, trace](const ReactionEvent& e) {
+                if (trace == current_trace) {
+                    encode_event(e);
+                }
             });
             if (e.logs) {
                 log_handle =
-                    on<Trigger<LogMessage>, Pool<TracePool>, Inline::NEVER>().then([this](const LogMessage& msg) {
+                    on<Trigger<LogMessage>, Pool<TracePool>, Inline::NEVER>().then([this, trace](const LogMessage& msg) {
+                        if (trace != current_trace) {
+                            return;
+                        }
                         // Statistics for the log message task itself
                         auto log_stats = threading::ReactionTask::get_current_task()->statistics;
                         encode_log(log_stats, msg);
diff --git a/src/extension/TraceController.hpp b/src/extension/TraceController.hpp
index 04d7f9a..ff1adfc 100644
--- a/src/extension/TraceController.hpp
+++ b/src/extension/TraceController.hpp
@@ -92,6 +92,9 @@ namespace extension {
 
         std::atomic<uint64_t> next_uuid{2};  // Start at 2 as 1 is reserved for the process track descriptor
 
+        /// Counts the traces, only used in the trace pool
+        uint64_t current_trace{0};
+
         ReactionHandle event_handle;
         ReactionHandle log_handle;
 
-- 
2.43.0


From 361b8f76d1e08694f0944a8fb5cff5718f90aee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 30/61] fix: Run the post run tasks of a reaction whose
 callback throws

An IO reaction which threw was never told apart from one which is still running and got no more events.
---
 src/util/CallbackGenerator.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 59e6f7a..47bace7 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -140,11 +140,19 @@ namespace util {
 
                 // We have to catch any exceptions
                 try {
-                    auto scope = DSL::scope(task);             // Acquire the scope
-                    DSL::pre_run(task);                        // Pre run tasks
-                    util::apply_relevant(c, std::move(data));  // Run the callback
-                    DSL::post_run(task);                       // Post run tasks
-                    std::ignore = scope;                       // Ignore unused variable warning
+                    auto scope = DSL::scope(task);  // Acquire the scope
+                    DSL::pre_run(task);             // Pre run tasks
+                    try {
+                        util::apply_relevant(c, std::move(data));  // Run the callback
+                    }
+                    catch (...) {
+                        // Catch our exception if it happens, the post run tasks are still needed
+                        if (task.statistics != nullptr) {
+                            task.statistics->exception = std::current_exception();
+                        }
+                    }
+                    DSL::post_run(task);  // Post run tasks
+                    std::ignore = scope;  // Ignore unused variable warning
                 }
                 catch (...) {
                     // Catch our exception if it happens
-- 
2.43.0


From 001f70b254048a1704ed62bbfab403a326e2c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 31/61] fix: Do not mask events of an IO reaction which was
 disabled when they happened

The next time the list was rebuilt poll stopped looking for them, and they were lost when the reaction was enabled.
---
 src/extension/IOController_Posix.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index b53910d..0932dff 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -147,8 +147,8 @@ namespace extension {
                 powerplant.submit(std::move(r));
             }
             else {
-                task.waiting_events    = event_t(task.waiting_events | task.processing_events);
-                task.processing_events = 0;
+                // Nobody took these events, poll will find them again if they are still there
+                task.waiting_events = 0;
             }
         }
     }
-- 
2.43.0


From 6da258a527fa2655aefc8eb37bf96e112ad55822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 32/61] fix: Do not give events of a closed descriptor to the
 one which reuses its number

Poll results from before a reaction was unbound were delivered to the reaction which was bound to the same number since,
and as there was nothing to read on it it was told that it had been closed.
---
 src/extension/IOController_Posix.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 0932dff..9ec759f 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -188,7 +188,7 @@ namespace extension {
                                           [](const Task& a, const Task& b) { return a.fd < b.fd; });
 
             // There are no tasks for this!
-            if (range.first == tasks.end()) {
+            if (range.first == range.second) {
                 // If this happens then our list is definitely dirty...
                 dirty.store(true, std::memory_order_release);
             }
@@ -348,11 +348,14 @@ namespace extension {
 
                 // Get the lock so we don't concurrently modify the list
                 const std::lock_guard<std::mutex> lock(tasks_mutex);
+
+                // If the tasks changed since we polled, what we found may be about a descriptor which has been replaced
+                const bool stale = dirty.load(std::memory_order_acquire);
                 for (auto& fd : watches) {
 
                     // Collect the events that happened into the tasks list
                     // Something happened
-                    if (fd.revents != 0) {
+                    if (fd.revents != 0 && (!stale || fd.fd == notifier.recv)) {
                         process_event(fd);
                     }
                 }
-- 
2.43.0


From 7fb09f0c442cb5ad42a62ae1434176614fcb6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 33/61] fix: Tell readers of a pipe that it has been closed

poll reports the end of a pipe as POLLHUP even if nobody asks for it, and as nobody took the event the controller span.
---
 src/extension/IOController_Posix.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 9ec759f..4993de3 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -168,12 +168,12 @@ namespace extension {
         }
         // It's a regular handle
         else {
-            // Check if we have a read event but 0 bytes to read, this can happen when a socket is closed
+            // Check if we have a read or close event but 0 bytes to read, this can happen when a socket is closed
             // On linux we don't get a close event, we just keep getting read events with 0 bytes
             // To make the close event happen if we get a read event with 0 bytes we will check if there are
             // any currently processing reads and if not, then close
             bool maybe_eof = false;
-            if ((event.revents & IO::READ) != 0) {
+            if ((event.revents & (IO::READ | IO::CLOSE)) != 0) {
                 int bytes_available = 0;
                 const bool valid    = ::ioctl(event.fd, FIONREAD, &bytes_available) == 0;
                 if (valid && bytes_available == 0) {
-- 
2.43.0


From 8d007e838e1042b3c934b559ba9fd03bc47d1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 34/61] fix: Do not take an empty datagram for the end of a
 socket

A UDP reaction stopped receiving for good once it was sent an empty datagram.
---
 src/extension/IOController_Posix.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 4993de3..6a9835e 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -176,7 +176,14 @@ namespace extension {
             if ((event.revents & (IO::READ | IO::CLOSE)) != 0) {
                 int bytes_available = 0;
                 const bool valid    = ::ioctl(event.fd, FIONREAD, &bytes_available) == 0;
-                if (valid && bytes_available == 0) {
+
+                // A datagram can be empty, this is not the end of anything
+                int type            = 0;
+                socklen_t type_size = sizeof(type);
+                const bool datagram = ::getsockopt(event.fd, SOL_SOCKET, SO_TYPE, &type, &type_size) == 0
+                                      && type == SOCK_DGRAM;
+
+                if (valid && bytes_available == 0 && !datagram) {
                     maybe_eof = true;
                 }
             }
-- 
2.43.0


From b35c74d73a1075571cb734e37e4a1ff8d7f324f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:06 +0000
Subject: [PATCH 35/61] fix: Stop polling a socket before it is closed

Its number can be reused as soon as it is closed, and the new descriptor would have been taken for the old one.
---
 src/dsl/word/TCP.hpp | 3 ++-
 src/dsl/word/UDP.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 12c2ae9..857845e 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -140,13 +140,14 @@ namespace dsl {
                 // Generate a reaction for the IO system that closes on death
                 const fd_t cfd = fd.release();
 
+                // The descriptor must not be closed while it is still polled, so unbinding IO has to come first
+                IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
                 reaction->unbinders.emplace_back([cfd](const threading::Reaction&) {
                     ::shutdown(cfd, SHUT_RDWR);
                     ::close(cfd);
                 });
 
                 // Bind using the IO system
-                IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
 
                 // Return our handles
                 return std::make_tuple(port, cfd);
diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 04206ec..5b4f64e 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -307,8 +307,9 @@ namespace dsl {
 
                 // Generate a reaction for the IO system that closes on death
                 const fd_t cfd = fd.release();
-                reaction->unbinders.emplace_back([cfd](const threading::Reaction&) { ::close(cfd); });
+                // The descriptor must not be closed while it is still polled, so unbinding IO has to come first
                 IO::bind<DSL>(reaction, cfd, IO::READ | IO::CLOSE);
+                reaction->unbinders.emplace_back([cfd](const threading::Reaction&) { ::close(cfd); });
 
                 // Return our handles and our bound port
                 return std::make_tuple(port, cfd);
-- 
2.43.0


From c25ce58541740c8edeae626d41411bebb000f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:47 +0000
Subject: [PATCH 36/61] fix: Do not run a UDP reaction again with its last
 packet when one arrives which is not for it

A datagram which the reaction does not take, because it was a broadcast for example, left no packet, and as packets are
transient the last one took its place.
---
 src/dsl/word/UDP.hpp | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index 5b4f64e..ac64238 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -28,6 +28,7 @@
 
 #include "../../threading/Reaction.hpp"
 #include "../../util/FileDescriptor.hpp"
+#include "../../util/MergeTransient.hpp"
 #include "../../util/network/get_interfaces.hpp"
 #include "../../util/network/if_number_from_address.hpp"
 #include "../../util/network/resolve.hpp"
@@ -93,6 +94,8 @@ namespace dsl {
                 util::network::sock_t local{};
                 /// The remote address that the packet was received from
                 util::network::sock_t remote{};
+                /// If the socket reported an event, even if there was nothing to receive after all
+                bool event{false};
             };
 
         public:
@@ -110,6 +113,15 @@ namespace dsl {
                 /// The data to be sent in the packet
                 std::vector<uint8_t> payload;
 
+                /// If the socket reported an event which did not bring a packet for this reaction
+                bool rejected{false};
+
+                static Packet rejected_by(const RecvResult& result) {
+                    Packet p{};
+                    p.rejected = result.event;
+                    return p;
+                }
+
                 /**
                  * Casts this packet to a boolean to check if it is valid
                  *
@@ -348,7 +360,9 @@ namespace dsl {
                 // Receive our message
                 const ssize_t received = recvmsg(event.fd, &mh, MSG_DONTWAIT);
                 if (received < 0) {
-                    return {};
+                    RecvResult nothing{};
+                    nothing.event = true;
+                    return nothing;
                 }
 
                 buffer.resize(received);
@@ -391,7 +405,7 @@ namespace dsl {
                     }
                 }
 
-                return RecvResult{true, buffer, local, remote};
+                return RecvResult{true, buffer, local, remote, true};
             }
 
             template <typename DSL>
@@ -431,7 +445,7 @@ namespace dsl {
                     }
                 }
 
-                return {};
+                return Packet::rejected_by(result);
             }
 
             struct Broadcast : IO {
@@ -473,7 +487,7 @@ namespace dsl {
                         }
                     }
 
-                    return {};
+                    return Packet::rejected_by(result);
                 }
             };
 
@@ -508,7 +522,7 @@ namespace dsl {
                         return p;
                     }
 
-                    return {};
+                    return Packet::rejected_by(result);
                 }
             };
         };
@@ -522,6 +536,21 @@ namespace dsl {
 
     }  // namespace trait
 }  // namespace dsl
+
+namespace util {
+
+    template <>
+    struct MergeTransients<dsl::word::UDP::Packet> {
+        static bool merge(dsl::word::UDP::Packet& t, dsl::word::UDP::Packet& d) {
+            // A packet which was not for this reaction must not make it run again with the last one that was
+            if (!d.rejected) {
+                d = t = d ? d : t;
+            }
+            return true;
+        }
+    };
+
+}  // namespace util
 }  // namespace NUClear
 
 #endif  // NUCLEAR_DSL_WORD_UDP_HPP
-- 
2.43.0


From 00200a8c71fc1746da520f87ec5cb738f00eedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 37/61] fix: A TCP reaction which runs without a connection has
 no descriptor

The descriptor of an empty connection was 0, which looks valid, so the reaction ran and was handed the standard input.
---
 src/dsl/word/TCP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/TCP.hpp b/src/dsl/word/TCP.hpp
index 857845e..a131017 100644
--- a/src/dsl/word/TCP.hpp
+++ b/src/dsl/word/TCP.hpp
@@ -72,7 +72,7 @@ namespace dsl {
                 util::network::sock_t remote;
 
                 /// The file descriptor for the connection
-                fd_t fd;
+                fd_t fd{INVALID_SOCKET};
 
                 /**
                  * Casts this packet to a boolean to check if it is valid
-- 
2.43.0


From 34a2f8f5ad247fb84d7883e4ca5d0e9532a6b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 38/61] fix: Recognise multicast addresses in network byte
 order

The interface of the from address was not used for IPv4 multicasts on little endian hosts.
---
 src/dsl/word/emit/UDP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsl/word/emit/UDP.hpp b/src/dsl/word/emit/UDP.hpp
index dbdfb8a..7ce0a1d 100644
--- a/src/dsl/word/emit/UDP.hpp
+++ b/src/dsl/word/emit/UDP.hpp
@@ -69,7 +69,7 @@ namespace dsl {
                     // Resolve our addresses
                     const util::network::sock_t remote = util::network::resolve(to_addr, to_port);
                     const bool multicast =
-                        remote.sock.sa_family == AF_INET    ? ((remote.ipv4.sin_addr.s_addr >> 28) == 0xE)
+                        remote.sock.sa_family == AF_INET    ? ((ntohl(remote.ipv4.sin_addr.s_addr) >> 28) == 0xE)
                         : remote.sock.sa_family == AF_INET6 ? ((remote.ipv6.sin6_addr.s6_addr[0] & 0xFF) == 0xFF)
                                                             : false;
 
-- 
2.43.0


From b57d7132998b1afd4e1fbc30f7abd618d69ae786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:06 +0000
Subject: [PATCH 39/61] fix: Do not run a multicast reaction for groups it has
 not joined

On Linux a socket receives every group that any socket of the machine has joined.
---
 src/dsl/word/UDP.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/dsl/word/UDP.hpp b/src/dsl/word/UDP.hpp
index ac64238..7f2353e 100644
--- a/src/dsl/word/UDP.hpp
+++ b/src/dsl/word/UDP.hpp
@@ -237,6 +237,17 @@ namespace dsl {
                     // Our multicast join request will depend on protocol version
                     if (multicast_target.sock.sa_family == AF_INET) {
 
+#ifdef IP_MULTICAST_ALL
+                        // Only receive the group we join, not every group that anybody on this machine has joined
+                        int no = 0;
+                        if (::setsockopt(fd, IPPROTO_IP, IP_MULTICAST_ALL, reinterpret_cast<char*>(&no), sizeof(no))
+                            < 0) {
+                            throw std::system_error(network_errno,
+                                                    std::system_category(),
+                                                    "Unable to restrict the socket to its multicast group");
+                        }
+#endif
+
                         // Set the multicast address we are listening on and bind address
                         ip_mreq mreq{};
                         mreq.imr_multiaddr = multicast_target.ipv4.sin_addr;
@@ -268,6 +279,17 @@ namespace dsl {
                     }
                     else if (multicast_target.sock.sa_family == AF_INET6) {
 
+#ifdef IPV6_MULTICAST_ALL
+                        // Only receive the group we join, not every group that anybody on this machine has joined
+                        int no = 0;
+                        if (::setsockopt(fd, IPPROTO_IPV6, IPV6_MULTICAST_ALL, reinterpret_cast<char*>(&no), sizeof(no))
+                            < 0) {
+                            throw std::system_error(network_errno,
+                                                    std::system_category(),
+                                                    "Unable to restrict the socket to its multicast group");
+                        }
+#endif
+
                         // Set the multicast address we are listening on
                         ipv6_mreq mreq{};
                         mreq.ipv6mr_multiaddr = multicast_target.ipv6.sin6_addr;
-- 
2.43.0


From fff4d44f8e29442e9c6d04a9522f0416fbde9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 40/61] fix: Ignore network packets which are too short for
 their type

---
 src/extension/network/NUClearNetwork.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 11839da..554baae 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -571,6 +571,17 @@ namespace extension {
                 // This is a real packet! get our header information
                 const PacketHeader& header = *reinterpret_cast<const PacketHeader*>(payload.data());
 
+                // Ignore packets which are too short to hold the fields of their type
+                const size_t minimum_size = header.type == ANNOUNCE            ? sizeof(AnnouncePacket)
+                                            : header.type == DATA              ? sizeof(DataPacket) - 1
+                                            : header.type == DATA_RETRANSMISSION ? sizeof(DataPacket) - 1
+                                            : header.type == ACK               ? sizeof(ACKPacket)
+                                            : header.type == NACK              ? sizeof(NACKPacket)
+                                                                               : sizeof(PacketHeader);
+                if (payload.size() < minimum_size) {
+                    return;
+                }
+
                 // Get the map key for this device
                 auto key = udp_key(address);
 
-- 
2.43.0


From 1c95fca47cf4be46caf103724e033b7f6cd0a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 41/61] fix: Ignore network packets whose number is not within
 their group

---
 src/extension/network/NUClearNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 554baae..c78d3de 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -673,7 +673,7 @@ namespace extension {
 
                         // If the packet is obviously corrupt, drop it and since we didn't ack it it'll be resent if
                         // it's important
-                        if (packet.packet_no > packet.packet_count) {
+                        if (packet.packet_no >= packet.packet_count) {
                             return;
                         }
 
-- 
2.43.0


From b250727d64968e36157b19d0c5d284a9800ec603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 42/61] fix: Read empty datagrams from the network sockets

---
 src/extension/network/NUClearNetwork.cpp | 56 +++++++++++++-----------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index c78d3de..8a6d50d 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -51,23 +51,30 @@ namespace extension {
         namespace {  // Anonymous namespace for internal linkage
 
             /**
-             * Read a single packet from the given udp file descriptor.
+             * Read a single packet from the given udp file descriptor if there is one.
              *
-             * @param fd The file descriptor to read from
+             * @param fd      The file descriptor to read from
+             * @param from    Who the packet was sent from
+             * @param payload The data in the packet
              *
-             * @return The data and who it was sent from
+             * @return True if a packet was read
              */
-            std::pair<util::network::sock_t, std::vector<uint8_t>> read_socket(fd_t fd) {
+            bool read_socket(fd_t fd, util::network::sock_t& from, std::vector<uint8_t>& payload) {
 
-                // Allocate a vector that can hold a datagram
-                std::vector<uint8_t> payload(1500);
+#ifdef _WIN32
+                // There is no MSG_DONTWAIT so ask if there is something to read first
+                unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
+                if (ioctl(fd, FIONREAD, &count) != 0 || count == 0) {
+                    return false;
+                }
+#endif
+
+                // Make room for a datagram
+                payload.resize(1500);
                 iovec iov{};
                 iov.iov_base = reinterpret_cast<char*>(payload.data());
                 iov.iov_len  = static_cast<decltype(iov.iov_len)>(payload.size());
 
-                // Who we are receiving from
-                util::network::sock_t from{};
-
                 // Setup our message header to receive
                 msghdr mh{};
                 mh.msg_name    = &from.sock;
@@ -76,10 +83,12 @@ namespace extension {
                 mh.msg_iovlen  = 1;
 
                 // Now read the data for real
-                const ssize_t received = recvmsg(fd, &mh, 0);
+                const ssize_t received = recvmsg(fd, &mh, MSG_DONTWAIT);
+                if (received < 0) {
+                    return false;
+                }
                 payload.resize(received);
-
-                return {from, std::move(payload)};
+                return true;
             }
 
         }  // namespace
@@ -464,23 +473,18 @@ namespace extension {
                 retransmit();
             }
 
-            // Used for storing how many bytes are available on a socket
-            unsigned long count = 0;  // NOLINT(google-runtime-int) MSVC wants an unsigned long
+            // Used for storing the packets we read and who they are from
+            util::network::sock_t from{};
+            std::vector<uint8_t> payload;
 
-            // Read packets from the multicast socket while there is data available
-            ioctl(announce_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(announce_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(announce_fd, FIONREAD, &(count = 0));
+            // Read packets from the multicast socket while there are any
+            while (read_socket(announce_fd, from, payload)) {
+                process_packet(from, std::move(payload));
             }
 
-            // Check if we have a packet available on the data socket
-            ioctl(data_fd, FIONREAD, &(count = 0));
-            while (count > 0) {
-                auto packet = read_socket(data_fd);
-                process_packet(packet.first, std::move(packet.second));
-                ioctl(data_fd, FIONREAD, &(count = 0));
+            // Read packets from the data socket while there are any
+            while (read_socket(data_fd, from, payload)) {
+                process_packet(from, std::move(payload));
             }
         }
 
-- 
2.43.0


From c4c025315293c042cc5aced2c526d4ea113d5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 43/61] fix: Make room for all the recent packets the index can
 reach

---
 src/extension/network/NUClearNetwork.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e2277af..e983fb4 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -69,7 +69,7 @@ namespace extension {
                 /// When we last received data from the remote target
                 std::chrono::steady_clock::time_point last_update;
                 /// A list of the last n packet groups to be received
-                std::array<int, std::numeric_limits<uint8_t>::max()> recent_packets{};
+                std::array<int, std::numeric_limits<uint8_t>::max() + 1> recent_packets{};
                 /// An index for the recent_packets (circular buffer)
                 std::atomic<uint8_t> recent_packets_index{0};
                 /// Mutex to protect the fragmented packet storage
-- 
2.43.0


From 83e788b9321185bb27cf5999ecb5453701f6488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 44/61] fix: Retransmit the packets a NACK asks for, and no
 others

---
 src/extension/network/NUClearNetwork.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 8a6d50d..5a792f8 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -977,6 +977,9 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
+                            // lock the send queue mutex
+                            const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
+
                             // Check for our packet id in the send queue
                             if (send_queue.count(packet.packet_id) > 0) {
 
@@ -1016,11 +1019,11 @@ namespace extension {
                                     }
 
                                     // Now we have to retransmit the nacked packets
-                                    for (uint16_t i = 0; i < packet.packet_count * 8; ++i) {
+                                    for (uint16_t i = 0; i < packet.packet_count; ++i) {
 
                                         // Check if this packet needs to be sent
                                         const uint8_t bit = 1 << (i % 8);
-                                        if (((&packet.packets)[i] & bit) == bit) {
+                                        if (((&packet.packets)[i / 8] & bit) == bit) {
                                             send_packet(remote->target, queue.header, i, queue.payload, true);
                                         }
                                     }
-- 
2.43.0


From b956e4932650b84314530e95db148e0e83e987e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 45/61] fix: Notice when all of a multiple of eight packets
 have been acknowledged

---
 src/extension/network/NUClearNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 5a792f8..834ed4a 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -945,7 +945,8 @@ namespace extension {
                                         s->acked[i] |= (&packet.packets)[i];
 
                                         // Work out what a "fully acked" packet would look like
-                                        const uint8_t expected = i + 1 < s->acked.size() || packet.packet_count % 8 == 0
+                                        // When the count is a multiple of eight there are no packets in the last byte
+                                        const uint8_t expected = i + 1 < s->acked.size()
                                                                      ? 0xFF
                                                                      : 0xFF >> (8 - (packet.packet_count % 8));
 
-- 
2.43.0


From f5f874d4563c6360b5dad52a5ee090452510df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:22 +0000
Subject: [PATCH 46/61] fix: Do not take packets from the announce address for
 packets from everybody

---
 src/extension/network/NUClearNetwork.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 834ed4a..b7b3883 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -393,7 +393,6 @@ namespace extension {
             auto all_target = std::make_shared<NetworkTarget>("", announce_target);
             targets.push_front(all_target);
             name_target.insert(std::make_pair("", all_target));
-            udp_target.insert(std::make_pair(udp_key(announce_target), all_target));
 
             // Work out our MTU for udp packets
             packet_data_mtu = network_mtu;              // Start with the total mtu
-- 
2.43.0


From 30a9c5e2951c7721b0480746045bfa5276646f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 47/61] fix: Accept any byte as the reliable flag of a network
 packet

---
 src/extension/network/NUClearNetwork.cpp | 16 ++++++++--------
 src/extension/network/wire_protocol.hpp  |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index b7b3883..8b85450 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -697,7 +697,7 @@ namespace extension {
 
                                 // We recently processed this packet, this is just a failed ack
                                 // Send the ack again if it was reliable
-                                if (it != remote->recent_packets.end() && packet.reliable) {
+                                if (it != remote->recent_packets.end() && packet.reliable != 0) {
 
                                     // Allocate room for the whole ack packet
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -736,7 +736,7 @@ namespace extension {
                                                          &packet.data + payload.size() - sizeof(DataPacket) + 1);
 
                                 // If this is a reliable packet, send an ack back
-                                if (packet.reliable) {
+                                if (packet.reliable != 0) {
                                     // This response is easy since there is only one packet
                                     ACKPacket response;
                                     response.packet_id    = packet.packet_id;
@@ -760,7 +760,7 @@ namespace extension {
                                         packet.packet_id;
                                 }
 
-                                packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
+                                packet_callback(*remote, packet.hash, packet.reliable != 0, std::move(out));
                             }
                             else {
                                 const std::lock_guard<std::mutex> lock(remote->assemblers_mutex);
@@ -778,7 +778,7 @@ namespace extension {
                                     // If so, we need to purge our cache and if this was a reliable packet, send a
                                     // NACK back for all the packets we thought we had
                                     // We don't know if we have any packets except the one we just got
-                                    if (packet.reliable) {
+                                    if (packet.reliable != 0) {
 
                                         // A basic ack has room for 8 packets and we need 1 extra byte for each 8
                                         // additional packets
@@ -818,7 +818,7 @@ namespace extension {
                                 assembler.second[packet.packet_no] = std::move(payload);
 
                                 // Create and send our ACK packet if this is a reliable transmission
-                                if (packet.reliable) {
+                                if (packet.reliable != 0) {
                                     // A basic ack has room for 8 packets and we need 1 extra byte for each 8
                                     // additional packets
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -866,10 +866,10 @@ namespace extension {
                                     }
 
                                     // Send our assembled data packet
-                                    packet_callback(*remote, packet.hash, packet.reliable, std::move(out));
+                                    packet_callback(*remote, packet.hash, packet.reliable != 0, std::move(out));
 
                                     // If the packet was reliable add that it was recently received
-                                    if (packet.reliable) {
+                                    if (packet.reliable != 0) {
                                         // Set this packet to have been recently received
                                         remote->recent_packets[remote->recent_packets_index
                                                                    .fetch_add(1, std::memory_order_relaxed)] =
@@ -1097,7 +1097,7 @@ namespace extension {
 
             header.packet_no    = 0;
             header.packet_count = uint16_t((payload.size() / packet_data_mtu) + 1);
-            header.reliable     = reliable;
+            header.reliable     = reliable ? 1 : 0;
             header.hash         = hash;
 
             // If this was a reliable packet we need to cache it in case it needs to be resent
diff --git a/src/extension/network/wire_protocol.hpp b/src/extension/network/wire_protocol.hpp
index 775f54e..983d89f 100644
--- a/src/extension/network/wire_protocol.hpp
+++ b/src/extension/network/wire_protocol.hpp
@@ -78,8 +78,8 @@ namespace extension {
                  uint16_t packet_no{0};
                  // How many packets there are in the group
                  uint16_t packet_count{1};
-                 // If this packet is reliable and should be acked
-                 bool reliable{false};
+                 // If this packet is reliable and should be acked (any byte can arrive, which would not do for a bool)
+                 uint8_t reliable{0};
                  // The 64 bit hash to identify the data type
                  uint64_t hash{0};
                  // The data (access using &data)
-- 
2.43.0


From 47bbdac4b42dd73f15cab3d854bd6f8ed81d9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 48/61] fix: Do not assemble a network message from packets of
 different ones

---
 src/extension/network/NUClearNetwork.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 8b85450..558abbf 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -770,10 +770,14 @@ namespace extension {
 
                                 auto& assembler = assemblers[packet.packet_id];
 
-                                // First check that our cache isn't super corrupted by ensuring that our last packet
-                                // in our list isn't after the number of packets we have
-                                if (!assembler.second.empty()
-                                    && std::next(assembler.second.end(), -1)->first >= packet.packet_count) {
+                                // First check that our cache isn't super corrupted by ensuring that the packets in it
+                                // belong to the same group as this one
+                                const auto same_group = [&packet](const std::vector<uint8_t>& other) {
+                                    const DataPacket& o = *reinterpret_cast<const DataPacket*>(other.data());
+                                    return o.packet_count == packet.packet_count && o.hash == packet.hash
+                                           && o.reliable == packet.reliable;
+                                };
+                                if (!assembler.second.empty() && !same_group(assembler.second.begin()->second)) {
 
                                     // If so, we need to purge our cache and if this was a reliable packet, send a
                                     // NACK back for all the packets we thought we had
@@ -790,7 +794,9 @@ namespace extension {
 
                                         // Set the bits for the packets we thought we received
                                         for (const auto& p : assembler.second) {
-                                            (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            if (p.first < packet.packet_count) {
+                                                (&response.packets)[p.first / 8] |= uint8_t(1 << (p.first % 8));
+                                            }
                                         }
 
                                         // Ensure the bit for this packet isn't NACKed
-- 
2.43.0


From a3af7500a9a57b720ff082ef295b795efab6ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:44 +0000
Subject: [PATCH 49/61] fix: Do not deliver a reliable network message again
 when its packets arrive late or twice

---
 src/extension/network/NUClearNetwork.cpp | 37 +++++++++++++-----------
 src/extension/network/NUClearNetwork.hpp | 14 +++++++++
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 558abbf..878ff8d 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -686,18 +686,25 @@ namespace extension {
                             // We got a packet from them recently
                             remote->last_update = std::chrono::steady_clock::now();
 
-                            // Check if this packet is a retransmission of data
-                            if (header.type == DATA_RETRANSMISSION) {
-
-                                // See if we recently processed this packet
-                                // NOLINTNEXTLINE(readability-qualified-auto) MSVC disagrees
-                                auto it = std::find(remote->recent_packets.begin(),
-                                                    remote->recent_packets.end(),
-                                                    packet.packet_id);
+                            // Check if we already processed this packet if it is reliable. Either our acks did not reach the
+                            // remote and it was retransmitted, or the network delayed or duplicated it.
+                            if (packet.reliable != 0) {
+
+                                // See if we recently processed this packet. As packet ids are used again after a while this
+                                // only considers packets that were seen a short time ago.
+                                const auto now = std::chrono::steady_clock::now();
+                                bool processed = false;
+                                for (size_t i = 0; i < remote->recent_packets.size(); ++i) {
+                                    if (remote->recent_packets[i] == packet.packet_id
+                                        && now - remote->recent_times[i] < std::chrono::seconds(10)) {
+                                        remote->recent_times[i] = now;
+                                        processed               = true;
+                                    }
+                                }
 
-                                // We recently processed this packet, this is just a failed ack
-                                // Send the ack again if it was reliable
-                                if (it != remote->recent_packets.end() && packet.reliable != 0) {
+                                // We recently processed this packet
+                                // Send the ack again
+                                if (processed) {
 
                                     // Allocate room for the whole ack packet
                                     std::vector<uint8_t> r(sizeof(ACKPacket) + (packet.packet_count / 8), 0);
@@ -755,9 +762,7 @@ namespace extension {
                                              to.size());
 
                                     // Set this packet to have been recently received
-                                    remote->recent_packets[remote->recent_packets_index
-                                                               .fetch_add(1, std::memory_order_relaxed)] =
-                                        packet.packet_id;
+                                    remote->add_recent_packet(packet.packet_id);
                                 }
 
                                 packet_callback(*remote, packet.hash, packet.reliable != 0, std::move(out));
@@ -877,9 +882,7 @@ namespace extension {
                                     // If the packet was reliable add that it was recently received
                                     if (packet.reliable != 0) {
                                         // Set this packet to have been recently received
-                                        remote->recent_packets[remote->recent_packets_index
-                                                                   .fetch_add(1, std::memory_order_relaxed)] =
-                                            packet.packet_id;
+                                        remote->add_recent_packet(packet.packet_id);
                                     }
 
                                     // We have completed this packet, discard the data
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e983fb4..e9e5bf2 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -70,8 +70,22 @@ namespace extension {
                 std::chrono::steady_clock::time_point last_update;
                 /// A list of the last n packet groups to be received
                 std::array<int, std::numeric_limits<uint8_t>::max() + 1> recent_packets{};
+                /// When the packet groups in recent_packets were last seen
+                std::array<std::chrono::steady_clock::time_point, std::numeric_limits<uint8_t>::max() + 1> recent_times{};
                 /// An index for the recent_packets (circular buffer)
                 std::atomic<uint8_t> recent_packets_index{0};
+
+                /**
+                 * Remember that a reliable packet group has been processed.
+                 *
+                 * @param packet_id The identifier of the packet group
+                 */
+                void add_recent_packet(const uint16_t& packet_id) {
+                    const auto index      = recent_packets_index.fetch_add(1, std::memory_order_relaxed);
+                    recent_times[index]   = std::chrono::steady_clock::now();
+                    recent_packets[index] = packet_id;
+                }
+
                 /// Mutex to protect the fragmented packet storage
                 std::mutex assemblers_mutex;
                 /// Storage for fragmented packets while we build them
-- 
2.43.0


From 9fcd3eae18da17c0a99ce636e3ba1c6737e4a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:27 +0000
Subject: [PATCH 50/61] fix: Ignore network messages which cannot be
 deserialised

---
 src/extension/NetworkController.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index 56158ee..dc46481 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -25,8 +25,10 @@
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
+#include <exception>
 #include <memory>
 #include <mutex>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -62,6 +64,9 @@ namespace extension {
             // Move the payload in as we are stealing it
             const std::vector<uint8_t> p(std::move(payload));
 
+            // Why a reaction could not read the data
+            std::string error;
+
             /* Mutex Scope */ {
                 // Lock our reaction mutex
                 const std::lock_guard<std::mutex> lock(reaction_mutex);
@@ -75,13 +80,23 @@ namespace extension {
                     dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = &p;
                     dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = &src;
 
-                    powerplant.submit(it->second->get_task());
+                    try {
+                        powerplant.submit(it->second->get_task());
+                    }
+                    catch (const std::exception& ex) {
+                        // The data can come from anywhere, so it might not be what it claims to be
+                        error = ex.what();
+                    }
                 }
 
                 // Clear our cache
                 dsl::store::ThreadStore<const std::vector<uint8_t>>::value     = nullptr;
                 dsl::store::ThreadStore<const dsl::word::NetworkSource>::value = nullptr;
             }
+
+            if (!error.empty()) {
+                log<LogLevel::WARN>("A network message from", remote.name, "could not be read:", error);
+            }
         });
 
         // Set our join callback
-- 
2.43.0


From a604e69680c4de62653d00d4335e24db4495d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 51/61] fix: Do not truncate network packets of more than 1500
 bytes

---
 src/extension/network/NUClearNetwork.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 878ff8d..2d5ae39 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <functional>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <mutex>
 #include <stdexcept>
@@ -54,12 +55,16 @@ namespace extension {
              * Read a single packet from the given udp file descriptor if there is one.
              *
              * @param fd      The file descriptor to read from
+             * @param buffer  The memory to read into
              * @param from    Who the packet was sent from
              * @param payload The data in the packet
              *
              * @return True if a packet was read
              */
-            bool read_socket(fd_t fd, util::network::sock_t& from, std::vector<uint8_t>& payload) {
+            bool read_socket(fd_t fd,
+                             std::array<uint8_t, std::numeric_limits<uint16_t>::max()>& buffer,
+                             util::network::sock_t& from,
+                             std::vector<uint8_t>& payload) {
 
 #ifdef _WIN32
                 // There is no MSG_DONTWAIT so ask if there is something to read first
@@ -69,11 +74,9 @@ namespace extension {
                 }
 #endif
 
-                // Make room for a datagram
-                payload.resize(1500);
                 iovec iov{};
-                iov.iov_base = reinterpret_cast<char*>(payload.data());
-                iov.iov_len  = static_cast<decltype(iov.iov_len)>(payload.size());
+                iov.iov_base = reinterpret_cast<char*>(buffer.data());
+                iov.iov_len  = static_cast<decltype(iov.iov_len)>(buffer.size());
 
                 // Setup our message header to receive
                 msghdr mh{};
@@ -87,7 +90,7 @@ namespace extension {
                 if (received < 0) {
                     return false;
                 }
-                payload.resize(received);
+                payload.assign(buffer.begin(), std::next(buffer.begin(), received));
                 return true;
             }
 
@@ -472,17 +475,18 @@ namespace extension {
                 retransmit();
             }
 
-            // Used for storing the packets we read and who they are from
+            // Used for storing the packets we read and who they are from, other nodes can have a larger MTU than we do
+            std::array<uint8_t, std::numeric_limits<uint16_t>::max()> buffer;  // NOLINT(*-member-init) it is large
             util::network::sock_t from{};
             std::vector<uint8_t> payload;
 
             // Read packets from the multicast socket while there are any
-            while (read_socket(announce_fd, from, payload)) {
+            while (read_socket(announce_fd, buffer, from, payload)) {
                 process_packet(from, std::move(payload));
             }
 
             // Read packets from the data socket while there are any
-            while (read_socket(data_fd, from, payload)) {
+            while (read_socket(data_fd, buffer, from, payload)) {
                 process_packet(from, std::move(payload));
             }
         }
-- 
2.43.0


From e63e79e30b74ed9507484281919ad39ca3d18959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 52/61] fix: Refuse to send network messages of more packets
 than can be counted

---
 src/extension/network/NUClearNetwork.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 2d5ae39..32ea001 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -1097,6 +1097,12 @@ namespace extension {
                 throw std::runtime_error("Cannot send messages as the network is not connected");
             }
 
+            // The number of packets has to fit into the header
+            const size_t packet_count = (payload.size() / packet_data_mtu) + 1;
+            if (packet_count > std::numeric_limits<uint16_t>::max()) {
+                throw std::length_error("Cannot send the message as it is too large");
+            }
+
             // The header for our packet
             DataPacket header;
 
@@ -1109,7 +1115,7 @@ namespace extension {
             }
 
             header.packet_no    = 0;
-            header.packet_count = uint16_t((payload.size() / packet_data_mtu) + 1);
+            header.packet_count = uint16_t(packet_count);
             header.reliable     = reliable ? 1 : 0;
             header.hash         = hash;
 
-- 
2.43.0


From 27cad9b9cd52558c7e9f7e1e1cc9d9f274c8bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:09 +0000
Subject: [PATCH 53/61] fix: Do not complete a network message with packets of
 an old one which had the same id

---
 src/extension/network/NUClearNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 32ea001..9030dd8 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -786,7 +786,15 @@ namespace extension {
                                     return o.packet_count == packet.packet_count && o.hash == packet.hash
                                            && o.reliable == packet.reliable;
                                 };
-                                if (!assembler.second.empty() && !same_group(assembler.second.begin()->second)) {
+                                // Packet ids are used again after a while, so old packets can not be completed any more unless
+                                // they are reliable (in which case their id is in use until they are)
+                                const auto timeout  = std::max<std::chrono::steady_clock::duration>(
+                                    remote->round_trip_time * 10,
+                                    std::chrono::seconds(1));
+                                const bool outdated = packet.reliable == 0
+                                                      && std::chrono::steady_clock::now() > assembler.first + timeout;
+                                if (!assembler.second.empty()
+                                    && (outdated || !same_group(assembler.second.begin()->second))) {
 
                                     // If so, we need to purge our cache and if this was a reliable packet, send a
                                     // NACK back for all the packets we thought we had
-- 
2.43.0


From e69403d215497f4270a92d8968c6219cd477f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:46 +0000
Subject: [PATCH 54/61] fix: Do not forget packets of reliable network messages
 which have been acknowledged

---
 src/extension/network/NUClearNetwork.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 9030dd8..f9dee18 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -907,7 +907,17 @@ namespace extension {
                                     const auto timeout          = remote->round_trip_time * 10.0;
                                     const auto& last_chunk_time = it->second.first;
 
-                                    it = now > last_chunk_time + timeout ? assemblers.erase(it) : std::next(it);
+                                    // The remote was told that we have the packets we did receive of a reliable group, it only
+                                    // sends the other ones again
+                                    const auto& chunks  = it->second.second;
+                                    const bool reliable = !chunks.empty()
+                                                          && reinterpret_cast<const DataPacket*>(
+                                                                 chunks.begin()->second.data())
+                                                                     ->reliable
+                                                                 != 0;
+
+                                    it = !reliable && now > last_chunk_time + timeout ? assemblers.erase(it)
+                                                                                      : std::next(it);
                                 }
                             }
                         }
-- 
2.43.0


From 19265f321de729658de9f215ac2ee3cd861b96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:15 +0000
Subject: [PATCH 55/61] fix: Do not process the network in several threads at a
 time

---
 src/extension/NetworkController.cpp      |  2 +-
 src/extension/network/NUClearNetwork.cpp | 38 +++++++++++++++++++-----
 src/extension/network/NUClearNetwork.hpp |  7 +++++
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index dc46481..f2bbea9 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -152,7 +152,7 @@ namespace extension {
         on<Shutdown>().then("Shutdown Network", [this] { network.shutdown(); });
 
         // Configure the NUClearNetwork options
-        on<Trigger<NetworkConfiguration>>().then([this](const NetworkConfiguration& config) {
+        on<Trigger<NetworkConfiguration>, Sync<NetworkController>>().then([this](const NetworkConfiguration& config) {
             // Unbind our announce handle
             if (process_handle) {
                 process_handle.unbind();
diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index f9dee18..c306093 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -318,6 +318,15 @@ namespace extension {
 
         void NUClearNetwork::shutdown() {
 
+            // Nothing may use the sockets while they are closed
+            const std::lock_guard<std::mutex> process_lock(process_mutex);
+            close_sockets();
+        }
+
+        void NUClearNetwork::close_sockets() {
+
+            const std::lock_guard<std::mutex> target_lock(target_mutex);
+
             // If we have an fd, send a shutdown message
             if (data_fd > 0) {
                 // Make a leave packet from our announce packet
@@ -353,8 +362,11 @@ namespace extension {
                                    const std::string& bind_address,
                                    uint16_t network_mtu) {
 
+            // Nothing may use the network while it changes
+            const std::lock_guard<std::mutex> process_lock(process_mutex);
+
             // Close our existing FDs if they exist
-            shutdown();
+            close_sockets();
 
             // Lock all mutexes
             std::lock(target_mutex, send_queue_mutex);
@@ -425,6 +437,9 @@ namespace extension {
 
         void NUClearNetwork::process() {
 
+            // The timer and the sockets can ask for this at the same time
+            const std::lock_guard<std::mutex> process_lock(process_mutex);
+
             // Record the time
             auto now = std::chrono::steady_clock::now();
 
@@ -435,6 +450,7 @@ namespace extension {
 
                 // Update our event timer
                 auto next_announce = now + std::chrono::milliseconds(500);
+                const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
                 if (next_announce > next_event) {
                     next_event = next_announce;
 
@@ -471,9 +487,7 @@ namespace extension {
             }
 
             // Check if we have packets to resend and if so resend
-            if (!send_queue.empty()) {
-                retransmit();
-            }
+            retransmit();
 
             // Used for storing the packets we read and who they are from, other nodes can have a larger MTU than we do
             std::array<uint8_t, std::numeric_limits<uint16_t>::max()> buffer;  // NOLINT(*-member-init) it is large
@@ -550,6 +564,8 @@ namespace extension {
 
         void NUClearNetwork::announce() {
 
+            const std::lock_guard<std::mutex> target_lock(target_mutex);
+
             // Get all our targets that are global targets
             auto announce_targets = name_target.equal_range("");
             for (auto it = announce_targets.first; it != announce_targets.second; ++it) {
@@ -1110,13 +1126,19 @@ namespace extension {
                                   const std::string& target,
                                   bool reliable) {
 
-            // If we are not connected throw an error
-            if (targets.empty()) {
-                throw std::runtime_error("Cannot send messages as the network is not connected");
+            size_t packet_count = 0;
+            /* Mutex Scope */ {
+                const std::lock_guard<std::mutex> lock(target_mutex);
+
+                // If we are not connected throw an error
+                if (targets.empty()) {
+                    throw std::runtime_error("Cannot send messages as the network is not connected");
+                }
+
+                packet_count = (payload.size() / packet_data_mtu) + 1;
             }
 
             // The number of packets has to fit into the header
-            const size_t packet_count = (payload.size() / packet_data_mtu) + 1;
             if (packet_count > std::numeric_limits<uint16_t>::max()) {
                 throw std::length_error("Cannot send the message as it is too large");
             }
diff --git a/src/extension/network/NUClearNetwork.hpp b/src/extension/network/NUClearNetwork.hpp
index e9e5bf2..76c1e0f 100644
--- a/src/extension/network/NUClearNetwork.hpp
+++ b/src/extension/network/NUClearNetwork.hpp
@@ -259,6 +259,11 @@ namespace extension {
              */
             void open_data(const sock_t& bind_address);
 
+            /**
+             * Tell everybody that we leave, and close our sockets.
+             */
+            void close_sockets();
+
             /**
              * Open our announce udp socket.
              *
@@ -345,6 +350,8 @@ namespace extension {
             /// When the next timed event is due
             std::chrono::steady_clock::time_point next_event{std::chrono::seconds(0)};
 
+            /// A mutex which makes sure that the network is only processed by one thread at a time
+            std::mutex process_mutex;
             /// A mutex to guard modifications to the target lists
             /// NOTE: mutex lock order must always be this order to avoid deadlocks
             std::mutex target_mutex;
-- 
2.43.0


From 9973f8ec27ab71a6bb844e14b0afd9ad6c9140e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:38 +0000
Subject: [PATCH 56/61] fix: Announce a node once it is configured, even when
 nobody else does

---
 src/extension/NetworkController.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/NetworkController.cpp b/src/extension/NetworkController.cpp
index f2bbea9..9be0f06 100644
--- a/src/extension/NetworkController.cpp
+++ b/src/extension/NetworkController.cpp
@@ -178,6 +178,9 @@ namespace extension {
             for (auto& fd : network.listen_fds()) {
                 listen_handles.push_back(on<IO>(fd, IO::READ).then("Packet", [this] { network.process(); }));
             }
+
+            // Announce ourselves now, after this the network asks for its next event itself
+            emit(std::make_unique<ProcessNetwork>());
         });
     }
 
-- 
2.43.0


From 5537085f64bba3ae9c595de8ed888da4a9e0bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:38 +0000
Subject: [PATCH 57/61] fix: Keep announcing after an announcement could not be
 sent

---
 src/extension/network/NUClearNetwork.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index c306093..9a8fd33 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -446,17 +446,20 @@ namespace extension {
             // Check if we should announce now
             if (now - last_announce > std::chrono::milliseconds(500)) {
                 last_announce = now;
-                announce();
 
-                // Update our event timer
-                auto next_announce = now + std::chrono::milliseconds(500);
-                const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
-                if (next_announce > next_event) {
-                    next_event = next_announce;
+                // Update our event timer, before announcing as that fails when there is no network at the moment
+                /* Mutex Scope */ {
+                    auto next_announce = now + std::chrono::milliseconds(500);
+                    const std::lock_guard<std::mutex> send_lock(send_queue_mutex);
+                    if (next_announce > next_event) {
+                        next_event = next_announce;
 
-                    // Let the system know when we need attention again
-                    next_event_callback(next_event);
+                        // Let the system know when we need attention again
+                        next_event_callback(next_event);
+                    }
                 }
+
+                announce();
             }
 
             // We need to make this list outside mutex scope in case the callback needs the mutex
-- 
2.43.0


From 611c01d4b964b907a17f94e7e972663f116c8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:38 +0000
Subject: [PATCH 58/61] fix: Announce when the time for it has come exactly

---
 src/extension/network/NUClearNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index 9a8fd33..d6d2fac 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -444,7 +444,7 @@ namespace extension {
             auto now = std::chrono::steady_clock::now();
 
             // Check if we should announce now
-            if (now - last_announce > std::chrono::milliseconds(500)) {
+            if (now - last_announce >= std::chrono::milliseconds(500)) {
                 last_announce = now;
 
                 // Update our event timer, before announcing as that fails when there is no network at the moment
-- 
2.43.0


From f582878db89d4e115a7f9ef07844c5a8eca1baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 59/61] fix: Tell that the peers have left when the network is
 configured again

---
 src/extension/network/NUClearNetwork.cpp | 32 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/extension/network/NUClearNetwork.cpp b/src/extension/network/NUClearNetwork.cpp
index d6d2fac..0a6e3ea 100644
--- a/src/extension/network/NUClearNetwork.cpp
+++ b/src/extension/network/NUClearNetwork.cpp
@@ -368,17 +368,37 @@ namespace extension {
             // Close our existing FDs if they exist
             close_sockets();
 
+            // We need to make this list outside mutex scope in case the callback needs the mutex
+            std::vector<std::shared_ptr<NetworkTarget>> leavers;
+
+            /* Mutex Scope */ {
+                // Lock all mutexes
+                std::lock(target_mutex, send_queue_mutex);
+                const std::lock_guard<std::mutex> target_lock(target_mutex, std::adopt_lock);
+                const std::lock_guard<std::mutex> send_lock(send_queue_mutex, std::adopt_lock);
+
+                // The first element is the "all" target
+                if (!targets.empty()) {
+                    leavers.assign(std::next(targets.begin(), 1), targets.end());
+                }
+
+                // Clear all our data structures
+                send_queue.clear();
+                name_target.clear();
+                targets.clear();
+                udp_target.clear();
+            }
+
+            // We are not connected to anyone any more
+            for (const auto& l : leavers) {
+                leave_callback(*l);
+            }
+
             // Lock all mutexes
             std::lock(target_mutex, send_queue_mutex);
             const std::lock_guard<std::mutex> target_lock(target_mutex, std::adopt_lock);
             const std::lock_guard<std::mutex> send_lock(send_queue_mutex, std::adopt_lock);
 
-            // Clear all our data structures
-            send_queue.clear();
-            name_target.clear();
-            targets.clear();
-            udp_target.clear();
-
             // Resolve the announce address and port into a sockaddr
             const util::network::sock_t announce_target = util::network::resolve(address, port);
 
-- 
2.43.0


From b32d00bbd91db26f2877620e081295a84ff45f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:38 +0000
Subject: [PATCH 60/61] fix: Sort the watched descriptors when one is older
 than the notifier

---
 src/extension/IOController_Posix.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extension/IOController_Posix.ipp b/src/extension/IOController_Posix.ipp
index 6a9835e..5209a56 100644
--- a/src/extension/IOController_Posix.ipp
+++ b/src/extension/IOController_Posix.ipp
@@ -113,6 +113,9 @@ namespace extension {
             }
         }
 
+        // The list is searched by descriptor, and the one we get notified with can be anywhere among them
+        std::sort(watches.begin(), watches.end(), [](const pollfd& a, const pollfd& b) { return a.fd < b.fd; });
+
         // We just cleaned the list!
         dirty.store(false, std::memory_order_release);
     }
-- 
2.43.0


From 39bde199c44642f43eb2b2ab8a2d48263030c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:02 +0000
Subject: [PATCH 61/61] fix: Discard the tasks which are left over while the
 groups and pools still exist

---
 src/threading/scheduler/Group.cpp     | 5 +++++
 src/threading/scheduler/Group.hpp     | 5 +++++
 src/threading/scheduler/Scheduler.cpp | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 65bc490..7f6e80c 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -129,11 +129,16 @@ namespace threading {
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
         Group::~Group() {
+            discard_waiters();
+        }
+
+        void Group::discard_waiters() {
             // Drain any waiters still parked in the fast-path buckets. WaitEntry holds an
             // ExternalWaiterRegistration that unregisters from the pool on destruction.
             WaitEntry entry;
             for (auto& bucket : wait_buckets) {
                 while (bucket.try_dequeue(entry)) {
+                    waiting.fetch_sub(1, std::memory_order_seq_cst);
                     entry = WaitEntry{};
                 }
             }
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index be665b6..b6e5ecd 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -189,6 +189,11 @@ namespace threading {
              */
             ~Group();
 
+            /**
+             * Destroy the tasks which are waiting in the fast path buckets without running them.
+             */
+            void discard_waiters();
+
             Group(const Group&)            = delete;
             Group(Group&&)                 = delete;
             Group& operator=(const Group&) = delete;
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 5e68315..fbf3df2 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -49,6 +49,15 @@ namespace threading {
         }
 
         Scheduler::~Scheduler() {
+            // Tasks which are left over may hold or wait for group locks, which refer to the groups and to the pools. Discard
+            // them while all of those still exist. The ones which are parked go first so nothing hands them on any more.
+            for (const auto& group : groups) {
+                group.second->discard_waiters();
+            }
+            for (const auto& pool : pools) {
+                pool.second->stop(Pool::StopType::FORCE);
+            }
+
             // The constructor installed a non-owning pointer to the main thread pool in this thread's
             // Pool::current_pool. Our pools are about to be destroyed, so leave no dangling pointer behind for
             // any later Pool::current() call on this thread (shared_from_this() on a destroyed pool is undefined
-- 
2.43.0

