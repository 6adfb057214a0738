From 6016d20e97a42ea79cfcf7b42efd552ad6e36dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 01/47] fix: the worker started first after a restore is the
 one due next

With an offset, the logical worker id was computed as id - offset instead of
id + offset, so with three or more workers the restored loader started with the
wrong worker and delivered the samples in a different order.
---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From d861733ab4d9ca22a7a2db42f59b2820c5b5b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 02/47] fix: saving before a worker emitted a sample does not
 lose its first sample

The counter of the last emitted sample started at 0, so a worker that had not
emitted anything was resumed after its first sample. Checkpoints which are still
needed for samples in the queues are kept, also when the final one is stored.
---
 src/megatron/energon/savable_loader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..08a9836 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -453,7 +453,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # Only drop checkpoints no longer needed for samples still in the intermediate queues
+            while (
+                len(self._last_checkpoints) > self.n_checkpoints
+                and self._last_checkpoints[1].sample_index + self.checkpoint_every_min_n_samples
+                <= self._sample_index
+            ):
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
@@ -731,7 +736,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # No sample was emitted yet, i.e. the next sample index is 0 for all workers
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
-- 
2.43.0


From 9894f61960e930276335b8f0052e4cafea7cd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 03/47] fix: restoring from a source rank reaches the scatter
 on all ranks

Ranks other than the source pass no state, so they skipped the collective scatter
and the source rank waited for them forever.
---
 src/megatron/energon/savable_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 08a9836..c640a75 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -994,7 +994,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            and (isinstance(state, list) or src_rank is not None)
         ):
             if src_rank is None:
                 # All ranks have the state
-- 
2.43.0


From fef0b26006da83cbfffc13fdb5a9e7ba941e546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 04/47] fix: worker commands wait for the state restore and the
 final checkpoint

The command thread was started before the lock was taken, so a checkpoint request
could be answered before the saved state was restored. The final checkpoint was
stored after the lock was released, i.e. while a command may read the list.
---
 src/megatron/energon/savable_loader.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index c640a75..fe2ff7e 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -358,17 +358,19 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         if self._cmd_thread is None:
             self._running = True
             self._command_lock = threading.RLock()
-            weakref_self = weakref.proxy(self)
-            self._cmd_thread = threading.Thread(
-                target=SavableDatasetWrapper._command_thread,
-                name="command_thread",
-                args=(weakref_self,),
-                daemon=True,
-            )
-            self._cmd_thread.start()
-            # atexit.register(lambda: weakref_self.__del__())
         try:
             with self._command_lock:
+                # Start the thread while locked, such that commands wait for the state restore
+                if self._cmd_thread is None:
+                    weakref_self = weakref.proxy(self)
+                    self._cmd_thread = threading.Thread(
+                        target=SavableDatasetWrapper._command_thread,
+                        name="command_thread",
+                        args=(weakref_self,),
+                        daemon=True,
+                    )
+                    self._cmd_thread.start()
+                    # atexit.register(lambda: weakref_self.__del__())
                 if self._restore_from:
                     self._restore_state(self._restore_from)
                     self._restore_from = None
@@ -423,7 +425,8 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         finally:
             # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
             # Always store a final checkpoint (it's likely to be saved)
-            self._store_checkpoint(force=True)
+            with self._command_lock:
+                self._store_checkpoint(force=True)
 
     def _store_checkpoint(self, force: bool = False) -> None:
         """
-- 
2.43.0


From 01c3c11c6c28e993ee2da117c91ec6121456280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 05/47] fix: keep the sample index when saving a loader without
 workers

The sample number (part of the restore keys and of the number user code sees) was
not part of the state, so it started at 0 again after a restore.
---
 src/megatron/energon/savable_loader.py | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index fe2ff7e..9cec2b5 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,33 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]) -> None:
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From db71fc1230cc7ab6812677b0a026c430f91ec59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 06/47] fix: restoring a loader re-establishes its own position

After a restore, the last emitted sample numbers and the next worker were still
those of a new loader, so saving again before every worker had emitted a sample
failed or lost samples, and saving before iterating returned the initial state.
Restoring no state now resets the loader, and the passed state is left unchanged
while iterating.
---
 src/megatron/energon/savable_loader.py | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 9cec2b5..5e7a7cd 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2024, NVIDIA CORPORATION.
 # SPDX-License-Identifier: BSD-3-Clause
 
+import copy
 import gc
 import multiprocessing
 import queue
@@ -709,6 +710,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     _global_sample_idx: int = 0
     #: Current iterator index of the last yielded sample
     _sample_idx: int = 0
+    #: The state that was restored, as long as no worker was started
+    _restored_state: Optional["SavableDataLoaderState"] = None
 
     def __init__(
         self,
@@ -920,8 +923,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial state or the restored state
+            return copy.deepcopy(self._restored_state)
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -945,16 +948,35 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             state: The state to restore, as saved by `save_state_rank`.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
+        # The datasets continue to use (and change) the restored lists, keep the passed state as is
+        state = copy.deepcopy(state)
         if state is None:
-            # Assume initial state
-            return
-        assert isinstance(state, SavableDataLoaderState)
-        if isinstance(self.dataset, SavableDataset):
-            self.dataset.restore_state(state.dataset_state)
+            # Reset to initial state
+            if isinstance(self.dataset, SavableDataset):
+                self.dataset.restore_state(None)
+            else:
+                self.dataset.restore_checkpoint(None, worker_offset=0)
+            self._next_worker_id = 0
+            self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
         else:
-            assert isinstance(self.dataset, SavableDatasetWrapper)
-            assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
-            self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            assert isinstance(state, SavableDataLoaderState)
+            if isinstance(self.dataset, SavableDataset):
+                self.dataset.restore_state(state.dataset_state)
+            else:
+                assert isinstance(self.dataset, SavableDatasetWrapper)
+                assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
+                self.dataset.restore_checkpoint(
+                    state.dataset_state, worker_offset=state.next_worker_id
+                )
+                # The last emitted sample of each worker is right before where it continues
+                self._worker_sample_counters = [
+                    sample_index + offset - 1
+                    for sample_index, offset in zip(
+                        state.dataset_state.state.sample_index, state.dataset_state.offset
+                    )
+                ]
+            self._next_worker_id = state.next_worker_id
+        self._restored_state = copy.deepcopy(state)
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 1667db8046ecde96428818db38699d77cc4f04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 07/47] fix: restoring GroupBatchDataset keeps the buckets of
 each worker

The own worker got an empty buffer and all others got its samples.
---
 src/megatron/energon/wrappers/group_batch_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..661aa75 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -272,9 +272,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        bucket_state.samples.buffer
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From de85e1ef23709a4f92503074f3830f69134e7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 08/47] fix: resetting GroupBatchDataset resets its sample
 indices

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 661aa75..1117873 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
-- 
2.43.0


From 987eb976f3d0cc51bddd4dcb2aed01b114feca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 09/47] fix: an idle worker has no pre-packed groups in the
 merged packing state

---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..f548dc2 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 3ddf8de29f82e693175b1d0443c2d2f487b86df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 10/47] fix: restoring EpochizeDataset drops the iterator of
 the previous state

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..0ce4c42 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # An iterator over the inner dataset from before the restore must not be continued
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From 436e15512d26f3e592b4ca1f1c8488c53c51fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 11/47] fix: resetting a WorkerRng returns to its initial seed

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..7e087e4 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -110,6 +110,8 @@ class WorkerRng:
         return WorkerRngMergedState(rng=[None if s is None else s.rng for s in states])
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
+        # The generator is re-created on the next use, either restored or seeded anew
+        self._rng = None
         if state is None:
             self._restore_states = None
         else:
-- 
2.43.0


From bdd2653e6e7ac6d6c67a92df5a3a9a888ea6a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 12/47] fix: a generator resumed from a state keeps its sample
 number

current_idx is the number of the next sample, the generator was started under
the one before.
---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 src/megatron/energon/wrappers/map_dataset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..42ae597 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,7 +135,7 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
+            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
                 batch_sample = self.batcher(batch)
             assert isinstance(batch_sample, Generator)
             assert inspect.isgeneratorfunction(
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..f8237a8 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -112,7 +112,7 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
             # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
+            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
                 mapped_sample = self.map_fn(sample)
             assert isinstance(mapped_sample, Generator)
             assert inspect.isgeneratorfunction(
-- 
2.43.0


From 7c1b89bf2a9e4df327e8a245e10fe23a405f3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 13/47] fix: restore keys of a skipped or failed batch do not
 leak into the next one

The list of keys was kept on skip or error, and clearing it also emptied the
list in an already saved generator state.
---
 src/megatron/energon/wrappers/batch_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 42ae597..d70d274 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -187,7 +187,6 @@ class BatchDataset(
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
@@ -201,6 +200,8 @@ class BatchDataset(
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
+                # A saved state may refer to the previous list
+                sample_restore_keys = []
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
 
-- 
2.43.0


From 0c4a7cd69bd9e433f5ff260aa742b624ea99a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 14/47] fix: a skipped or failed generator is not resumed, a
 resumed one may skip or fail

After a skip or an error the saved state still pointed into the dropped
generator. Skips and errors raised while resuming one stopped the iteration.
---
 .../energon/wrappers/batch_dataset.py         | 56 +++++++++++--------
 src/megatron/energon/wrappers/map_dataset.py  | 54 ++++++++++--------
 2 files changed, 65 insertions(+), 45 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index d70d274..11f2db2 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,37 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -188,10 +195,13 @@ class BatchDataset(
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
             except SkipSample:
-                pass
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
                 self.error_handler(e, batch)
 
         for sample in self.dataset:
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index f8237a8..32f9077 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,34 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                self._generator_offsets[worker_id] = 0
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -166,10 +173,13 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                         src=self,
                     )
             except SkipSample:
-                pass
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
             except SYSTEM_EXCEPTIONS as e:
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
+                self._generator_sample_keys[worker_id] = None
+                self._generator_offsets[worker_id] = None
                 self.error_handler(e, sample)
 
     def save_state(self) -> MapState:
-- 
2.43.0


From bf82e96de18db00d6f2e260273ab5151ce3212ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 15/47] fix: IterMapDataset restore keys and skips

A sample yielded as a further one from the same input lost the input's restore
key, the keys of failed inputs leaked into the next sample, and SkipSample was
given to the error handler.
---
 src/megatron/energon/wrappers/iter_map_dataset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..9c5dfdc 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -29,6 +29,7 @@ from megatron.energon.wrappers.base import (
     SampleIndex,
     get_sample_restore_key,
 )
+from megatron.energon.wrappers.skip import SkipSample
 
 T_sample = TypeVar("T_sample")
 T_sample_out = TypeVar("T_sample_out")
@@ -116,6 +117,9 @@ class IterMapDataset(
             # Resets the inner sample index
             nonlocal iter_idx, sample_restore_keys
             for entry in last_sample_wrapper:
+                if iter_idx > 0:
+                    # All samples of the previous entries were yielded
+                    sample_restore_keys.clear()
                 iter_idx = 0
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
@@ -134,11 +138,13 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
+            except SkipSample:
+                sample_restore_keys.clear()
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                sample_restore_keys.clear()
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From cf84c6b84d01ff535fdef8b2a55b7289a31bc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 16/47] fix: a state saved within a repeat of RepeatDataset
 completes that repeat

The repeat was counted when it started, so one repeat was lost after a restore.
The count also starts over once all repeats are done.
---
 src/megatron/energon/wrappers/repeat_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..8857576 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
                 for sample in self.dataset:
                     yield sample
+                # Only count completed repeats, such that a state saved within one completes it
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 1b17268314615b0ad544f4b6a0ead5bd76443823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 17/47] fix: BatchDataset length counts the incomplete batch of
 the longer workers

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 11f2db2..747a5fd 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 1e0cd1cbe039cdb712e6f594dec8b9aaa67c3197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 18/47] fix: a filter function can skip a sample, its system
 errors are fatal

SkipSample raised by the filter function stopped the iteration.
---
 src/megatron/energon/wrappers/filter_dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/filter_dataset.py b/src/megatron/energon/wrappers/filter_dataset.py
index 7f595e1..66d2592 100644
--- a/src/megatron/energon/wrappers/filter_dataset.py
+++ b/src/megatron/energon/wrappers/filter_dataset.py
@@ -4,6 +4,7 @@
 from dataclasses import dataclass
 from typing import Any, Callable, Dict, Generic, Iterator, List, Optional, Tuple, TypeVar, Union
 
+from megatron.energon.errors import SYSTEM_EXCEPTIONS, FatalSampleError
 from megatron.energon.flavors.base_dataset import SavableDataset
 from megatron.energon.worker import WorkerConfig
 from megatron.energon.wrappers.base import (
@@ -12,6 +13,7 @@ from megatron.energon.wrappers.base import (
     BaseSingleWrapperState,
     SampleIndex,
 )
+from megatron.energon.wrappers.skip import SkipSample
 
 T_sample = TypeVar("T_sample")
 
@@ -62,8 +64,13 @@ class FilterDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
 
     def __iter__(self) -> Iterator[T_sample]:
         for sample in self.dataset:
-            with self._sample_index.ctx():
-                filter_res = self.filter_fn(sample)
+            try:
+                with self._sample_index.ctx():
+                    filter_res = self.filter_fn(sample)
+            except SkipSample:
+                continue
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
             if filter_res:
                 yield sample
 
-- 
2.43.0


From d082d99184fda0db5d790f286ae6f1f238c23b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 19/47] fix: a WorkerConfig is not equal to objects of other
 types

---
 src/megatron/energon/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index d1f6aed..d05ebb6 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -126,7 +126,7 @@ class WorkerConfig:
     def __eq__(self, other):
         """Do not compare everything to check for equal config"""
         if not isinstance(other, WorkerConfig):
-            return NotImplementedError()
+            return NotImplemented
         return all(
             [
                 self.rank == other.rank,
-- 
2.43.0


From b79b8364e74a2eff399bcdc8fb0d9b26f8c6f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 20/47] fix: the config of GroupBatchDataset includes the fixed
 batch size

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1117873..54bf7cd 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -307,6 +307,7 @@ class GroupBatchDataset(
     def config(self) -> Dict[str, Any]:
         return {
             "type": type(self).__qualname__,
+            "fixed_batch_size": self.fixed_batch_size,
             "bucket": self._function_config(self.sample_group_key),
             "batcher": self._function_config(self.batcher),
             **(
-- 
2.43.0


From 7083772f8be9e96161617ee78ef2f1249662fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 21/47] fix: seed stateless functions for the worker that is
 active

The seed of the first worker was kept for all workers and worker configs the
process ever used, e.g. when restoring samples of different workers.
---
 src/megatron/energon/task_encoder/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..3079322 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,10 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +182,7 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From c37bc6c57e5dd9d713468a6c05203b3f0361c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 22/47] fix: retrying reads return every byte once

Short reads were returned incompletely or read too much, failing opens raised
an AttributeError, and a failed seek left the file at its old position.
---
 src/megatron/energon/retry_stream.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..5cc67d5 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -41,18 +41,18 @@ class RetryReadStream(BinaryIO):
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
-                self._pos += len(res)
-                buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                while True:
+                    res = self._file.read(n if n < 0 else n - len(buf))
+                    self._pos += len(res)
+                    buf += res
+                    if len(buf) == n or self._pos >= self._size:
+                        return buf
+                    if len(res) == 0:
+                        raise IOError(f"Premature end of stream at {self._pos} of {self._size}")
             except IOError:
                 try:
-                    self._file.close()
+                    if self._file is not None:
+                        self._file.close()
                 except IOError:
                     pass
                 self._file = None
@@ -75,7 +75,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # Reopen at the new position for the next read
+            self._file = None
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From 3a5981a53191006c142e359360d2cb06b840a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 23/47] fix: samples of joined datasets can be restored

The key had a level of the joining factory, which the sample loader does not
know.
---
 .../flavors/webdataset/joined_webdataset.py   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..d42ed12 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -22,7 +22,6 @@ from megatron.energon.flavors.base_dataset import (
     BaseCoreDatasetFactory,
     Sample,
     SavableDataset,
-    set_sample_restore_key,
 )
 from megatron.energon.flavors.webdataset.base_webdataset import BaseWebdatasetFactory
 from megatron.energon.flavors.webdataset.error_handler import ErrorHandler
@@ -218,6 +217,8 @@ class JoinedWebdatasetFactory(
     def load_sample(self, samples: Tuple[Optional[FilteredSample], ...]) -> T_sample:
         assert len(samples) > 0 and samples[0] is not None, "Always need primary sample"
         # Combine the restore key. This must be in accordance to the ShardReader's restore unpacking
+        # It starts with the id of the (one) sample loader dataset. The inner datasets do not have
+        # an own level, and neither does this factory.
         restore_key = [
             *samples[0]["__restore_key__"],
         ]
@@ -234,12 +235,16 @@ class JoinedWebdatasetFactory(
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-        return set_sample_restore_key(
-            self._sample_joiner(*loaded_samples),
-            *restore_key,
-            src=self,
-            fail_otherwise=True,
-        )
+        joined_sample = self._sample_joiner(*loaded_samples)
+        if isinstance(joined_sample, dict) and "__restore_key__" in joined_sample:
+            joined_sample["__restore_key__"] = tuple(restore_key)
+        elif hasattr(joined_sample, "__restore_key__"):
+            joined_sample.__restore_key__ = tuple(restore_key)
+        else:
+            raise RuntimeError(
+                "Did not yield a sample with a restore key, but is marked stateless/deterministic."
+            )
+        return joined_sample
 
     def config(self) -> Dict[str, Any]:
         return dict(
-- 
2.43.0


From 6eabd43ecbaf9b8cdd40ff6c6cc2b4c23c617426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 24/47] fix: restore keys behind an excluded sample point to
 the right sample

Excluded samples were not counted for the offset within the shard.
---
 .../energon/flavors/webdataset/single_shard_reader.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..c4a0f03 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -135,10 +135,14 @@ class SingleShardReader:
             m = split_name_re.match(fname)
             if not m:
                 continue
+            last_base_name = self._cur_base_name
             self._cur_base_name, self._cur_ext = m.groups()
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
+                if self._cur_base_name != last_base_name:
+                    # The excluded sample still counts for the offset of the following ones
+                    self.shard_state.offset += 1
                 continue
             return
 
-- 
2.43.0


From 8c3d862840f997b6f09ff97f795c80a41afd5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 25/47] fix: the order of excludes in the config does not
 depend on the hash seed

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..70ea746 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -774,7 +774,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 for shards in self.shards
             ],
             "worker_config": self.worker_config.config(),
-            "exclude": list(self.exclude),
+            "exclude": sorted(self.exclude),
             "loop": self.loop,
             "shuffle_over_epochs": self.shuffle_over_epochs,
             "parallel_shard_iters": self.parallel_shard_iters,
-- 
2.43.0


From 2368fd134479d207384e6dd1da84e14a3b103199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 26/47] fix: close the opened column shards if opening a
 further one fails

---
 .../flavors/webdataset/sample_loader.py       | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 70ea746..315d97a 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -204,21 +204,20 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
         The first shard is assumed to be the primary shard (giving the keys of the samples), while the
         other shards are the extra column shards, possibly overwriting columns.
         """
-        ctx = contextlib.ExitStack()
-        readers = [
-            ctx.enter_context(
-                SingleShardReader(
-                    self.worker_config,
-                    self.exclude,
-                    shard_state,
-                    self.part_filter,
-                    self.handler,
+        with contextlib.ExitStack() as ctx:
+            readers = [
+                ctx.enter_context(
+                    SingleShardReader(
+                        self.worker_config,
+                        self.exclude,
+                        shard_state,
+                        self.part_filter,
+                        self.handler,
+                    )
                 )
-            )
-            for shard_state in shard_states
-        ]
-        groups: List[Optional[FilteredSample]] = [None] * len(readers)
-        with ctx:
+                for shard_state in shard_states
+            ]
+            groups: List[Optional[FilteredSample]] = [None] * len(readers)
             while True:
                 try:
                     group_name, groups[0] = readers[0].read_next()
-- 
2.43.0


From d2cd2d3e3ddd32838aa72bc9911696de038f9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 27/47] fix: do not join a sample with the column of a previous
 one

If reading an extra column failed and the handler ignored that, the group read
before was joined.
---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 315d97a..e2e636c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -240,6 +240,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    failed = False
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -260,8 +261,11 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                                 f"{reader.shard_state.shard.path}"
                             )
                         except Exception as e:
+                            failed = True
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                    # The group of a failed column still is the one of a previous sample
+                    if not failed:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From 5d39cd0742190c0f3fddf83f9133e0a945d5b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 28/47] fix: a stateless batch function is restorable for
 grouped batches, too

---
 src/megatron/energon/task_encoder/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 3079322..3469b34 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -396,6 +396,7 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
-- 
2.43.0


From 732ecdc122c3ddad6864974f4156b61fb2f465a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 29/47] fix: apply the shuffle over epochs multiplier of a
 joined metadataset

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..05cd287 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -161,7 +161,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
+            * self.shuffle_over_epochs_multiplier,
             **kwargs,
         )
 
-- 
2.43.0


From c2c67689734cfec677fe570b0ecd7f0f1e1923b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 30/47] fix: a joined dataset's own split config is used

The default of the surrounding join always replaced it.
---
 src/megatron/energon/metadataset/metadataset_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 05cd287..0d00c73 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -116,7 +116,7 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From 19e246cac1118af6e4a6d3b6b884c8eadfea9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 31/47] fix: a raw list becomes a tuple for fixed size tuples

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..8a8b705 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 222599f65f00460d5c5d73bb53400ec67e0f3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 32/47] fix: only types with __dash_keys__ accept keys with
 dashes

---
 src/megatron/energon/typed_converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 8a8b705..4cdd0f3 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -295,7 +295,7 @@ def raw_to_typed(  # noqa: C901
                 _path,
                 _stage,
             )
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             raw_data = {key.replace("-", "_"): val for key, val in raw_data.items()}
         defaults = getattr(inst_type, "_field_defaults", {})
         kwargs = {
@@ -847,7 +847,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         kwargs = {
             field_name: (
@@ -904,7 +904,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         kwargs = {
             field.name: (
@@ -1057,7 +1057,7 @@ def override(  # noqa: C901
                 _stage,
             )
         local_overrides = _split_dict_keys(overrides)
-        if getattr(inst_type, "__dash_keys__", "False"):
+        if getattr(inst_type, "__dash_keys__", False):
             local_overrides = {key.replace("-", "_"): val for key, val in local_overrides.items()}
         res = {
             key: (
-- 
2.43.0


From fece208d32c2b6ef2ee52f2a19291f6820e579a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 33/47] fix: positional arguments given as a list keep their
 order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 4cdd0f3..12e33d8 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From 6bd357ddc6143300e513c956a9b96c64852ec48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 34/47] fix: restore keys of blended datasets count the
 datasets without samples

---
 src/megatron/energon/wrappers/blend_dataset.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..e904344 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,10 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        ds_indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (ds_idx, dataset, weight)
+                for ds_idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -90,9 +90,10 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         probs = weights / weights.sum()
 
         while True:
-            ds_idx = self._worker_rng.choice_idx(probs=probs)
-            sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            iter_idx = self._worker_rng.choice_idx(probs=probs)
+            sample = next(dataset_iters[iter_idx])
+            # The key refers to all datasets, not only to those with samples
+            yield add_sample_restore_key(sample, ds_indexes[iter_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From 665830c5f6c0eac9ce670443593266866950ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 35/47] fix: ConcatDataset saves and restores which inner
 dataset it is iterating

---
 .../energon/wrappers/concat_dataset.py        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..d8e191b 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the inner dataset the worker is currently iterating
+    dataset_idx: int
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the inner dataset each worker is currently iterating
+    dataset_idx: List[int]
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -36,6 +40,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
 
     datasets: Tuple[SavableDataset[T_sample], ...]
+    _dataset_idx: List[int]
 
     def __init__(
         self,
@@ -46,18 +51,24 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
         assert len(self) >= 0, "Datasets must be finite."
+        self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        while self._dataset_idx[worker_idx] < len(self.datasets):
+            ds_idx = self._dataset_idx[worker_idx]
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+            self._dataset_idx[worker_idx] = ds_idx + 1
+        # Start over with the first dataset in the next epoch
+        self._dataset_idx[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +76,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            dataset_idx=self._dataset_idx[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,17 +89,20 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            dataset_idx=[0 if s is None else s.dataset_idx for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
+            self._dataset_idx = list(state.dataset_idx)
 
     def can_restore_sample(self) -> bool:
         return all(dataset.can_restore_sample() for dataset in self.datasets)
-- 
2.43.0


From 443ad910806d0e4242cc943f9b8e23ef6597997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 36/47] fix: a seeded generator function that cannot be called
 leaves the random state alone

---
 src/megatron/energon/task_encoder/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 3469b34..ef9881f 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -138,16 +138,16 @@ def stateless(
         def seed_wrapper_generator(self, *args, **kwargs):
             worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
+            # Constructing the generator runs none of its code yet, but may fail
+            it = iter(fn(self, *args, **kwargs))
+
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
 
-            # Before constructing the generator and before the first
-            # iteration, set inner RNG based on seed computed
-            # from worker_seed and current sample index
+            # Before the first iteration, set inner RNG based on seed
+            # computed from worker_seed and current sample index
             SystemRng.seed_args(worker_seed, self.current_sample_index)
 
-            it = iter(fn(self, *args, **kwargs))
-
             inner_rand_state = None
 
             while True:
-- 
2.43.0


From b34259c3cd6ecb622338f1d18326d980b604d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 37/47] fix: a shard whose index could not be completed is
 skipped when preparing

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..4c1a963 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -96,8 +96,9 @@ class WebdatasetPreparator:
                             iw.append(member.offset)
                             last_base_name = base_name
                             count += 1
-                    shard_info.count = count
                     iw.append(tar.offset)
+            # Only count the samples if the index was written completely
+            shard_info.count = count
             return shard_info, parts
         except BaseException:
             logger.exception(f"Shard failed to load: {path!r}. Skipping it.")
-- 
2.43.0


From 687b9a2ee3d5a3311b73434c2ea2a57724fadb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 38/47] fix: report the sample loader and the part filter in
 the configuration of a webdataset

---
 .../flavors/webdataset/default_generic_webdataset.py   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
index 6954c6b..021d06f 100644
--- a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
@@ -49,6 +49,7 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
         assert (field_map is None) != (
             sample_loader is None
         ), "Either field_map or sample_loader must be provided."
+        self._part_filter_config = {}
         if sample_loader is not None:
             assert (
                 part_filter is not None
@@ -63,6 +64,7 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
                 sample_loader = sample_loader
             if isinstance(part_filter, list):
                 parts = set(part_filter)
+                self._part_filter_config = {"part_filter": sorted(parts)}
                 part_filter = lambda part: part in parts
             elif isinstance(part_filter, str):
                 part_filter = module_loader.get_function(
@@ -70,6 +72,10 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
                 )
             else:
                 assert callable(part_filter)
+            if not self._part_filter_config:
+                self._part_filter_config = {
+                    "part_filter": SavableDataset._function_config(part_filter)
+                }
             self._sample_loader = sample_loader
         else:
             assert field_map is not None
@@ -92,6 +98,7 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
             parts = set(access[0] for options in fields.values() for access in options)
             part_filter = lambda part: part in parts
         inner_sample_loader = self._sample_loader
+        self._inner_sample_loader = inner_sample_loader
         self._sample_loader = lambda sample: {
             "__key__": sample["__key__"],
             **inner_sample_loader(sample),
@@ -111,5 +118,6 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
             **super().config(),
             subflavor=self.subflavor,
             subflavors=self.subflavors,
-            sample_loader=SavableDataset._function_config(self._sample_loader),
+            sample_loader=SavableDataset._function_config(self._inner_sample_loader),
+            **self._part_filter_config,
         )
-- 
2.43.0


From 044415532c1667fdfd1cae8b6554fd268f8d3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 39/47] fix: report the joiner in the configuration of a joined
 webdataset

---
 src/megatron/energon/flavors/webdataset/joined_webdataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index d42ed12..e2c3c0e 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -250,6 +250,9 @@ class JoinedWebdatasetFactory(
         return dict(
             type=type(self).__qualname__,
             joined_datasets=[dataset.config() for dataset in self.inner_datasets],
+            joined_keys=self.inner_dataset_keys,
+            joiner=SavableDataset._function_config(self.__sample_type__),
+            join_method=self.join_method,
             training=self.training,
             shuffle_over_epochs=self.shuffle_over_epochs,
             parallel_shard_iters=self.parallel_shard_iters,
-- 
2.43.0


From febd19f6bf17fded5774692b0423f4ff850ff091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 40/47] fix: report disabled decoding in the configuration of a
 webdataset

---
 .../energon/flavors/webdataset/default_decoder_webdataset.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
index 620eabd..a0bc2bc 100644
--- a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
@@ -110,6 +110,7 @@ class DefaultDecoderWebdatasetFactory(DefaultGenericWebdatasetFactory[T_sample],
     def config(self) -> Dict[str, Any]:
         return dict(
             **super().config(),
-            image_decode=self.image_decode,
+            # Samples are only decoded if auto decoding is enabled
+            image_decode=self.image_decode if self._decoder is not None else None,
             ignore_decoder_errors=self.ignore_decoder_errors,
         )
-- 
2.43.0


From 3ff51bf54892405e04c1f51a6b5953442e2cfd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 41/47] fix: report the part filter of joined datasets and
 whether iteration functions are stateless

---
 src/megatron/energon/flavors/webdataset/joined_webdataset.py | 5 +++++
 src/megatron/energon/wrappers/iter_map_dataset.py            | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index e2c3c0e..30581de 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -253,6 +253,11 @@ class JoinedWebdatasetFactory(
             joined_keys=self.inner_dataset_keys,
             joiner=SavableDataset._function_config(self.__sample_type__),
             join_method=self.join_method,
+            part_filter=(
+                SavableDataset._function_config(self.part_filter)
+                if self.part_filter is not None
+                else None
+            ),
             training=self.training,
             shuffle_over_epochs=self.shuffle_over_epochs,
             parallel_shard_iters=self.parallel_shard_iters,
diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 9c5dfdc..f31c3ee 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -231,6 +231,7 @@ class IterMapDataset(
                 if self.iter_map_fn_config
                 else {}
             ),
+            "iter_map_fn_stateless": self.stateless_iter_fn,
             "len_map_fn": self._function_config(self.len_map_fn),
             "error_handler": self._function_config(self.error_handler),
         }
-- 
2.43.0


From c05310d8487e6526aa7d5126c8dec2377be9e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 42/47] fix: nested shuffle_over_epochs_multiplier of -1
 (infinite) must stay infinite

Multiplying two -1 gave 1 (shuffle over a single epoch) and -1 with any other
factor gave an invalid negative number.
---
 .../energon/metadataset/loader_interface.py       |  8 ++++++++
 src/megatron/energon/metadataset/metadataset.py   | 10 +++++++---
 .../energon/metadataset/metadataset_v2.py         | 15 ++++++++++-----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..612d53a 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,14 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def multiply_shuffle_over_epochs(outer: int, inner: int) -> int:
+    """Multiplies two (nested) numbers of epochs to shuffle over. If either is infinite (-1), the
+    result is infinite (-1)."""
+    if outer == -1 or inner == -1:
+        return -1
+    return outer * inner
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..0120b34 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,10 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 0d00c73..30e481a 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,10 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import (
+    DatasetLoaderInterface,
+    multiply_shuffle_over_epochs,
+)
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +74,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
@@ -161,8 +165,9 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_shuffle_over_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From 563861a272cfc1a2c832766a8d82855015609880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 43/47] fix: close the file when a seek of the retry stream
 fails

The file was dropped for being reopened at the new position, but never closed.
---
 src/megatron/energon/retry_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 5cc67d5..388ed50 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -76,6 +76,10 @@ class RetryReadStream(BinaryIO):
                 self._file.seek(offset)
         except IOError:
             # Reopen at the new position for the next read
+            try:
+                self._file.close()
+            except IOError:
+                pass
             self._file = None
         return self._pos
 
-- 
2.43.0


From 80734a3d46a60c60caf3a38136f5b35e37269ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 44/47] fix: close the tar index if its length cannot be
 determined

The constructor fails then, so nobody else has the file to close it.
---
 src/megatron/energon/flavors/webdataset/itar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/itar.py b/src/megatron/energon/flavors/webdataset/itar.py
index 7a27eca..9341a0c 100644
--- a/src/megatron/energon/flavors/webdataset/itar.py
+++ b/src/megatron/energon/flavors/webdataset/itar.py
@@ -17,7 +17,12 @@ class TarIndexReader:
     def __init__(self, tar_path: Union[EPath, str]):
         tar_path = EPath(tar_path)
         self.itar = (tar_path.with_suffix(ITAR_SUFFIX)).open("rb")
-        self._length = len(self)
+        try:
+            self._length = len(self)
+        except BaseException:
+            # The reader is not handed out, nobody else can close the file
+            self.itar.close()
+            raise
 
     def __getitem__(self, index: int) -> int:
         if index >= self._length or index < 0:
-- 
2.43.0


From 1cf9a44125858be6a0b5fd3708aa2346a7049d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 45/47] fix: gather/scatter loader states within a process
 group using global ranks

torch's dst/src are ranks of the default group, but they were compared with the
rank within the data parallel group, so that saving to one rank failed for each
group whose ranks differ from the global ones.
---
 src/megatron/energon/savable_loader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 5e7a7cd..17f68fb 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -988,8 +988,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         given the result of this method.
 
         Args:
-            dst_rank: If specified, the state will be gathered to this rank. Otherwise, it will be
-                gathered to all ranks.
+            dst_rank: If specified, the state will be gathered to this (global) rank. Otherwise, it
+                will be gathered to all ranks.
 
         Returns:
             The state of the dataset (or `None`, if not on `dst_rank`).
@@ -1007,7 +1007,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                     output, merged_state, group=self.worker_config.data_parallel_group
                 )
             else:
-                if self.worker_config.rank == dst_rank:
+                if torch.distributed.get_rank() == dst_rank:
                     output = [None] * self.worker_config.world_size
                 else:
                     output = None
@@ -1029,8 +1029,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
 
         Args:
             state: The state to restore, as saved by `save_state`.
-            src_rank: If set, only this rank is assumed to hold the data, other ranks must set state
-                to None. If not set, all ranks are assumed to hold the data.
+            src_rank: If set, only this (global) rank is assumed to hold the data, other ranks must
+                set state to None. If not set, all ranks are assumed to hold the data.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
         # Only restore multi-rank if state is actually a list and we are in a torch distributed setup.
@@ -1046,7 +1046,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 state = state[self.worker_config.rank]
             else:
                 # Only the src_rank has the state
-                if self.worker_config.rank != src_rank:
+                if torch.distributed.get_rank() != src_rank:
                     # Send the state to all other ranks
                     assert state is None
                     # Must still be a list of Nones
-- 
2.43.0


From 64277305087f5bb35c785c2f74a2a78dff9c61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 46/47] fix: the last sample of a shard was lost when its
 slices were computed with floats

---
 src/megatron/energon/flavors/webdataset/sharder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..72fb1ca 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,12 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
-            # idx+1 is used to access the end offset)
+            # idx+1 is used to access the end offset). Integer arithmetics, because the rounding errors
+            # of floats may put the last offset before the end offset.
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From 38ebe7a4c42057ea595ef140905222a7675577ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:22 +0000
Subject: [PATCH 47/47] fix: encode_batch was not applied to grouped batches

---
 src/megatron/energon/task_encoder/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index ef9881f..766e3a7 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -400,6 +400,14 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0

