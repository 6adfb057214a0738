"""Writes /verif/known_findings.json: unrepaired genuine defects (matched by the checks through
property + key) and the repaired ones."""
import json, os
FINDINGS = [
    {"property": "C01", "key": "C01.resume:ShuffleBufferDataset",
     "what": "a state saved while the buffer is emptied after the inner dataset ended is restored as if it had not: inner samples "
             "0..4, size 3, state saved after the 4th of 0,1,2,3,4: the restored loader gives 4,0,2,1,4,3 instead of 4"},
    {"property": "C01", "key": "C01.resume:BatchDataset",
     "what": "a state saved after the last, incomplete batch (drop_last=False) restores to another full epoch: batches "
             "[0,1],[2,3],[4] are given again instead of nothing"},
    {"property": "C01", "key": "C01.resume:GroupBatchDataset",
     "what": "a state saved while the incomplete groups are flushed (drop_last=False) restores to another full epoch: after "
             "[0,2],[1,3],[4] all three are given again"},
    {"property": "C01", "key": "C01.resume:PackingDataset",
     "what": "a state saved while the remaining packs are handed out restores to those packs and then another full epoch "
             "(5 samples, buffer size 3, saved after the 4th pack: 4,0,1,2,3,4 instead of 4)"},
    {"property": "C01", "key": "C01.parts:PackingDataset",
     "what": "with a final packer that is a generator, the parts of a pack not handed out yet are lost on restoring (two parts per "
             "sample, state saved after 0: the restored loader goes on with 2,2,3,3 instead of 0,1,1,2,2,3,3)"},
    {"property": "C20", "key": "C20.worker:WorkerConfig.seed_offset",
     "what": "the seed offset is not reported: two runs with different seeds report the same configuration (pinned by test_metadataset)"},
    {"property": "C20", "key": "C20.setting:DefaultGenericWebdatasetFactory.field_map",
     "what": "the field map is not reported: datasets mapping different parts to the same field report the same configuration "
             "(the exact configuration of a dataset with a field map is pinned by test_metadataset)"},
    {"property": "C20", "key": "C20.setting:WebdatasetSampleLoaderDataset.part_filter",
     "what": "the parts derived from a field map are not reported (same reason)"},
    {"property": "C20", "key": "C20.setting:StandardWebdatasetFactory.sample_type",
     "what": "the sample type of a StandardWebdatasetFactory used directly is not reported (pinned by test_metadataset)"},
    {"property": "C23", "key": "C23.keys:raw_to_typed mapping",
     "what": "keys of a Dict[str, ...] are not checked: raw_to_typed({1: 2}, Dict[str, int]) returns {1: 2} "
             "(refusing them could break configurations in use, e.g. numbers as subflavors keys)"},
    {"property": "C26", "key": "C26.turn:SavableDataLoader:later iterations",
     "what": "a loader restored while it was another worker's turn starts all later iterations over a finite dataset with that "
             "worker, an uninterrupted one with the first (2 workers, state saved after 1 sample: the second epoch of the "
             "restored loader is 1000, 0, 1001, 1 instead of 0, 1000, 1, 1001); torch always starts with its first process"},
]
FIXED = """
C35 6427730 the last sample of a shard was never read with some max_samples_per_sequence (61 samples, 9 per sequence: 60 are read)
C31 1cf9a44 states could not be gathered to or scattered from one rank of a process group whose ranks differ from the global ones
C22 563861a a failed seek of the retry stream left the file open
C22 80734a3 the tar index stayed open if its length could not be determined
C21 c05310d nested multipliers of -1 (infinite) gave 1 or a negative number
C01 01c3c11 the state of a loader without workers lacked the sample index, so restored loaders restarted counting
C01 1667db8 restoring GroupBatchDataset gave every worker the buckets of the active one
C01 cf84c6b RepeatDataset counted a repeat before it completed: a state saved inside it skipped the rest
C01 665830c ConcatDataset did not save which inner dataset it was iterating, a restored one repeated the datasets before it
C02 436e155 WorkerRng.restore_state(None) kept the generator of the previous run
C02 3ddf8de EpochizeDataset kept the iterator of the previous state after a restore
C02 de85e1e GroupBatchDataset did not reset its two sample indices
C03 7c1b89b BatchDataset put the list it kept appending to into the saved state; keys of skipped batches leaked into the next
C05 987eb97 the merged packing state listed one (empty) pre-packed group for a worker that had not started
C06 bf82e96 IterMapDataset attached a key it could not read back; skips ended the iteration
C06 3a5981a joined samples had a key without the joined parts
C06 6eabd43 excluded samples shifted the keys of the samples behind them
C06 6bd357d the keys of blended datasets numbered only the datasets with samples, restoring used all of them
C07 bdd2653 a generator resumed from a state ran under the next sample number
C07 7083772 a stateless function was seeded for the worker that wrapped it, not the active one
C08 0c4a7cd a skipped or failed generator was resumed after a restore; a resumed one could not skip or fail
C08 1e0cd1c FilterDataset neither handled SkipSample nor made system errors fatal
C08 d2cd2d3 after a failing column the remaining columns were joined with the previous sample
C11 443ad91 a seeded generator function called with wrong arguments left the global random state seeded
C14 b34259c a shard whose index could not be completed was still counted as usable
C18 fef0b26 commands could run while the worker was restoring or saving its final checkpoint
C38 38ebe7a an overridden encode_batch was not applied when batches are grouped
C20 b79b836 GroupBatchDataset.config left out fixed_batch_size
C20 8c3d862 the order of excludes in the config depended on the hash seed
C20 687b9a2 the sample loader was reported as the wrapping lambda, the part filter not at all
C20 0444155 joined datasets did not report the joiner
C20 febd19f auto_decode was not reported
C20 3ff51bf the part filter of joined datasets and stateless_iter_fn were not reported
C21 732ecdc shuffle_over_epochs_multiplier of a joined metadataset was ignored
C21 c2c6768 split_config of a joined dataset was replaced by the outer one
C22 2368fd1 opened column shards stayed open when opening a further one failed
C23 19e246c fixed size tuples came out as lists
C23 222599f every type accepted keys with dashes
C23 fece208 positional arguments given as a list were assigned in reverse order
C24 5d39cd0 a stateless batch function was not recognised for grouped batches
C26 d861733 saving before a worker emitted a sample lost its first sample
C26 6016d20 the worker started first after a restore was not the one due next
C26 db71fc1 a state saved right after a restore differed from the restored one
C27 c37bc6c retried reads lost or duplicated bytes
C28 d082d99 comparing a WorkerConfig with another type raised
C31 9894f61 restoring from one source rank left the other ranks waiting
N04 1b17268 BatchDataset length was wrong for the workers with one more sample
""".strip().splitlines()
out = {
    "findings": FINDINGS,
    "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED],
}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump(out, open(path, "w"), indent=1)
