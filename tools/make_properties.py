"""Writes /verif/properties.jsonl (kept in step by hand with DESIGN.md)."""
import json, os
S = "src/megatron/energon/"
W = S + "wrappers/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    **({"observe_at": observe} if observe else {}),
                    "hook_needed": None}})


ALLW = [W + f for f in ("base.py", "batch_dataset.py", "blend_dataset.py", "buffer.py", "concat_dataset.py",
                        "epochize_dataset.py", "filter_dataset.py", "gc_dataset.py", "group_batch_dataset.py",
                        "iter_map_dataset.py", "limit_dataset.py", "log_sample_dataset.py", "map_dataset.py",
                        "mix_batch_dataset.py", "packing_dataset.py", "repeat_dataset.py",
                        "shuffle_buffer_dataset.py")]
STATEFUL = ALLW + [S + "flavors/webdataset/sample_loader.py", S + "savable_loader.py", S + "rng.py"]

prop("C01", "A checkpoint holds every part of a dataset's progress",
     "Whatever a dataset or dataset wrapper advances while it is iterated and later depends on (sample counters, "
     "offsets, buffered samples, open generators, random generators) is part of the state it saves, and every piece of "
     "that state comes back in the place it was taken from when the merged state is restored. A resumed pipeline "
     "therefore continues exactly where the saved one stood.",
     ["histories", "configurations", "crash_points"],
     "every pipeline composition, every position of the iteration at which the state is saved, every worker count",
     "Tests save at a handful of positions of a few fixed pipelines; a counter missing in one wrapper's state only "
     "shows for a pipeline using that wrapper, saved at a position where the counter is not at its initial value.",
     STATEFUL,
     [("save_state / merge_states / restore_state of each savable class", S), ("per-class State and MergedState records", S)],
     ["state returned by the loader's save", "samples after restore"])
prop("C02", "Restoring nothing puts a dataset back to its initial state",
     "When a dataset is told to restore 'no state', all of its iteration progress is reset to the value a freshly "
     "constructed dataset has, at every level of nesting. Iterating afterwards gives the same samples as a fresh "
     "dataset.",
     ["histories", "configurations"],
     "every pipeline and every amount of progress made before the reset",
     "The reset is used between repeats/epochs by limiting wrappers; tests use it on pipelines without most "
     "wrappers, and a forgotten field only matters when it was dirty.",
     STATEFUL, [("restore_state(None)", S)], ["samples after restore_state(None)"])
prop("C03", "A saved state never changes after it was saved",
     "The state object handed out by a save is a snapshot: it shares no mutable container with the live dataset, so "
     "iterating further cannot change a state that was saved before.",
     ["histories", "schedules"],
     "every continuation of the iteration after the save, including the checkpoints kept in memory by workers",
     "A test that serialises the state immediately can never see the aliasing; it needs further iteration between "
     "the save and the use of the state, at the right buffer position.",
     STATEFUL, [("copies made in save_state", S)], ["saved state object over time"])
prop("C04", "State operations reach every nested dataset",
     "Saving, merging and restoring a pipeline does so for every dataset nested in it: a wrapper passes its inner "
     "datasets' states on, matches each state to the inner dataset it came from, and resets all of them when it is "
     "reset.",
     ["configurations", "histories"],
     "every nesting of wrappers, including wrappers over several datasets",
     "Tests nest a few wrappers; a lost inner state is invisible if the inner dataset happens to be at its start.",
     STATEFUL, [("super().save_state/merge_states/restore_state", W + "base.py"),
                ("lists of inner states", W + "blend_dataset.py")], ["inner states in the saved state"])
prop("C05", "Merging keeps each worker's state in its slot, with defaults for idle ones",
     "The merged state lists one entry per worker in worker order, without dropping, reordering or mixing workers; a "
     "worker that has not started contributes the value a fresh worker would have. Merging never fails because some "
     "worker has no state yet.",
     ["configurations", "schedules"],
     "every number of workers and every subset of workers that has produced a state",
     "Tests nearly always merge states of workers which all have started; a wrong default appears only for a worker "
     "that was still idle at the save.",
     STATEFUL, [("merge_states", S)], ["merged state"])
prop("C06", "Sample restore keys are read the way they were written",
     "The restore key attached to each emitted sample carries, at each level, exactly the components that level "
     "needs to rebuild the sample, in the order in which they are read back, including the identification of the "
     "level. Rebuilding a sample attaches the same key again.",
     ["inputs", "configurations"],
     "every sample of every pipeline that claims to be able to restore samples",
     "Writer and reader of each key live in different methods of ~15 classes; tests restore samples only for a few "
     "compositions.",
     ALLW + [S + "flavors/base_dataset.py", S + "savable_loader.py", S + "flavors/webdataset/sample_loader.py"],
     [("add_sample_restore_key / set_sample_restore_key", S + "flavors/base_dataset.py"), ("restore_sample", S)],
     ["sample.__restore_key__"])
prop("C07", "A sample rebuilt from its key went through the same processing",
     "Rebuilding a single sample from its restore key applies the same user functions in the same nesting and under "
     "the same sample number as when the sample was first produced, on inputs rebuilt from the inner keys. A dataset "
     "whose processing is not declared repeatable refuses instead of returning something else.",
     ["inputs", "configurations"],
     "every restorable pipeline, every sample",
     "Random augmentation depends on the sample number, so a sample restored under a wrong number looks plausible "
     "and only differs in random content.",
     ALLW + [S + "savable_loader.py", S + "task_encoder/base.py"],
     [("restore_sample", S), ("SampleIndex.ctx", W + "base.py"), ("can_restore_sample / assert_can_restore", S)],
     ["restored sample"])
prop("C08", "Failing or skipped samples are handled uniformly",
     "When a user-supplied processing function asks to skip, only that sample is dropped and iteration goes on; when "
     "it fails with an ordinary error, the configured error handler receives the error and the sample and iteration "
     "goes on; a system-level error always stops iteration and is never given to the handler or swallowed. This holds "
     "wherever user functions run, including inside generators they return.",
     ["fault_sequences", "inputs"],
     "every user function, every position and kind of exception it may raise",
     "Tests raise one or two exception kinds in one or two wrappers.",
     [W + f for f in ("batch_dataset.py", "filter_dataset.py", "group_batch_dataset.py", "iter_map_dataset.py",
                      "map_dataset.py", "packing_dataset.py")] + [
         S + "errors.py", S + "flavors/webdataset/error_handler.py", S + "flavors/webdataset/base_webdataset.py"],
     [("except SkipSample / SYSTEM_EXCEPTIONS / Exception", W), ("FatalSampleError", S + "errors.py")],
     ["exceptions leaving iteration", "error handler calls"])
prop("C09", "The active-worker context is balanced on every way out",
     "Whenever processing of a sample starts, the active worker and its current sample number are set, and they are "
     "taken back exactly once when it ends, however it ends (value, skip, error, generator closed early). The sample "
     "number seen by user code is therefore always its own.",
     ["fault_sequences", "schedules", "histories"],
     "every exception position and every early close of an iterator",
     "A leaked activation only shows on the next sample after a specific failure.",
     [W + "base.py", S + "savable_loader.py", S + "worker.py", W + "packing_dataset.py", W + "group_batch_dataset.py",
      W + "map_dataset.py", W + "batch_dataset.py", W + "iter_map_dataset.py"],
     [("worker_activate/worker_deactivate", S + "worker.py"), ("push/pop sample index", S + "worker.py")],
     ["active worker sample index"])
prop("C10", "Sample order depends only on seed, rank and worker",
     "Everything that decides which samples are produced and in which order draws randomness only from the seeded "
     "per-worker generators that are part of the saved state; no clock, process identity, address, hash order or "
     "global random generator takes part. Equal configurations give equal sequences.",
     ["configurations", "histories"],
     "all pipelines, all processes and machines",
     "Two runs in one test process share hash seeds and global state, so an unseeded source can agree by accident.",
     ALLW + [S + "flavors/webdataset/sharder.py", S + "flavors/webdataset/sample_loader.py", S + "rng.py",
             S + "worker.py", S + "metadataset"],
     [("WorkerRng", S + "rng.py")], ["sample sequence"])
prop("C11", "Seeded user functions leave the global random state as it was",
     "A user function declared repeatable with seeding runs under random generators seeded from its worker and sample "
     "number, and the surrounding random state of every supported library is put back afterwards however the function "
     "ends; for generators this holds around every single step. Saving and restoring random state covers the same set "
     "of libraries as seeding.",
     ["fault_sequences", "histories"],
     "every exception, early close and number of yields of the function",
     "Tests run the normal return path of one function.",
     [S + "task_encoder/base.py", S + "rng.py", S + "savable_loader.py"],
     [("stateless(restore_seeds=True)", S + "task_encoder/base.py"), ("SystemRng", S + "rng.py")],
     ["global RNG states"])
prop("C12", "Workers touch only their own slice of per-worker state",
     "State that a dataset keeps per worker has one slot for each configured worker (one slot when there are none), "
     "and while iterating or saving, a worker reads and writes only its own slot, found through its logical worker "
     "number; only emptying slots at the start of an iteration may reach the others.",
     ["configurations", "schedules"],
     "every number of workers, every worker, every worker rotation after a restore",
     "With one or zero workers, as in most tests, any index expression is right.",
     ALLW + [S + "savable_loader.py", S + "flavors/webdataset/sample_loader.py", S + "worker.py"],
     [("arrays indexed by rank_worker_id()", W), ("size max(num_workers, 1)", W)], ["per worker arrays"])
prop("C13", "Progress is recorded before a sample is handed out",
     "At the moment a sample is handed to the consumer, the producing dataset has already accounted for it: a state "
     "saved at that moment continues with the following sample, neither repeating nor skipping one.",
     ["crash_points", "histories"],
     "every suspension point of every dataset's iteration",
     "Needs a save at exactly the suspension point of the wrapper whose update moved after the hand-over; tests save "
     "at few positions of few wrappers.",
     ALLW + [S + "flavors/webdataset/sample_loader.py", S + "savable_loader.py"],
     [("counter updates preceding yield", S)], ["state saved while suspended"])
prop("C14", "Dataset index files appear complete or not at all",
     "The index written for each data shard becomes visible under its final name only after it was written "
     "completely; when indexing fails part-way no partial index is left under the final name and the temporary file "
     "is removed.",
     ["crash_points", "fault_sequences"],
     "every failure position while a shard is being indexed",
     "Tests never interrupt preparation.",
     [S + "flavors/webdataset/itar.py", S + "flavors/webdataset/prepare.py"],
     [("TarIndexWriter tmp + move", S + "flavors/webdataset/itar.py")], ["<shard>.idx on disk"])
prop("C15", "Preparation and reading agree on what a sample in a shard is",
     "The rules deciding which archive members belong to a sample (regular files only, hidden/invalid names ignored, "
     "key = name up to the first dot of the base name) are the same when a shard is indexed, when it is read in "
     "order, and when a single sample is read by its position. Offsets stored in the index are those the reader "
     "expects.",
     ["inputs"],
     "every archive content",
     "Test archives are written by the same library call and contain no unusual members.",
     [S + "flavors/webdataset/prepare.py", S + "flavors/webdataset/itar.py",
      S + "flavors/webdataset/single_shard_reader.py", S + "flavors/webdataset/structs.py"],
     [("member filters", S + "flavors/webdataset")], ["sample keys and counts"])
prop("C16", "Storage handles are never shared across a fork",
     "Every access to the storage behind a path first makes sure that process-bound handles created in a parent "
     "process are not used in a forked child, and worker start-up resets them before any data access.",
     ["schedules", "configurations"],
     "every path operation in every worker process",
     "Tests use local files, whose handles are harmless to share.",
     [S + "epathlib/epath.py", S + "savable_loader.py"],
     [("fork guard", S + "epathlib/epath.py"), ("worker init", S + "savable_loader.py")], ["storage API calls"])
prop("C17", "Path objects are immutable values",
     "Operations that derive a path (joining, parent, changing suffix, resolving) return a new path and leave the "
     "original as it was; equal paths have equal hashes, and comparing considers every part that determines what the "
     "path refers to.",
     ["inputs", "histories"],
     "all paths and sequences of operations",
     "Tests check results, rarely that the operand is unchanged.",
     [S + "epathlib/epath.py"], [("copy before modify", S + "epathlib/epath.py")], ["path values"])
prop("C18", "A worker answers commands only while it is not producing a sample",
     "Checkpoint requests arriving at a worker are executed only while the worker is paused at handing out a sample "
     "(or finished), never while it is fetching one, and the checkpoint list is modified only under that exclusion; "
     "the exclusion is re-established on every way back into iteration.",
     ["schedules"],
     "every interleaving of command arrival with iteration, including early closing",
     "The window of a wrong interleaving is microseconds wide.",
     [S + "savable_loader.py"], [("command lock", S + "savable_loader.py")], ["checkpoint contents"])
prop("C19", "Every worker command gets exactly one answer",
     "For each command a loader sends to a worker, the worker sends exactly one answer, tagged with its own worker "
     "number: the result, or the error that executing it raised, which the loader then raises to its caller. The "
     "loader collects one answer from every worker and orders them by worker number.",
     ["fault_sequences", "schedules"],
     "every command and every failure inside it",
     "No test makes a command fail inside a worker.",
     [S + "savable_loader.py"], [("command thread", S + "savable_loader.py"), ("worker command", S + "savable_loader.py")],
     ["result queues"])
prop("C20", "The reported configuration reflects everything that shapes the samples",
     "The configuration a dataset reports (used to detect that a checkpoint belongs to a different setup) contains "
     "each setting that influences which samples are produced and the configuration of all nested datasets; two "
     "setups with different samples never report the same configuration because a setting is left out. Error handlers "
     "are not settings in this sense.",
     ["configurations"],
     "every pair of configurations",
     "Tests compare reported configurations for a few datasets.",
     ALLW + [S + "flavors/webdataset", S + "worker.py"], [("config()", S)], ["config()"])
prop("C21", "Metadataset settings reach the datasets they were written for",
     "Split, split overrides, subflavors, weights, shuffle-over-epochs multipliers and join settings given anywhere in "
     "a nested metadataset reach every underlying dataset: values set closer to the dataset win for the split, "
     "subflavor tags are merged with the outer ones taking precedence, weights multiply along the nesting and are "
     "normalised per level (a reference inside a join takes its multiplier from the join). Relative paths are looked "
     "up in the folder of the file which names them, a missing split is never replaced by another one, and joined "
     "datasets keep the configured order.",
     ["configurations"],
     "every nesting of metadatasets",
     "Tests use one or two levels and default values for most settings.",
     [S + "metadataset/metadataset_v2.py", S + "metadataset/metadataset.py", S + "metadataset/dataset_loader.py",
      S + "metadataset/join_dataset_loader.py", S + "dataset_config.py", S + "metadataset/loader.py",
      S + "task_encoder/loader.py"],
     [("get_datasets parameters", S + "metadataset"), ("load_dataset overrides", S + "dataset_config.py")],
     ["loaded dataset parameters"])
prop("C22", "Files and archives opened while reading data are released",
     "Whatever the data readers and the preparation open (archives, index readers, database connections, remote "
     "streams) is closed on every way out, including errors, early stop of iteration and re-opening after an error.",
     ["fault_sequences", "histories"],
     "every failure position and early close",
     "A leaked handle does not fail a test.",
     [S + "flavors/webdataset", S + "retry_stream.py", S + "epathlib/epath.py", S + "tools"],
     [("with blocks, close()", S)], ["open handles"])
prop("C23", "Configuration files are converted strictly to their declared types",
     "Converting raw configuration data to a declared type either yields a value that conforms to that type "
     "in every nested position or is rejected with an error, which names the failing path; unknown keys (when strict, as "
     "configuration files are loaded), missing required keys, wrong literals and wrong container shapes are rejected, "
     "also in nested values and in arguments of classes and functions named in the data. Supported are primitives, Any, "
     "Literal, Union, Optional, NamedTuple, dataclasses, list, set, tuple, dict and paths; other types are passed through.",
     ["inputs"],
     "every raw input and every declared type",
     "Tests convert a few valid files.",
     [S + "typed_converter.py", S + "dataset_config.py"], [("raw_to_typed", S + "typed_converter.py")],
     ["result or conversion error"])
prop("C24", "A pipeline claims samples are restorable only if every user function is",
     "A dataset reports that it can restore single samples only if each user function it applies was declared "
     "repeatable and the nested datasets can restore too; the declaration made on the user's function reaches the "
     "wrapper that applies that very function. User functions are those given to the task encoder; functions named in "
     "dataset configurations (sample loaders, part filters, joiners) and cookers are taken to be repeatable.",
     ["configurations"],
     "every combination of declared and undeclared user functions",
     "Tests declare all functions or none.",
     [S + "task_encoder/base.py", W + "map_dataset.py", W + "batch_dataset.py", W + "iter_map_dataset.py",
      W + "group_batch_dataset.py", W + "packing_dataset.py"],
     [("get_stateless", S + "task_encoder/base.py"), ("can_restore_sample", W)], ["can_restore_sample()"])
prop("C25", "Buffered samples and their restore keys never get out of step",
     "A savable sample buffer holds, for each worker, one restore key per buffered sample at the same position; every "
     "operation that adds, removes, replaces or clears samples does the same to the keys, and restored keys are turned "
     "back into samples in order before use.",
     ["histories"],
     "every sequence of buffer operations",
     "Tests use the few operations that one wrapper needs.",
     [W + "buffer.py", W + "shuffle_buffer_dataset.py", W + "packing_dataset.py", W + "group_batch_dataset.py"],
     [("_buffer / _restore_keys", W + "buffer.py")], ["buffer content vs. saved keys"])
prop("C26", "The loader's own position is saved and restored with the dataset",
     "The loader tracks for each worker the last sample handed to the user and whose turn is next; saving uses exactly "
     "these, restoring re-establishes them, restoring while worker processes are running is refused, and a state saved right after a "
     "restore (or before any sample) equals what was restored.",
     ["histories", "schedules"],
     "every sequence of iterating, saving and restoring, every number of workers",
     "Tests save after several samples of each worker and never save twice around a restore.",
     [S + "savable_loader.py"], [("per-worker counters, next worker", S + "savable_loader.py")],
     ["save_state_rank / restore_state_rank"])
prop("C27", "A remote stream read delivers every byte once, in order, despite retries",
     "Reading from the retrying stream returns the bytes at the current position in order, without loss or "
     "duplication over reconnects, a successful read advances the position by what was returned, a failure re-opens at "
     "the right offset, and the last error is raised once the retries are used up. A reader of a part of a file "
     "likewise hands out the bytes of its part and none beyond it, wherever it is moved to.",
     ["fault_sequences"],
     "every sequence of failures and short reads of the underlying stream",
     "There is no test with a failing stream.",
     [S + "retry_stream.py", S + "flavors/webdataset/itar.py"],
     [("read loop", S + "retry_stream.py"), ("SubFileReader", S + "flavors/webdataset/itar.py")], ["bytes returned by read"])
prop("C28", "Datasets built for a different worker setup are rejected",
     "Combining datasets created for different ranks, world sizes or numbers of workers is refused when the pipeline "
     "is built, for every wrapper and every nested dataset.",
     ["configurations"],
     "every pair of worker setups and every wrapper",
     "Tests never mix worker setups.",
     [W + "base.py", S + "worker.py", S + "savable_loader.py", W + "blend_dataset.py", W + "concat_dataset.py"],
     [("worker_config equality assertion", W + "base.py"), ("WorkerConfig.__eq__", S + "worker.py")],
     ["AssertionError at construction"])
prop("C29", "Crude samples go to the first cooker that matches them",
     "A crude sample is turned into a typed sample by the first registered cooker whose subflavor conditions all "
     "match; if none matches an error is raised, and samples that already are typed pass unchanged. Crude data "
     "without a registered cooker is refused when the pipeline is built.",
     ["inputs", "configurations"],
     "every set of cookers and every subflavor combination",
     "Tests use two or three cookers with disjoint conditions.",
     [S + "task_encoder/cooking.py", S + "task_encoder/base.py", S + "flavors/crude.py"],
     [("Cooker.is_match", S + "task_encoder/cooking.py"), ("cook_crude_sample", S + "task_encoder/base.py")],
     ["cooked sample"])
prop("C30", "Excluded shards and samples are never emitted",
     "Shards and samples listed as excluded for a split are left out wherever that split is read: sequential reading, "
     "random access and joined datasets apply the same exclusion.",
     ["inputs", "configurations"],
     "every exclusion list and access path",
     "Tests exclude one sample in sequential reading.",
     [S + "flavors/webdataset/metadata.py", S + "flavors/webdataset/single_shard_reader.py",
      S + "flavors/webdataset/joined_webdataset.py", S + "flavors/webdataset/base_webdataset.py"],
     [("split excludes", S + "flavors/webdataset")], ["emitted samples"])
prop("C31", "Collective operations are entered by every rank",
     "Whether a rank takes part in gathering or scattering loader states depends only on arguments all ranks share, "
     "so that no rank waits forever for another one. The gathered list holds the state of each rank at the place of that "
     "rank, on the destination rank(s), and restoring hands each rank the state which is its own.",
     ["configurations", "schedules"],
     "every rank, every choice of source/destination rank",
     "Tests run a single process; a skipped collective only hangs in a real distributed job.",
     [S + "savable_loader.py"], [("save_state / restore_state with dst_rank / src_rank", S + "savable_loader.py")],
     ["collective calls"])
prop("C32", "Positions count exactly what was handed out",
     "A saved position or count moves by exactly one per thing it counts: it is one more than the index of what is being handed out, "
     "is back at its start when the iteration has come to its end, and going on skips exactly the parts already counted. "
     "A total split over workers adds up again and its shares differ by one at most.",
     ["histories", "configurations"],
     "every number of samples, every checkpoint, every worker count",
     "Tests checkpoint at a few positions; an error of one at a boundary repeats or loses a single sample.",
     [W + "limit_dataset.py", W + "concat_dataset.py", W + "map_dataset.py", W + "repeat_dataset.py", S + "flavors/webdataset/sample_loader.py"],
     [("saved counts of the wrappers", W + "limit_dataset.py"), ("generator parts", W + "map_dataset.py")])
prop("C33", "No sample is lost on its way through the wrappers",
     "Every sample a wrapper takes from its inner dataset is handed out, kept in a buffer, or given to a user function; groups are handed "
     "out exactly when they have the wanted size, nothing handed out appears in the next group, and at the end nothing stays behind: the "
     "buffers are emptied, and an incomplete last group is handed out unless drop_last is set. Filters hand out exactly what they accept.",
     ["inputs", "histories", "configurations"],
     "every number of samples, batch/buffer/group size, drop_last setting",
     "Tests count samples for a few sizes; a loss only at a boundary (a remainder of one, an exactly full buffer) stays unnoticed.",
     [W + "batch_dataset.py", W + "group_batch_dataset.py", W + "shuffle_buffer_dataset.py", W + "packing_dataset.py", W + "filter_dataset.py"],
     [("batching", W + "batch_dataset.py"), ("grouped batching", W + "group_batch_dataset.py"), ("packing", W + "packing_dataset.py")])
prop("C34", "Options reach what they configure",
     "What a user asks for when building datasets and loaders (split, batch size, drop_last, limit, shuffling, packing, virtual epoch, error "
     "handler, worker configuration, checkpoint interval, ...) is what is built: on every way from the entry points down to datasets, factories "
     "and loaders an option is handed on to every part which has that option, is kept where it is stored, and none is silently ignored.",
     ["configurations"],
     "every combination of options, every kind of metadataset between the entry point and the dataset",
     "There are far more combinations of options and kinds of (meta)dataset than tests; a dropped option falls back to a default silently.",
     [S + "task_encoder/base.py", S + "task_encoder/loader.py", S + "metadataset/metadataset.py", S + "metadataset/join_dataset_loader.py",
      S + "flavors/webdataset/base_webdataset.py", S + "savable_loader.py", S + "loader.py"],
     [("building functions", S + "task_encoder/base.py"), ("loaders of meta datasets", S + "metadataset/metadataset.py"),
      ("factories", S + "flavors/webdataset/base_webdataset.py")])
prop("C35", "Shards are split evenly and disjointly over ranks and workers",
     "Over all ranks and workers every sample of the split is assigned exactly once, whatever the sizes of the shards, the number of ranks "
     "and workers and the rotation: the amounts differ by at most one, the ranges of workers and ranks follow each other without gaps and "
     "overlaps, the parts of shards given to a worker make up its range, and cutting a part into sequences loses nothing.",
     ["configurations"], "every list of shard sizes, world size, worker count, rotation offset and maximum sequence length",
     "Only a few shard layouts are tested; a wrong boundary loses or repeats single samples for some sizes only.",
     [S + "flavors/webdataset/sharder.py"], [("ranges of workers", S + "flavors/webdataset/sharder.py"), ("parts of shards", S + "flavors/webdataset/sharder.py"),
      ("sequences", S + "flavors/webdataset/sharder.py")])
prop("C36", "Within an epoch the sample loader reads each of its slices exactly once",
     "Whatever the shuffling, the number of parallel shard iterators and the point at which a state was restored: each slice of the worker is "
     "read from its first sample on, in the order given when not shuffling, as often as there are epochs to shuffle over (or drawn from "
     "all slices when shuffling with replacement); every place has the reader, the weight and the saved state of the same slice; an epoch ends "
     "only when no slice is left and is followed by another one exactly if the dataset loops; saved places and pending slices "
     "are resumed before new ones are taken; the columns of joined shards are read in lockstep by the key of the first.",
     ["inputs", "histories", "configurations"], "every list of slices, shuffling option, number of places, epoch count and resume point",
     "The tests see a few epochs of tiny datasets; a slice lost or weighted wrongly shows only statistically.",
     [S + "flavors/webdataset/sample_loader.py", S + "rng.py"],
     [("places and epochs", S + "flavors/webdataset/sample_loader.py"), ("columns", S + "flavors/webdataset/sample_loader.py"),
      ("random draws", S + "rng.py")])
prop("C37", "Batching and conversion keep every sample and every field",
     "Default batching puts the values of all samples of a batch together, field by field, in order: no sample or field is left out, "
     "duplicated or mixed up with another; padding keeps all values and adds only zeros; each field is batched by the function configured for "
     "it; samples and batches are converted to the configured type exactly if one is configured.",
     ["inputs", "configurations"], "every batch of samples, nesting of fields and configured types",
     "The tests batch a few samples of one type.",
     [S + "task_encoder/base.py"],
     [("generic_batch, batch_pad_stack", S + "task_encoder/base.py"), ("_batch and conversions", S + "task_encoder/base.py")], ["batches"])
prop("C38", "The pipeline which is built is the configured one",
     "For every combination of settings and task encoder, each stage which is asked for (blending or concatenating all datasets, shuffling, "
     "cooking, encoding, packing, grouping or batching, encoding of batches, virtual epochs or limits) is applied exactly once, at its place, "
     "with the configured values and the task encoder's own functions; no other stage is applied, no overridden function is silently unused "
     "(settings which would leave one unused are refused), and an augmenting task encoder hands its calls on to the one it augments.",
     ["configurations"], "every combination of settings and overridden functions",
     "The tests build a handful of combinations; a stage left out for one combination shows nowhere else.",
     [S + "task_encoder/base.py"],
     [("build functions", S + "task_encoder/base.py")], ["stages of the built dataset"])
prop("C39", "Every worker has its own identity",
     "Within a job, every worker of every rank has its own global number, seed and log file; its local and global number and its seed are the "
     "same wherever they are asked for (in the worker, in the main process, when a sample of that worker is restored), and the default "
     "configuration takes rank and size from the data parallel group.",
     ["configurations", "processes"], "every job (ranks, workers, data parallel group) and every process of it",
     "The tests run one rank in one process; colliding or shifted worker numbers show only with several ranks and worker processes.",
     [S + "worker.py"],
     [("rank_worker_id, global_worker_id, worker_seed, default_worker_config", S + "worker.py")],
     ["worker numbers, seeds and log files"])
prop("C40", "A path means the same on every kind of storage",
     "Every operation on a path asks the path's own storage about exactly the object the path names; joining follows the usual rules (an "
     "absolute second path replaces the first, '..' steps are resolved and never leave the root); listing gives each match as a path on the "
     "same storage; the text of a path names its storage, and copies, parents, suffixes and relative paths are those of the path.",
     ["inputs", "configurations"], "every path, local or remote, and every operation on it",
     "The tests use a few paths, mostly local; a wrong part of a remote path shows only against remote storage.",
     [S + "epathlib/epath.py"],
     [("EPath", S + "epathlib/epath.py")], ["objects accessed, texts of paths"])
prop("N02", "Image transforms equal their reference",
     "The matrix-merged image transforms produce the same image as applying the original transforms one after another, "
     "up to interpolation error.",
     ["inputs"], "every image and transform parameter", "Tests compare a few transforms on one image.",
     [S + "transforms"], [("MergeTransform", S + "transforms/merge.py")])
prop("N03", "Shuffling and blending are unbiased",
     "Shuffle buffers and weighted blending pick among candidates with the configured probabilities.",
     ["histories"], "long runs", "Statistical; tests fix seeds.",
     [W + "shuffle_buffer_dataset.py", W + "blend_dataset.py"], [("WorkerRng.choice_idx", S + "rng.py")])
prop("N04", "Reported lengths equal the number of samples delivered",
     "The length a dataset or loader reports equals the number of samples one epoch delivers where it is documented as "
     "exact.",
     ["configurations"], "every pipeline and worker count", "Only small examples are tested.",
     ALLW, [("__len__", W)])
prop("N05", "Memory and latency stay bounded",
     "A long-running loader's memory and per-sample latency stay bounded: garbage collection is frozen and triggered "
     "as configured and queues do not grow.",
     ["schedules", "histories"], "arbitrarily long runs", "Tests run seconds.",
     [W + "gc_dataset.py"], [("gc_init_worker", W + "gc_dataset.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
