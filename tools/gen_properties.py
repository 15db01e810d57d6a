"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

DM = "finmlkit/bar/data_model.py"; IO = "finmlkit/bar/io.py"; B2H = "scripts/binance2h5.py"
BASE = "finmlkit/bar/base.py"; LOGIC = "finmlkit/bar/logic.py"; KIT = "finmlkit/bar/kit.py"; BU = "finmlkit/bar/utils.py"

p("D01", "Preprocessed trades do not depend on delivery order or duplicates",
  """Preprocessing a batch of raw trades yields the same tape (timestamps, prices, amounts, sides) no matter in which order
  the feed delivered the trades or how often it re-delivered some of them. Every distinct trade id contributes its amount exactly once,
  with its own price, timestamp and its own buyer/seller side; only consecutive trades with the same timestamp, price and side are merged, and the
  tape is in chronological order, ties in trade-id order.""",
  ["schedules", "inputs", "fault_sequences"],
  "every delivery order, duplication, batching and timestamp unit of every set of trades with unique ids",
  "Existing tests feed a handful of already ordered batches; whether sides, amounts and timestamps stay attached to their trade under reordering plus duplication needs all permutations.",
  [DM, BU], [("sort by id, de-duplicate, sort by time, merge split trades", DM + " TradesData.__init__(preprocess=True)"), ("merge_split_trades", BU)],
  [("is_buyer_maker", "aggressor flag that must travel with its row", DM)], ["TradesData.data"])

p("D02", "Lost trades are reported exactly, and reports survive storage",
  """When the feed loses trades, the share of missing trade ids relative to the received ones, the list of id gaps that span more than one minute, and the
  integrity flag reported for the batch are exactly what was lost, independent of delivery order; received duplicates also clear the flag.
  After saving, the month's metadata, its stored gap list and the integrity summary over the file report the same facts for every month.""",
  ["fault_sequences", "inputs", "histories"],
  "every pattern of lost, duplicated and reordered trades, for every set of months in a file",
  "Tests check one or two hand-made gaps; the report must be exact for every loss pattern and survive the save/inspect round trip.",
  [DM, IO], [("id-gap scan", DM + " _validate_data"), ("metadata and integrity groups", DM + " save_h5"), ("integrity summary", IO + " H5Inspector.get_integrity_summary")],
  [("discontinuities", "gaps longer than a minute", DM), ("missing_pct", "lost/received in percent", DM)], ["TradesData attributes", "H5Inspector"])

p("S01", "Saved months survive crashes and I/O faults; retrying a save repairs",
  """A month whose save completed stays readable with exactly the rows saved, whatever crash, kill, I/O error or full disk hits a later operation on other months of the file.
  A save that is interrupted leaves that month as it was before, absent, or new, or holding a prefix of the new rows (an interrupted append: the old rows plus a prefix of the new ones), never
  with foreign or altered rows.
  After the fault, repeating the same overwrite save succeeds and the file then holds exactly the new rows together with metadata that describes them.""",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point and storage fault inside every save of every history of overwrite and append saves over several months",
  "No test injects a fault or re-opens a file left behind by an interrupted save; the state space is the product of histories and crash points.",
  [DM], [("month-partitioned HDF5 groups, overwrite = remove then put, metadata written last", DM + " TradesData.save_h5")],
  [("/trades/YYYY-MM", "rows", "HDF5 file"), ("/meta/YYYY-MM", "record count, first/last timestamp, integrity", "HDF5 file")], ["TradesData.load_trades_h5", "H5Inspector"])

p("S02", "Loading returns exactly the stored trades of the requested range",
  """After any history of saves, overwrites and appends, loading by month or by time range returns every stored trade whose timestamp lies in the inclusive requested range
  exactly once, in chronological order (trades of a month with equal timestamps in the order they were saved in), with the price, amount and side it was saved with, and nothing else.
  Asking for a month that is not stored, or a range that no stored month intersects, raises an error instead of returning data.
  Restricting a tape to a time window shows exactly its trades within the inclusive window, and a later window again selects from the whole tape; saving a window without trades is refused and changes nothing.""",
  ["histories", "inputs", "schedules"],
  "every history of saves (months, appends in any time order, overwrites) and every key or range query, with parallel loading on and off, and every sequence of view windows on the result",
  "Tests save one or two months once; queries after appends and overwrites depend on metadata maintained across the history.",
  [DM], [("group discovery from per-month metadata", DM + " _keys_for_timerange"), ("where-clause filtering and chronological concatenation", DM + " load_trades_h5"), ("metadata update on append", DM + " save_h5")],
  [("/meta/YYYY-MM first/last timestamp", "must cover all rows of the month", "HDF5 file")], ["TradesData.load_trades_h5", "TradesData.set_view_range", "TradesData.data"])

p("S03", "Parallel loading equals sequential loading under any worker schedule",
  """Loading several months with worker processes returns the same trades in the same order as sequential loading, for every number of workers and every order in which they finish.
  If a worker process dies the load still returns the full result; a month that cannot be read is left out only together with a logged error naming it, and
  a load that obtained no data raises an error.""",
  ["schedules", "fault_sequences", "configurations"],
  "every completion order, worker count and placement of worker deaths and read errors among the loading tasks",
  "Tests run a real pool once, whose completion order nobody controls, and never kill a worker or fail a read.",
  [DM], [("futures keyed by group, results re-ordered by key, sequential fallback", DM + " load_trades_h5"), ("_load_single_h5_group", DM)],
  (), ["TradesData.load_trades_h5", "log records"])

p("S04", "Inspection reports agree with the stored trades under any pool schedule",
  """For every file content, the inspector's key list, metadata, statistics and gap report agree with the trades actually stored: record counts, first/last timestamps, price and
  amount ranges, and exactly the intervals between consecutive trades longer than the requested threshold, each reported under its own month with its timestamp and size.
  The reports do not depend on how many worker processes are used or in which order they run, and inspecting never changes the file.""",
  ["schedules", "histories", "inputs"],
  "every store history, threshold, worker count and schedule of the inspection workers",
  "Tests inspect one small file with a real pool; attribution of gaps to months under all pool schedules is not sampled.",
  [IO], [("starmap over months", IO + " H5Inspector.inspect_gaps"), ("metadata and statistics readers", IO + " H5Inspector")], (), ["H5Inspector methods"])

p("K01", "Kline building recovers from crashes and isolates failing months",
  """Whatever crash, kill or I/O fault interrupts building one-second klines for a file, the trades in the file are untouched, klines of other months are untouched,
  and simply running the build again over the file makes the klines of every month visible to the reader and equal to those of an undisturbed build.
  A month whose processing fails is reported as failed and does not stop or alter the other months; a month already built is skipped and left alone unless overwriting is requested.""",
  ["crash_points", "fault_sequences", "histories"],
  "every crash or fault point inside every build over several months, with and without overwrite, followed by re-runs",
  "Tests build klines once without faults; the skip-if-exists logic meets half-written months only after a crash.",
  [IO], [("skip if present, remove/put bars then metadata", IO + " AddTimeBarH5.process_key"), ("per-month try/except", IO + " AddTimeBarH5.process_all")],
  [("/klines/YYYY-MM and /klines_meta/YYYY-MM", "bars and discovery metadata", "HDF5 file")], ["TimeBarReader.read", "process_all result"])

p("K02", "Stored time bars read back and resample to what the trades say",
  """Reading one-second bars for any range returns exactly the bars stored for that range, in order, across months and whatever sequence of builds and rebuilds produced them.
  Resampling to a coarser intraday timeframe gives for each non-empty period the first open, highest high, lowest low, last close, total volume and trade count, volume-weighted price and trade-weighted median trade size of the bars in that period, and omits periods without trades.""",
  ["histories", "inputs"],
  "every history of month builds and rebuilds and every read range and intraday timeframe",
  "Tests read a single synthetic month; cross-month ranges, gaps and rebuild histories are not sampled.",
  [IO], [("metadata-driven month discovery and in-memory range filter", IO + " TimeBarReader.read"), ("_resample aggregation", IO)], (), ["TimeBarReader.read", "TimeBarReader.list_keys"])

p("N01", "Damaged archives are never ingested and downloads converge after faults",
  """Under any network faults (lost, cut or corrupted transfers, server errors, missing files) and crashes while downloading, an archive whose bytes do not match the published checksum that was obtained with it is never imported into the store.
  A download interrupted by a crash or error is never mistaken for a complete one on the next run, a transfer that fails noticeably once or twice is repeated within the run, and once faults stop, re-running makes every published month available with its correct content.
  A month that is not published is skipped without affecting the others.""",
  ["fault_sequences", "crash_points"],
  "every sequence of transfer faults and every crash point while fetching archives and checksums, followed by fault-free re-runs",
  "The download script has no tests at all and talks to a real server.",
  [B2H], [("skip if file exists, retry loop", B2H + " download_file, orchestrate_symbol"), ("checksum verification and one re-download", B2H + " verify_zip_checksum")],
  [("raw/<market>/trades/<symbol>/*.zip(.CHECKSUM)", "download cache trusted on restart", "file system")], ["orchestrate_symbol", "files under workdir"])

p("N02", "Archive import stores each month once, isolates failures, always ends",
  """Importing a directory of monthly archives stores every readable archive's trades under its own month exactly once and completely, for every number of workers and every interleaving of
  worker processes, result callbacks and the writer.
  An archive that fails to load or to be stored is counted or reported as an error and does not prevent any other month from being stored, and the import always terminates,
  also when a worker process dies (the months this affects are reported as errors).""",
  ["schedules", "fault_sequences", "configurations"],
  "every schedule of pool workers, completion callbacks and writer thread, worker count, and placement of load errors, write errors and worker deaths",
  "The import pipeline (process pool, callback thread, writer thread, queue) is untested and its schedules are not controllable from a test.",
  [B2H], [("pool of loaders, callback enqueues, single writer thread", B2H + " process_all, _writer_thread, _process_task")],
  [("queue and counters", "hand-off between callback thread and writer", B2H)], ["process_all", "HDF5 file content"])

p("N03", "Re-running the whole pipeline converges to the complete dataset",
  """Whatever crashes and faults hit earlier runs of the download-import-klines pipeline, a final undisturbed run for a symbol leaves a dataset file named after the first and last published month of the range
  that contains exactly the trades and klines of every published month and nothing else.
  Extending the range later extends the product's dataset file (renamed after the new range), keeping the already stored months and adding the new ones, and other symbols' and markets' files are never touched.""",
  ["crash_points", "fault_sequences", "histories"],
  "every history of runs (growing end month, crashes at any point, network and storage faults) ending in a fault-free run",
  "The orchestration is untested; convergence is a property of all crash/restart histories.",
  [B2H, DM, IO], [("rename on extension, idempotent month overwrite, klines rebuild", B2H + " orchestrate_symbol")], (), ["files under workdir/h5", "TradesData.load_trades_h5", "TimeBarReader.read"])

PK = [BASE, "finmlkit/label/tbm.py", "finmlkit/label/weights.py", "finmlkit/feature/core/time.py", "finmlkit/feature/core/utils.py", "finmlkit/feature/core/ma.py",
      "finmlkit/feature/core/momentum.py", "finmlkit/feature/core/volatility.py", "finmlkit/feature/core/volume.py", "finmlkit/feature/core/structural_break/cusum.py", "finmlkit/sampling/filters.py"]
p("P01", "Parallel computations give the same result under every thread schedule",
  """Every computation that the library runs on several threads returns the same result for every assignment of iterations to threads and every interleaving of those threads as when
  its iterations run one after another: no iteration reads or overwrites what another iteration writes, except through accumulations whose result does not depend on order.
  This holds for bar aggregation, labels, label weights, and all feature computations alike.""",
  ["schedules", "inputs", "configurations"],
  "every chunking of every parallel loop onto threads, every interleaving of loads and stores of those threads, every input",
  "Tests run once on whatever schedule the machine gives (or with compilation off, i.e. sequentially); a race shows only on particular interleavings.",
  PK, [("prange loops with iteration-private state", "njit(parallel=True) kernels")], (), ["return values of the public functions"])

p("P02", "Results never depend on previous memory contents",
  """Every output element of every numerical routine is determined by the inputs alone: no returned value ever depends on what freshly allocated memory happened to contain,
  for inputs of every length, including inputs shorter than the window, skipped or missing (NaN) elements and, for feature computations, empty inputs
  (bars are built from at least one trade).""",
  ["inputs", "configurations", "fault_sequences"],
  "every allocator state (adversarially filled allocations) and every input, with emphasis on short, skipped and NaN inputs",
  "Fresh memory is usually zero in short test processes, so an unwritten output element looks like a legitimate 0 or NaN.",
  PK + [BU, LOGIC, "finmlkit/feature/core/correlation.py", "finmlkit/feature/core/reversion.py", "finmlkit/feature/core/trend.py", "finmlkit/feature/utils.py"],
  [("np.empty outputs fully written, or np.zeros/np.full", "all kernels")], (), ["return values of the public functions"])

p("P03", "Shared inputs stay unmodified and concurrent callers do not interfere",
  """Building bars, features, labels and weights never modifies the arrays, series or tables the caller passed in.
  Several caller threads working at the same time on the same inputs, or on the same bar builder or feature kit, each obtain exactly what they would obtain alone, under every interleaving.
  A call that is broken off half-way (out of memory) modifies nothing either, and later calls on the same inputs and objects give the same results as if it had not been made. Nor does a result depend on what the same process computed before.""",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of caller threads (preemption at any line) over every combination of shared inputs and shared builder or kit objects",
  "Tests are single-threaded and mostly do not compare inputs before and after.",
  [KIT, BASE, LOGIC, "finmlkit/feature/kit.py", "finmlkit/feature/base.py", "finmlkit/feature/transforms.py", "finmlkit/label/kit.py"],
  [("lazy caching of bar boundaries", BASE + " _set_bar_close"), ("copy-on-build of feature frames", "finmlkit/feature/kit.py FeatureKit.build")],
  [("_close_ts/_close_indices", "lazily computed, shared by all build_* calls", BASE)], ["public builder and kit methods"])

p("L01", "Closed bars are final and hold exactly the trades of their interval",
  """While trades stream in, a bar that has closed never changes: building bars from any prefix of the tape yields the same closed bars (boundaries, OHLCV, trade count, VWAP, median size, directional
  and trade-size features, footprint) as building from the full tape, for time, tick, volume, dollar and CUSUM bars.
  Each bar aggregates exactly the trades after the previous boundary up to and including its own, so every trade after the first boundary falls in exactly one bar and
  volumes, trade counts and buy/sell totals are conserved. A tick, volume, dollar or CUSUM bar closes at the first trade at which its trade count, accumulated volume, accumulated dollar value (the
  excess is carried over) or cumulative log return (never inside a block of equal timestamps) reaches its threshold.""",
  ["histories", "inputs", "crash_points"],
  "every tape and every sequence of stream cuts/restarts of a live consumer, for every bar type and parameter",
  "Tests build each bar type once from a complete hand-made tape.",
  [LOGIC, BASE, KIT], [("bar boundary indexers", LOGIC), ("half-open (prev, close] aggregation", BASE)],
  [("close indices", "last trade of every bar", LOGIC)], ["*BarKit.build_* results"])

p("L02", "Features and events never use information from the future",
  """For every feature transform, feature kit and event filter, the value reported at time t is the same whether the computation sees data only up to t or also everything that comes later,
  so a live run that restarts at any point reproduces the values of the historical run.
  Event detectors likewise report the same events up to t.""",
  ["histories", "inputs", "crash_points"],
  "every stream cut/restart point and every input, for every built-in transform, composition and event filter",
  "Tests compute features once on a full series; look-ahead is invisible unless prefixes are compared.",
  ["finmlkit/feature/transforms.py", "finmlkit/feature/kit.py", "finmlkit/feature/base.py", "finmlkit/sampling/filters.py", "finmlkit/feature/core"],
  [("trailing windows and recursions only", "feature/core kernels")], (), ["Transform.__call__", "FeatureKit.build", "cusum_filter"])

p("L03", "Barrier labels equal an online monitor and are final once resolved",
  """The label, touch time and return assigned to an event equal what an online observer stepping trade by trade would have recorded: the first time the scaled upper or lower barrier is crossed not
  before the minimum holding time, or else the last trade within the time limit.
  Once an event is resolved by the data seen so far, no later data changes its label, touch time, return or barrier ratio, and events whose time limit exceeds the data are not labelled.
  The views of a labeller (features, labels, returns, event counts and range) always belong to one and the same completed labelling, also after a labelling that was broken off.""",
  ["histories", "inputs", "crash_points"],
  "every tape, event set, barrier and holding-time setting, and every stream cut/restart point",
  "Tests label a few events on complete tapes; finality across cuts and NaN-target or gap corner cases are not sampled.",
  ["finmlkit/label/tbm.py", "finmlkit/label/kit.py"], [("first-touch scan from event to time limit", "finmlkit/label/tbm.py triple_barrier"), ("event truncation and view handling", "finmlkit/label/kit.py TBMLabel")],
  (), ["TBMLabel.compute_labels", "TBMLabel.full_output"])

p("L04", "Sample weights equal an online account of overlapping labels and become final",
  """The concurrency at a trade is the number of labels alive there, from the entry trade to the touch trade inclusive; a label's average uniqueness is the mean inverse concurrency over its life, between 0 and 1; its return
  attribution is the magnitude of the sum of log returns over its life, each divided by the concurrency at that trade (normalised, the attributions sum to the number of events).
  Once an event and every label overlapping it are resolved, data that arrives later changes neither its uniqueness nor its attribution. The final weight is attribution or uniqueness times a linear time decay
  in which the newest event keeps full weight, times an optional ratio, scaled to mean 1; balancing gives every class that occurs the same total weight.
  All this holds for any number of events and of overlapping labels.""",
  ["histories", "inputs", "crash_points"],
  "every tape, event set and pattern of overlaps, and every point at which the stream is cut and continued",
  "Tests use a few hand-made intervals on complete data; heavy overlap, coinciding touches, stream cuts and erased classes are not sampled.",
  ["finmlkit/label/weights.py", "finmlkit/label/kit.py"], [("concurrency, uniqueness, attribution, decay, balancing", "finmlkit/label/weights.py"), ("combination of weights", "finmlkit/label/kit.py SampleWeights")],
  (), ["TBMLabel.compute_weights", "SampleWeights.compute_info_weights", "SampleWeights.compute_final_weights"])

p("L05", "Indicators with a finite look-back forget what lies before it",
  """An indicator with a finite look-back (lags, returns, rolling windows of bars, rolling windows of time, and compositions and rolling operations of these) gives at a bar a value that is determined by the bars of its look-back:
  a live process that is stopped and restarted with only that look-back loaded continues with the values the uninterrupted process gives (up to rounding), and so does one whose earlier history was different.
  A missing value affects only the windows that contain it. Indicators that are recursive by definition (exponential averages, Wilder smoothing, ages and streaks) are exempt.""",
  ["histories", "crash_points", "inputs"],
  "every indicator and parameter, every restart point and every past before the look-back, missing values included",
  "Tests compute indicators once on complete, short series from their first bar.",
  ["finmlkit/feature/transforms.py", "finmlkit/feature/core/utils.py", "finmlkit/feature/core/volatility.py", "finmlkit/feature/core/volume.py", "finmlkit/feature/core/momentum.py", "finmlkit/feature/core/reversion.py", "finmlkit/feature/core/correlation.py"],
  [("running sums and extremes updated bar by bar", "finmlkit/feature/core/volatility.py bollinger_percent_b"), ("rolling extremes", "finmlkit/feature/core/momentum.py stoch_k"), ("prefix sums", "finmlkit/feature/core/volume.py comp_flow_acceleration, vpin")],
  (), ["Transform.__call__", "Feature.__call__", "routines in finmlkit.feature.core"])

p("L06", "Footprint containers keep their content through any history of use",
  """A footprint container is a value: slicing it by position or by time, converting it to a table, switching its representation back and forth and computing volume profiles from it, in any order, on it or on its slices, never changes the content or element types of the bars concerned,
  even if an operation is broken off half-way (out of memory, interrupt); the operation can then be repeated.
  Slices and tables hold exactly the bars asked for. The profile of a time range gives at every bar of the range the value that the profile of the whole history gives there, also with irregular bars and bars that share a timestamp.""",
  ["histories", "fault_sequences", "inputs"],
  "every history of operations and every point at which one of them is broken off",
  "Tests apply one or two operations to a regular, hand-made footprint and never break one off.",
  [DM, "finmlkit/feature/core/volume.py", BU], [("representation switched attribute by attribute", DM + " FootprintData.cast_to_numba_list/cast_to_numpy"), ("subset with warm-up for a range", "finmlkit/feature/core/volume.py VolumePro.compute_range")],
  [("container attributes", "seven ragged attributes converted one after the other", DM)], ["FootprintData", "VolumePro"])

p("F01", "Feature building is independent of order, hashing, failures and retries",
  """Building a kit of features gives the same values for every feature whatever the order in which the features are listed, whichever other features are built with it, the process's hash seed, or earlier builds that failed
  part-way and were retried.
  A failed build leaves the input data as it was. When features read other features' output columns, the topological evaluation order always respects that, whatever the listing, and is the same in every process.""",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "every permutation of the feature list, every hash seed, every point at which a build is interrupted and retried",
  "Tests build one order under one hash seed and never fail part-way.",
  ["finmlkit/feature/kit.py", "finmlkit/feature/base.py"], [("topological ordering of features", "finmlkit/feature/kit.py FeatureKit.build(order='topo')"), ("per-build caching of intermediate series", "finmlkit/feature/kit.py")],
  [("build cache", "intermediate results shared between features", "finmlkit/feature/kit.py")], ["FeatureKit.build result"])

p("F02", "Saved feature configurations survive crashes and rebuild the same features",
  """A feature-kit configuration that was saved successfully stays loadable: a crash or I/O fault while saving a newer version leaves either the complete old or the complete new configuration on disk.
  Loading a saved configuration (of built-in transforms, compositions, arithmetic and named operations, and importable functions) gives a kit with the same feature names in the same order that produces the same values as the kit that was saved.""",
  ["crash_points", "fault_sequences", "inputs"],
  "every crash or fault point inside a configuration save and every kit expressible in the configuration format",
  "Tests round-trip a few kits and never interrupt a save.",
  ["finmlkit/feature/kit.py"], [("JSON configuration write", "finmlkit/feature/kit.py FeatureKit.save_config"), ("reconstruction", "finmlkit/feature/kit.py FeatureKit.from_config")],
  (), ["FeatureKit.save_config/from_config"])

# ---- not applicable to this technique (pure functions: no schedule, clock, fault or interleaving) ----
p("G01", "Logging reaches the configured sinks exactly once and never interferes",
  """With logging left to the library, every record at or above the console level reaches the console and, if FMK_LOG_FILE_PATH is set (with or without directories, existing or not), every record at or above the file level reaches the log file, exactly once,
  however many modules and threads ask for loggers, also all at once at the start; unset levels mean INFO and DEBUG, and records of noisy third-party packages (numba, matplotlib, pandas, numpy, urllib3) below WARNING reach neither.
  Settings come from the environment, else from the .env file. A line says the logger and the level of its record, in files also the local time. The file holds the records of the current day; records of an earlier day are in a file with the date as suffix; the last seven such days are kept; a restart continues the file. Logging an application has configured before is left alone.
  A full disk, a file that cannot be opened, renamed or removed, a broken console or a clock set back never makes a call fail or changes a result; once it is over new records arrive again, and a crash loses no record logged before.""",
  ["histories", "fault_sequences", "schedules"],
  "every configuration, movement of the clock, failure of disk and console, crash point and interleaving of first users",
  "Tests configure logging once, in one thread, look at the handler objects and never move the clock or let a sink fail.",
  ["finmlkit/utils/log.py", "README.md"], [("check of existing handlers, then installation", "finmlkit/utils/log.py setup_logging"), ("rotation and retention settings", "finmlkit/utils/log.py setup_logging")],
  [("root logger handlers", "checked and then installed by whichever thread asks first", "finmlkit/utils/log.py")], ["console", "log files", "application handlers"])

p("L07", "Indicators with memory report what an online observer with a checkpoint reports",
  """An indicator or event detector that remembers the whole past - exponential averages and deviations by number of bars or half-life, Wilder averages (RSI, ADX, exponential ATR), CUSUM events, directional run lengths,
  opening range signals, the daily gap, ages of structural breaks - and a developing or rolling volume profile report at every bar what an online observer reports that sees one bar at a time, keeps only a small documented state,
  and is killed and resumed from its last checkpoint at any points; also when the live process is stopped and restarted, or started late. In the exponential averages and deviations a missing observation has no weight of its own and only lets
  the older ones fade, and a single observation has no spread. The point of control holds the largest volume of the profile, lies inside the value area, and the value area holds at least the requested share.""",
  ["inputs", "histories", "crash_points"],
  "every series (missing values, ties, idle and trending markets, gaps), parameter, point of stop, restart, late start and checkpoint",
  "Tests compare complete short series without holes with one formula; none stops, resumes or starts a series at arbitrary points, or leaves holes in it.",
  ["finmlkit/feature/core/ma.py", "finmlkit/feature/core/volatility.py", "finmlkit/feature/core/momentum.py", "finmlkit/feature/core/trend.py", "finmlkit/feature/core/volume.py", "finmlkit/sampling/filters.py", "finmlkit/feature/transforms.py"],
  [("exponential averages", "finmlkit/feature/core/ma.py ewma"), ("exponential deviations", "finmlkit/feature/core/volatility.py ewms, ewmst, ewmst_mean0"), ("Wilder averages", "finmlkit/feature/core/momentum.py rsi_wilder"), ("events", "finmlkit/sampling/filters.py cusum_filter"),
   ("profiles", "finmlkit/feature/core/volume.py volume_profile_developing")],
  [("running sums", "weights, moments and cumulative sums carried from bar to bar", "finmlkit/feature/core")],
  ["kernel return values", "transform outputs", "event indices"])

p("E01", "Results do not depend on the way the trades took",
  """Bars of every kind, directional, size and footprint features, volume profiles, FeatureKit features, triple-barrier labels and sample weights computed from trades are the same whether the trades come straight from memory
  or were delivered out of order and repeatedly, archived by save_h5 in batches and months (appended or overwritten, in any order, with saves that failed or were killed and were repeated), and loaded again in another process,
  by key, by time range, as a view window, sequentially or by workers that may die, and whether the feature kit is the one in memory or was loaded from its configuration file. Batches end where the timestamp changes; a range or window selects exactly the trades whose time lies in it, bounds included; a bar builder keeps the window its tape had when it was created.""",
  ["inputs", "histories", "fault_sequences", "crash_points", "schedules"],
  "every set of trades, delivery, cut into batches, failed save, form of loading and computation on top",
  "Tests check each stage alone on small synthetic data; none runs archive, load and computation in one history, let alone with failures.",
  ["finmlkit/bar/data_model.py", "finmlkit/bar/kit.py", "finmlkit/bar/base.py", "finmlkit/feature/kit.py", "finmlkit/label/kit.py"],
  [("archive", "finmlkit/bar/data_model.py TradesData.save_h5"), ("load", "finmlkit/bar/data_model.py TradesData.load_trades_h5"), ("bars from a tape", "finmlkit/bar/base.py BarBuilderBase.__init__")],
  [("HDF5 archive", "months of trades, appended to", "finmlkit/bar/data_model.py"), ("view window", "part of a tape shown to the computations", "finmlkit/bar/data_model.py TradesData.set_view_range")],
  ["bar tables", "footprints", "feature tables", "labels", "weights"])

p("X01", "Window indicators equal their textbook definitions",
  """Each indicator with a finite window (moving averages, realised volatility, stochastics, variance ratio, correlations, break statistics and so on) equals its published definition on every input window, up to floating-point rounding.""",
  ["inputs"], "every input series and parameter", "Tests compare a few series; but this is a pure input/output relation.",
  ["finmlkit/feature/core"], [("formulas", "finmlkit/feature/core")], (), ["kernel return values"])
p("X02", "Compiled and interpreted execution agree",
  """Every numerical routine returns the same values when compiled to machine code and when interpreted, and the alternative pandas implementation of a transform agrees with the compiled one.""",
  ["inputs", "configurations"], "every input, compiled versus interpreted", "Tests compare a few series per backend; a pure translation relation.",
  ["finmlkit/feature/base.py", "finmlkit/feature/transforms.py"], [("numba and pandas backends", "finmlkit/feature/base.py")], (), ["Transform.__call__(backend=...)"])
p("X04", "Price tick size inference returns the true tick",
  """The inferred tick size is the largest increment of which all price differences in the sample are multiples.""",
  ["inputs"], "every price sample", "Tests use a few samples; a pure input/output relation.", [BU], [("gcd of rounded differences", BU + " comp_price_tick_size")], (), ["comp_price_tick_size"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
