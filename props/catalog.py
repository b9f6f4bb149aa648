"""
Text of every property: the single source of properties.jsonl, MANIFEST.json
(through tools/gen.py) and of the titles printed by run.py.
"""
_DASK = ("seeded deterministic simulation of a dask deployment: simulated "
         "scheduler, workers, memory and transport executing the real graphs "
         "and kernels, with crash, duplicate, evict, spill, stall and "
         "task-error faults; result compared with the single-process result "
         "and, where one exists, a direct evaluation of the definition")
_DASK_NOTE = ("Seeded search over problems, chunkings, deployments, schedules "
              "and fault sequences; a clean batch is evidence, not proof. "
              "Kernels run as the Python they are written in (numba cannot "
              "compile this tree here); comparison is up to rounding of "
              "re-associated sums.")
_THREADS = ("seeded deterministic thread simulation: real code, one thread "
            "released at a time at line or bytecode granularity, with "
            "injected exceptions and crashes; history checked against a "
            "sequential model")
_THREADS_NOTE = ("Seeded search over interleavings and failing calls; "
                 "pre-emption at every line or bytecode of the library, so "
                 "every data race visible to Python code is reachable, none "
                 "is guaranteed to be reached.")
_IO = ("seeded deterministic simulation of file system, network and "
       "processes: real code on a simulated disk/transport/child process "
       "with injected errors, short reads, torn writes and crashes at every "
       "step")
_IO_NOTE = ("Seeded search over histories and fault sequences; everything "
            "outside the library (network, child processes, disk faults) is "
            "a stand-in.")


def P(id, title, statement, over, quant, why, files, mech, technique, note,
      **kw):
    return dict(id=id, title=title, statement=statement, over=over,
                quant=quant, why=why, files=files, mech=mech,
                technique=technique, note=note, **kw)


_OVER = ["schedules", "fault_sequences", "configurations", "inputs"]
_QUANT = ("every problem, every admissible chunking, every order in which a "
          "scheduler may run the tasks, every placement on threads or worker "
          "processes, and every sequence of worker crashes, lost or "
          "duplicated results and retried tasks; of given inputs or of "
          "inputs computed in the same graph, computed whole, in part or as "
          "part of a larger expression")
_WHY = ("tests compute one or two chunkings on one real scheduler run, no "
        "worker is ever lost and no task re-executed; most of this package's "
        "tests cannot even run where numba is newer than it supports")

PROPERTIES = [
    P("P01", "Lazy wide-field gridding equals gridding in one piece",
      "For the wide-field gridder, the chunked lazy dirty image, predicted "
      "visibilities, residual image and Hessian (normal operator) equal what "
      "the same function returns on the unchunked arrays, and what the "
      "defining sums over visibilities or pixels give, up to rounding and "
      "the requested accuracy. This holds for any chunking of rows and "
      "frequency bands, with and without weights, flags, w-stacking, "
      "non-square pixels and double-precision accumulation. The result never "
      "depends on which worker computed a block, in which order, or how often.",
      _OVER, _QUANT, _WHY,
      ["africanus/gridding/wgridder/dask.py",
       "africanus/gridding/wgridder/vis2im.py",
       "africanus/gridding/wgridder/im2vis.py",
       "africanus/gridding/wgridder/im2residim.py",
       "africanus/gridding/wgridder/hessian.py"],
      [("blockwise over row and band chunks, sum over row partials",
        "gridding/wgridder/dask.py"),
       ("per-chunk re-basing of the band start indices",
        "gridding/wgridder/vis2im.py:_dirty_internal")],
      _DASK, _DASK_NOTE),
    P("P02", "Lazy prediction of visibilities equals the measurement equation",
      "Lazily predicted visibilities equal the measurement equation evaluated "
      "directly: direction-independent gains around the sum over sources of "
      "direction-dependent gains around source coherencies, plus base "
      "visibilities. Any subset of the terms may be present, and any "
      "consistent chunking of sources, rows with their times, and channels "
      "gives the same answer as one unchunked call, whether or not the "
      "source chunks are streamed. Among these are the row and time chunks "
      "that aggregate_chunks makes, as documented: of whole times, none "
      "empty, and none above the limits that holds more than one time.",
      _OVER, _QUANT, _WHY,
      ["africanus/rime/dask_predict.py", "africanus/rime/predict.py",
       "africanus/util/shapes.py"],
      [("linear and fan reductions over source chunks",
        "rime/dask_predict.py:linear_reduction, fan_reduction"),
       ("coherency and streamed graph builders",
        "rime/dask_predict.py:CoherencyStreamReduction, CoherencyFinalReduction"),
       ("per-chunk re-basing of time indices", "rime/predict.py:predict_vis")],
      _DASK, _DASK_NOTE),
    P("P03", "Lazy direct Fourier transforms equal their defining sums",
      "The lazy image-to-visibility and visibility-to-image direct Fourier "
      "transforms, and prediction from a wsclean component list, equal the "
      "defining sum over sources or visibilities for every chunking of "
      "sources, rows, channels and correlations. Visibilities of which any "
      "correlation is flagged never contribute and both sign conventions are "
      "honoured by every block. Chunks along an axis that has to be whole "
      "(sources of an image, spectral coefficients) are refused or change "
      "nothing.",
      _OVER, _QUANT, _WHY,
      ["africanus/dft/dask.py", "africanus/dft/kernels.py",
       "africanus/rime/dask_predict.py", "africanus/rime/wsclean_predict.py"],
      [("blockwise contraction or per-row-chunk partial images then a sum",
        "dft/dask.py"),
       ("one pass over source chunks", "rime/dask_predict.py:wsclean_predict")],
      _DASK, _DASK_NOTE),
    P("P04", "Lazy averaging puts every sample into one bin of its own chunk",
      "Time-and-channel averaging groups the rows of each baseline into bins "
      "of at most the requested duration and the channels into bins of the "
      "requested size, and averages every supplied column over each bin, by "
      "weight where weights are given; flagged samples only count in bins "
      "that are flagged as a whole. Lazily, this gives exactly the rows, in "
      "order, that averaging each row and channel chunk separately and "
      "concatenating gives, whatever the schedule. Columns that were not "
      "supplied stay absent. A chunk with two rows of one baseline at one "
      "time, or with row flags that contradict its sample flags, is refused "
      "with a ValueError.",
      _OVER, _QUANT, _WHY,
      ["africanus/averaging/dask.py",
       "africanus/averaging/time_and_channel_avg.py",
       "africanus/averaging/time_and_channel_mapping.py"],
      [("shared meta-data task per row chunk, one getter per column",
        "averaging/dask.py"),
       ("row and channel mappers", "averaging/time_and_channel_mapping.py")],
      _DASK, _DASK_NOTE),
    P("P05", "Lazy calibration steps equal the unchunked calibration steps",
      "Corrupting, correcting and subtracting model visibilities and forming "
      "the normal-equation terms of the phase-only solver lazily "
      "gives what their definitions (and the same functions on the whole arrays) give, "
      "for diagonal and full gains, every chunking along solution intervals "
      "and every schedule, also when they are combined into larger lazy "
      "expressions such as the solver's iteration written out step by step; "
      "the solver itself gives that iteration's solution. Repeating a computation, or a "
      "part of it after a lost worker, gives the same answer again. Chunks "
      "along an axis an operation needs whole (antennas, directions, "
      "correlations) are refused or change nothing.",
      _OVER, _QUANT, _WHY,
      ["africanus/calibration/utils/dask.py",
       "africanus/calibration/utils/correct_vis.py",
       "africanus/calibration/utils/corrupt_vis.py",
       "africanus/calibration/utils/residual_vis.py",
       "africanus/calibration/phase_only/dask.py",
       "africanus/calibration/phase_only/phase_only.py"],
      [("blockwise over solution intervals", "calibration/utils/dask.py"),
       ("per-chunk re-basing of solution interval starts",
        "calibration/utils/*_vis.py")],
      _DASK, _DASK_NOTE),
    P("P06", "Lazy instrument terms equal the unchunked instrument terms",
      "Phase delays, parallactic angles, feed rotations, source-coordinate "
      "transforms, beam-cube and Zernike beams computed lazily equal "
      "their definitions, and the same terms computed in one call, for every "
      "chunking of sources, "
      "times, antennas and channels and every schedule, on shared memory or "
      "across processes. Chunks along an axis that has to be whole (beam "
      "cubes, Zernike polynomials) are refused or change nothing.",
      _OVER, _QUANT, _WHY,
      ["africanus/rime/dask.py", "africanus/rime/phase.py",
       "africanus/rime/parangles.py", "africanus/rime/feeds.py",
       "africanus/rime/transform.py", "africanus/rime/fast_beam_cubes.py",
       "africanus/rime/zernike.py"],
      [("blockwise calls with per-block argument unwrapping",
        "rime/dask.py")],
      _DASK, _DASK_NOTE),
    P("P07", "Lazy sky models equal the unchunked sky models",
      "Conversion between Stokes parameters and correlations, Gaussian "
      "shapes, spectra of sources, spectral-index fits and coordinate "
      "conversions computed lazily equal the same functions on the whole "
      "arrays and, except for the fits, their textbook definitions. This holds for every chunking and schedule, and for "
      "every layout of the input and output correlations that may be "
      "requested by name or number; a layout that cannot be produced is "
      "refused with an error. Chunks along an axis that has to be whole "
      "(correlations, spectral coefficients, fitted channels) are refused or "
      "change nothing.",
      _OVER, _QUANT, _WHY,
      ["africanus/model/coherency/dask.py",
       "africanus/model/coherency/conversion.py",
       "africanus/model/shape/dask.py", "africanus/model/spectral/dask.py",
       "africanus/model/spi/dask.py", "africanus/model/wsclean/dask.py",
       "africanus/coordinates/dask.py"],
      [("blockwise calls with symbolic correlation layouts",
        "model/coherency/dask.py:convert"),
       ("conversion schema resolved once and broadcast to blocks",
        "model/coherency/conversion.py:convert_setup")],
      _DASK, _DASK_NOTE),
    P("P08", "Lazy chunked gridding with streams adds every chunk exactly once",
      "Gridding visibilities lazily over row chunks adds every row chunk's "
      "contribution into every correlation's grid exactly once, with or "
      "without streaming and for any number of streams; degridding gives "
      "every row its own visibilities. The final grids equal the sum of "
      "gridding the chunks one after the other.",
      _OVER, _QUANT, _WHY,
      ["africanus/gridding/nifty/dask.py"],
      [("chain of in-place grid updates per stream, then a final sum",
        "gridding/nifty/dask.py:GridStreamReduction, FinalGridReduction")],
      _DASK, _DASK_NOTE + " The C++ gridder itself is a nearest-neighbour "
      "stand-in that adds in place, as the real one does."),
    P("P09", "Lazy faceted (de)gridding equals its unchunked counterpart",
      "Lazy gridding and degridding with the faceting gridder use every row, "
      "channel, band and facet exactly once, so that each output equals the "
      "unchunked call on the same data, for every chunking of rows, channels "
      "and facets and every schedule.",
      _OVER, _QUANT, _WHY,
      ["africanus/gridding/perleypolyhedron/dask.py",
       "africanus/gridding/perleypolyhedron/gridder.py",
       "africanus/gridding/perleypolyhedron/degridder.py"],
      [("blockwise over row and facet chunks with contraction",
        "gridding/perleypolyhedron/dask.py")],
      _DASK, _DASK_NOTE + " One recorded finding: the mean over row chunks."),
    P("P10", "Computing never modifies the caller's arrays",
      "Neither calling a function directly nor computing its lazy result "
      "modifies, freezes or aliases the arrays the caller passed in, even "
      "when the call fails half way. Functions also accept read-only arrays, "
      "so calling twice with the same arrays, or sharing them between "
      "several calls, gives the same answers as private copies would.",
      ["inputs", "fault_sequences", "schedules"],
      "every function, every input, every point at which a call may fail, "
      "every schedule of the blocks of a lazy computation",
      "tests build fresh arrays for every call and never look at them again, "
      "hand over read-only memory or make a call fail half way",
      ["africanus/gridding/wgridder", "africanus/rime", "africanus/dft",
       "africanus/averaging", "africanus/calibration", "africanus/model",
       "africanus/linalg", "africanus/deconv", "africanus/gps",
       "africanus/coordinates", "africanus/gridding/perleypolyhedron"],
      [("kernels allocate their outputs and copy what they re-base",
        "every public function")],
      "seeded deterministic simulation: direct calls with read-only buffers "
      "and exceptions injected at a seeded source line, and lazy "
      "computations on a simulated deployment; fingerprints of all "
      "arguments and all graph blocks compared before and after", _DASK_NOTE),
    P("P11", "Declared shapes, chunks and dtypes of lazy results are true",
      "The shape, chunk sizes and dtype that a lazy result declares are the "
      "ones its computed blocks have, for every combination of inputs, "
      "chunkings and optional arguments, so that further lazy operations on "
      "it are planned correctly. The order in which blocks are computed or "
      "re-computed never changes that.",
      _OVER, _QUANT, _WHY,
      ["africanus/gridding/wgridder/dask.py", "africanus/rime/dask.py",
       "africanus/rime/dask_predict.py", "africanus/dft/dask.py",
       "africanus/averaging/dask.py", "africanus/calibration/utils/dask.py",
       "africanus/calibration/phase_only/dask.py",
       "africanus/model/coherency/dask.py", "africanus/model/shape/dask.py",
       "africanus/model/spectral/dask.py", "africanus/model/spi/dask.py",
       "africanus/model/wsclean/dask.py", "africanus/coordinates/dask.py",
       "africanus/gridding/perleypolyhedron/dask.py"],
      [("dtype, new_axes and adjust_chunks of every blockwise call",
        "*/dask.py")],
      "seeded deterministic simulation of a dask deployment; every output "
      "block of every (re)execution compared with what the collection "
      "declares", _DASK_NOTE),
    P("P12", "Lazy expressions sharing a graph do not disturb each other",
      "Several lazy expressions that differ in any argument (data, chunking, "
      "cell sizes, flags, layouts or options) can be built in one process "
      "and computed together in one graph, one after the other, or "
      "repeatedly, and each gives what it gives when computed alone. In "
      "particular, two different computations never share a key.",
      _OVER + ["histories"],
      "every pair or triple of related expressions, every order of building "
      "and computing them, every schedule and fault sequence of the "
      "deployment",
      "tests compute one expression at a time, while dask merges all graphs "
      "of one computation by key: a token that ignores an argument silently "
      "replaces one result by another",
      ["africanus/rime/dask_predict.py", "africanus/gridding/nifty/dask.py",
       "africanus/averaging/dask.py", "africanus/model/coherency/dask.py",
       "africanus/gridding/wgridder/dask.py"],
      [("tokens of hand-written graph layers",
        "gridding/nifty/dask.py:GridStreamReduction, "
        "rime/dask_predict.py:LinearReduction"),
       ("token of the gridder configuration",
        "gridding/nifty/dask.py:normalize_gridder_config_wrapper")],
      "seeded deterministic simulation of a dask deployment: joint graphs of "
      "neighbouring expressions executed by a seeded scheduler with faults; "
      "each result compared with the expression evaluated alone", _DASK_NOTE),
    P("P13", "Streams bound the number of operations in flight",
      "Gridding with a number of streams allocates at most that many grids "
      "per correlation and never has more gridding operations of a "
      "correlation in flight; predicting with streams never processes two "
      "source chunks of the same output block at once. The result is the "
      "same as without streams.",
      ["schedules", "configurations"],
      "every schedule of the tasks on any number of threads and every number "
      "of row or source chunks",
      "tests check results only; how many operations overlap depends on the "
      "schedule, and breaking the chain leaves the result unchanged",
      ["africanus/gridding/nifty/dask.py", "africanus/rime/dask_predict.py"],
      [("each task of a stream consumes the previous task's grid",
        "gridding/nifty/dask.py:GridStreamReduction"),
       ("linear chain over source chunks",
        "rime/dask_predict.py:LinearReduction")],
      "seeded deterministic thread simulation of the tasks of one graph; "
      "operations in flight and allocated grids counted as an invariant of "
      "every schedule", _DASK_NOTE),
    P("P14", "Calls from several threads at once do not affect each other",
      "Any functions of the package may be called at the same time from "
      "several threads of one process, with the same or with different "
      "arguments, and each call returns what it returns when called alone. "
      "The same goes for lazy results that several threads build, or compute "
      "from the same expression. "
      "This also holds when another thread's call fails in the middle, and "
      "afterwards.",
      ["schedules", "inputs", "fault_sequences"],
      "every interleaving of two or three calls at every source line or "
      "bytecode, with or without a failing call among them",
      "dask's threaded scheduler runs kernels concurrently but no test "
      "controls or even provokes an interleaving",
      ["africanus/gridding/wgridder", "africanus/model/coherency",
       "africanus/rime", "africanus/dft", "africanus/averaging",
       "africanus/calibration", "africanus/linalg", "africanus/deconv"],
      [("no state shared between calls", "every public function")],
      _THREADS, _THREADS_NOTE),
    P("P15", "A failed or interrupted call leaves nothing behind",
      "When a call is interrupted or runs out of memory at any point, the "
      "arguments are unchanged and the same call, or a different one, "
      "afterwards returns exactly what it would have returned had the failed "
      "call never been made.",
      ["crash_points", "histories", "inputs"],
      "every point at which a call can fail, any number of failed attempts, "
      "every later call",
      "no test makes a call fail half way",
      ["africanus/gridding/wgridder", "africanus/model/coherency",
       "africanus/rime", "africanus/dft", "africanus/averaging",
       "africanus/calibration", "africanus/linalg", "africanus/deconv",
       "africanus/util"],
      [("no partially updated state survives an exception",
        "every public function")],
      "seeded deterministic fault injection: MemoryError or "
      "KeyboardInterrupt raised at a seeded line or bytecode of the real "
      "code, repeatedly; later calls compared with a history without faults",
      _THREADS_NOTE),
    P("P16", "A lazy result can be computed by a process that just started",
      "A lazy result can be serialised, sent through any number of "
      "processes and computed by one that has executed nothing of the "
      "calling program, and gives the same values there.",
      ["configurations", "histories", "inputs"],
      "every lazy function, input and chunking; every number of "
      "serialisation hops; fresh or previously used memory",
      "tests compute in the process that built the graph, where module "
      "state, caches and closures are all at hand",
      ["africanus/gridding/wgridder/dask.py", "africanus/rime/dask.py",
       "africanus/rime/dask_predict.py", "africanus/gridding/nifty/dask.py",
       "africanus/averaging/dask.py", "africanus/model/coherency/dask.py",
       "africanus/calibration/utils/dask.py"],
      [("tasks reference importable functions and plain data",
        "*/dask.py"),
       ("graph layers expanded on demand and pickled without the expansion",
        "gridding/nifty/dask.py, rime/dask_predict.py")],
      "seeded deterministic simulation with process restart: the graph is "
      "built in one process and, after seeded serialisation hops, computed "
      "in another forked before it was built", _DASK_NOTE),
    P("P17", "Memoized functions are evaluated once per key and process",
      "However many threads call a memoized function at the same time, for "
      "every key there is one successful evaluation and every caller gets "
      "that very object, whatever it is (None and falsy values included). A "
      "failing evaluation, of the function or of its key function, is "
      "reported to the call that made it and to no other, is not remembered, "
      "and never blocks later calls.",
      ["schedules", "fault_sequences", "histories"],
      "every interleaving of the callers, every outcome of the function, "
      "every interruption",
      "tests never call from two threads nor make the function fail",
      ["africanus/util/code.py"],
      [("cache dictionary behind a lock",
        "util/code.py:memoize_on_key.__call__")],
      _THREADS, _THREADS_NOTE),
    P("P18", "A singleton class has one instance of its own",
      "However many threads ask a singleton class for its instance, its "
      "constructor completes once and all get that instance, which is an "
      "instance of exactly that class even if a parent or child class is a "
      "singleton too. A constructor that fails is tried again by the next "
      "caller; a constructor may itself use other singletons; an instance "
      "that is falsy is still the instance.",
      ["schedules", "fault_sequences", "histories"],
      "every interleaving of the callers, class hierarchy, failing or "
      "nesting constructor",
      "no test uses the class",
      ["africanus/util/code.py"],
      [("double-checked lock", "util/code.py:SingletonMixin.instance")],
      _THREADS, _THREADS_NOTE),
    P("P19", "Functions with missing requirements fail clearly and never run",
      "A function that needs optional packages is returned unchanged when "
      "all of them import. When one is missing or broken, calling it never "
      "runs its body, and raises an error naming the missing packages, or "
      "skips the test if and only if the process is marked as running "
      "pytest (unless exceptions are forced), also while another thread "
      "changes the mark. An import error that the caller hands over although "
      "all packages import is raised at once.",
      ["configurations", "schedules", "inputs"],
      "every combination of present, missing and broken packages and "
      "supplied errors, every interleaving with changes of the mark",
      "tests cannot remove or break installed packages",
      ["africanus/util/requirements.py", "africanus/util/testing.py"],
      [("decorator chosen at import time",
        "util/requirements.py:requires_optional"),
       ("marker behind a lock", "util/testing.py:in_pytest")],
      "seeded deterministic simulation of the import environment and of "
      "caller threads; missing and broken packages are the injected faults",
      _THREADS_NOTE),
    P("P20", "Header installs are complete or reported as failed",
      "Whenever the cub or trove directory is handed to a caller, it holds "
      "exactly the files of the official archive, whatever happened before: "
      "truncated, corrupted or failing downloads, full or failing disks, a "
      "process killed at any step, leftovers of other versions, other "
      "threads installing at the same time. Otherwise the call raises an "
      "error saying why, and once the trouble is over the next process "
      "succeeds. Nothing is downloaded when the headers are installed or a "
      "correct archive is there, and no temporary files are left behind.",
      ["crash_points", "fault_sequences", "histories", "schedules"],
      "every sequence of process starts, crashes, disk and network faults "
      "and concurrent callers within a process",
      "the tests need the network and see at most one undisturbed install",
      ["africanus/util/cub.py", "africanus/util/trove.py",
       "africanus/util/files.py", "africanus/util/appdirs.py"],
      [("hash check of the archive", "util/cub.py:_install_cub"),
       ("extraction next to the target and rename",
        "util/cub.py:_install_cub, util/trove.py:_install_trove"),
       ("double-checked lock", "util/cub.py:cub_dir")],
      _IO, _IO_NOTE),
    P("P21", "A file's digest covers the whole file or is an error",
      "The digest of a file is the SHA1 of all its bytes for every file "
      "size and however the operating system splits the reads; when the file "
      "is missing or reading fails, an error is raised and no digest is "
      "returned.",
      ["inputs", "fault_sequences"],
      "every file content and size, every pattern of short and failing reads",
      "no test hashes a file on a disk that errs",
      ["africanus/util/files.py"],
      [("chunked reading", "util/files.py:sha_hash_file")],
      _IO, _IO_NOTE),
    P("P22", "A progress bar only watches the computation",
      "Computing under an estimating progress bar gives the result, or "
      "raises the error, that computing without it would. The bar's timer "
      "thread never dies of an exception, also if the terminal is closed, "
      "ends within one update interval of the computation, does not outlive "
      "it into the next one and does not keep the interpreter alive. What it "
      "shows is the time elapsed and an estimate from all tasks completed so "
      "far, which stays put while no task completes.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "every graph, task timing and failure, every interleaving of the "
      "computing and the timer thread, consecutive computations",
      "the test computes one graph that ends before the first update",
      ["africanus/util/dask_util.py"],
      [("task bookkeeping behind a lock",
        "util/dask_util.py:EstimatingProgressBar"),
       ("timer loop bound to one computation",
        "util/dask_util.py:timer_func, update_bar")],
      _THREADS + "; simulated clock and terminal", _THREADS_NOTE),
    P("P23", "Driving the CUDA compiler leaves no trace and recovers",
      "Probing the CUDA toolchain and compiling a kernel return what the "
      "toolchain says, or raise an error that shows the source and the "
      "compiler's own messages. Whatever fails (compiler, child process, "
      "disk, file descriptors), standard error is restored, no descriptor, "
      "temporary file or file in the current directory is left, the "
      "caller's options are unchanged, a failed probe is not remembered, and "
      "calls from several threads do not mix.",
      ["fault_sequences", "schedules", "configurations", "histories"],
      "every toolchain, sequence of failures and interleaving of callers",
      "the test needs a GPU and a compiler and exercises one success",
      ["africanus/util/nvcc.py"],
      [("temporary directory and redirection scopes",
        "util/nvcc.py:_tempdir, stdchannel_redirected"),
       ("cached probes", "util/nvcc.py:get_cuda_info"),
       ("compile lock", "util/nvcc.py:compile_using_nvcc")],
      _IO, _IO_NOTE),
    P("P24", "GPU implementations compute the defined result on any schedule",
      "The CUDA versions of phase_delay, feed_rotation, beam_cube_dde, "
      "predict_vis and coherency conversion return the shape, precision and, "
      "up to rounding, the values of their definitions (which the CPU "
      "versions compute), for every input type, size and memory layout they "
      "accept, whatever was called before and however the device orders its "
      "blocks and interleaves its threads. No kernel reads or writes outside "
      "an array, uses memory nobody has written, breaks the rules of warp "
      "exchanges, waits for ever or changes its inputs. Requests they cannot "
      "serve raise an error on every call, and after a failed allocation, "
      "compilation or launch is reported the same call succeeds.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "every problem, every sequence of calls and host threads, every order "
      "of blocks and interleaving of device threads, every device failure",
      "the CUDA tests need a GPU and are skipped where there is none; a real "
      "device shows a few of its schedules only",
      ["africanus/rime/cuda", "africanus/model/coherency/cuda",
       "africanus/util/cuda.py", "africanus/util/jinja2.py"],
      [("kernels cached by argument types",
        "rime/cuda/*.py, model/coherency/cuda/conversion.py:_key_fn"),
       ("shared memory filled by some threads before a barrier",
        "rime/cuda/phase.cu.j2, beam.cu.j2, beam_freq_interp.cu.j2"),
       ("register exchange within warps",
        "rime/cuda/predict.cu.j2:JonesMultiplier, rime/cuda/macros.j2")],
      "seeded deterministic simulation of a GPU: the real kernels, compiled "
      "for the host, run one fibre per CUDA thread under a seeded scheduler "
      "with garbage in uninitialised memory and injected device failures; "
      "results compared with the definitions",
      "Seeded search over calls, device schedules and failures. cupy, the "
      "driver and the CUDA language are stand-ins; the model is that of "
      "independently scheduled threads with converged warp primitives."),
    P("P25", "wsclean component lists are loaded whole or refused",
      "Loading a wsclean component list, from a file or from any iterable of "
      "lines, returns the list of (column, values) pairs in header order, "
      "each with one value per component in the order of the lines, angles "
      "in radians, and header or documented defaults for empty fields. A "
      "list without header, with an unknown column, a wrong number of fields "
      "or an unreadable value is refused with an error, and a read or stream "
      "that fails half way raises instead of giving part of the model. The "
      "file is closed in every case and an iterable of the caller's is not.",
      ["inputs", "fault_sequences", "histories"],
      "every component list, every way of splitting or failing the reads, "
      "every reading of the result",
      "tests load one good file; no read ever fails",
      ["africanus/model/wsclean/file_model.py"],
      [("header and line parsing, defaults", "file_model.py:_parse_header, "
        "_parse_lines"), ("file handling", "file_model.py:load")],
      _IO, _IO_NOTE),
]

_PURE = ("Pure function of its arguments: no concurrency, time, I/O or "
         "multi-party behaviour for the values to depend on, so a simulator "
         "has nothing to decide. ")


def N(id, title, statement, files, na):
    return P(id, title, statement, ["inputs"], "every input",
             "tests sample a few inputs", files, [], None, None, na=na)


NOT_APPLICABLE = [
    N("N01", "CLEAN reaches its threshold and accounts for all flux",
      "The dirty image equals the residual plus the components convolved "
      "with the beam after every number of iterations, and the peak "
      "residual falls below the threshold or the iterations are used up.",
      ["africanus/deconv/hogbom/clean.py"],
      _PURE + "That calls neither disturb their arguments nor each other is "
      "checked under P10, P14 and P15."),
    N("N02", "Kronecker products of matrices act like the dense matrix",
      "Products, solves, inverses, Cholesky factors and determinants of "
      "Kronecker-structured matrices equal those of the expanded matrix.",
      ["africanus/linalg/kronecker_tools.py"],
      _PURE + "That calls neither disturb their arguments nor each other is "
      "checked under P10, P14 and P15."),
    N("N03", "Geometry of facets and bounding hulls is exact",
      "Convex hulls, their merging, intersection and point-containment tests "
      "agree with set operations on the pixels they cover.",
      ["africanus/linalg/geometry.py"],
      _PURE),
    N("N04", "Gaussian-process kernels are symmetric and positive",
      "Kernel matrices are symmetric, positive semi-definite and equal their "
      "formula for every set of inputs.",
      ["africanus/gps/kernels.py", "africanus/gps/utils.py"],
      _PURE + "That calls neither disturb their arguments nor each other is "
      "checked under P10, P14 and P15."),
    N("N05", "Beam file schemas and grids follow the FITS headers",
      "Correlation file names, axis order, units and grids derived from a "
      "beam's headers describe that beam for every valid header, and "
      "invalid headers are refused.",
      ["africanus/util/beams.py", "africanus/testing/beam_factory.py"],
      _PURE + "Headers are handed over as in-memory objects."),
    N("N06", "Shapes, types and docstrings are derived consistently",
      "Shapes of correlations and inferred complex types follow their rules, and command "
      "line parsing accepts what it documents.",
      ["africanus/util/shapes.py", "africanus/util/type_inference.py",
       "africanus/util/casa_types.py", "africanus/util/cmdline.py",
       "africanus/util/docs.py", "africanus/gridding/util.py"],
      _PURE),
    N("N07", "Cubic splines pass through their knots",
      "A fitted spline passes through every knot with continuous first and "
      "second derivatives and is extrapolated as requested.",
      ["africanus/averaging/splines.py"],
      _PURE + "The module is used by nothing else and exported nowhere; "
      "DESIGN.md notes defects seen while reading it."),
]
PROPERTIES += NOT_APPLICABLE
