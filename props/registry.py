""" Property id -> machinery. """
from sim.runner import Property

CLUSTER_REAL = ["africanus graph builders and kernels (interpreted)",
                "dask graph construction, optimisation and task execution",
                "cloudpickle transport"]
CLUSTER_STUB = ["dask scheduler, workers and network (simulated)",
                "numba compiler (kernels run as the Python they are "
                "written in)"]
CLUSTER_ASSUME = [
    "Interpreted kernels compute what their compiled versions compute.",
    "Results are compared up to rounding of re-associated sums.",
    "Time and row dimensions are chunked consistently, as the documentation "
    "demands."]


def _equiv(pid, title, group, quick, thorough, session=6, **kw):
    from props import equiv
    real, stub = list(CLUSTER_REAL), list(CLUSTER_STUB)
    if group == "nifty":
        stub.append("nifty_gridder (C++): nearest-neighbour stand-in")
    if group == "wgridder":
        real.append("ducc0 C++ gridder")
    return Property(
        pid, title, equiv.run_group(group), quick, thorough, session,
        real=real, stub=stub,
        rule="Each run draws an operator, a problem, a chunking, a "
        "deployment (threads sharing memory or workers with private memory), "
        "a schedule and a fault sequence.",
        assumptions=CLUSTER_ASSUME, **kw)


def _cross(pid, title, fn, quick, session=6, **kw):
    from props import cross, streams
    if not callable(fn):
        fn = getattr(streams if fn.startswith("streams_") else cross,
                     fn.replace("streams_", ""))
    real, stub = list(CLUSTER_REAL), list(CLUSTER_STUB)
    real.append("ducc0 C++ gridder")
    stub.append("nifty_gridder (C++): nearest-neighbour stand-in")
    return Property(
        pid, title, fn, quick, quick * 25, session,
        real=real, stub=stub,
        rule="Each run draws operators and problems from the whole "
        "catalogue, a deployment or caller threads, a schedule and a fault "
        "sequence.",
        assumptions=CLUSTER_ASSUME, **kw)


def _util(pid, title, module, fn, quick, real, stub, rule, session=20,
          assumptions=(), **kw):
    import importlib
    fn = getattr(importlib.import_module("props." + module), fn)
    return Property(pid, title, fn, quick, quick * 25, session, real=real,
                    stub=stub, rule=rule, assumptions=list(assumptions),
                    **kw)


def table():
    return {
        "P01": lambda t: _equiv("P01", t, "wgridder", 8000, 160000),
        "P02": lambda t: _equiv("P02", t, "predict", 6000, 120000),
        "P03": lambda t: _equiv("P03", t, "dft", 7000, 140000),
        "P04": lambda t: _equiv("P04", t, "averaging", 2000, 40000),
        "P05": lambda t: _equiv("P05", t, "calibration", 8000, 160000),
        "P06": lambda t: _equiv("P06", t, "rime", 8000, 160000),
        "P07": lambda t: _equiv("P07", t, "sky", 14000, 280000),
        "P08": lambda t: _equiv("P08", t, "nifty", 6000, 120000),
        "P10": lambda t: _cross("P10", t, "inputs_untouched", 8000),
        "P11": lambda t: _cross("P11", t, "metadata_true", 7000),
        "P12": lambda t: _cross("P12", t, "joint", 4000),
        "P13": lambda t: _cross("P13", t, "streams_run", 4000),
        "P14": lambda t: _cross("P14", t, "concurrent", 3000, session=1),
        "P15": lambda t: _cross("P15", t, "interrupted", 4000, session=1),
        "P16": lambda t: _cross("P16", t, "other_process", 4000, session=1),
        "P17": lambda t: _util(
            "P17", t, "sync", "memoize", 20000,
            ["africanus.util.code.memoize_on_key"],
            ["locks, threads and clock (simulated)", "user functions"],
            "Each run draws keys, functions with seeded outcomes (values, "
            "falsy values, failures), caller threads, interrupts and a "
            "schedule at line or bytecode granularity."),
        "P18": lambda t: _util(
            "P18", t, "sync", "singleton", 20000,
            ["africanus.util.code.SingletonMixin"],
            ["locks, threads and clock (simulated)", "user classes"],
            "Each run draws a class hierarchy, constructors that fail or "
            "take time, caller threads, interrupts and a schedule."),
        "P19": lambda t: _util(
            "P19", t, "sync", "requirements", 8000,
            ["africanus.util.requirements", "africanus.util.testing",
             "the decorator package", "importlib"],
            ["optional packages (present, missing or broken)",
             "locks, threads (simulated)"],
            "Each run draws an environment of optional packages, a "
            "requirement list, caller threads, a thread that toggles the "
            "test marker, and a schedule."),
        "P22": lambda t: _util(
            "P22", t, "progress", "run", 8000,
            ["africanus.util.dask_util", "dask's synchronous scheduler"],
            ["threads, events, locks and clocks (simulated)",
             "the terminal (stalls, closed file)", "tasks"],
            "Each run draws bars, up to four consecutive graphs of timed, "
            "possibly failing tasks, an unreliable terminal and a schedule "
            "of the computing and timer threads."),
        "P20": lambda t: _util(
            "P20", t, "install", "run", 10000,
            ["africanus.util.cub", "africanus.util.trove",
             "africanus.util.files", "africanus.util.appdirs", "zipfile",
             "shutil", "tempfile"],
            ["network (urlopen)", "disk faults on a scratch directory",
             "process starts and crashes",
             "SHA1 of the stand-in archives is the official one",
             "threads and locks (simulated)"],
            "Each run draws what is on disk, up to four process starts, "
            "caller threads, network and disk faults, crashes at any "
            "operation or schedule step; the last start is fault-free."),
        "P21": lambda t: _util(
            "P21", t, "install", "hashing", 4000,
            ["africanus.util.files"], ["disk faults on a scratch directory"],
            "Each run draws a file, short reads and I/O errors."),
        "P23": lambda t: _util(
            "P23", t, "nvcc", "run", 9000,
            ["africanus.util.nvcc", "setuptools' distutils compilers"],
            ["nvcc and the programs it builds", "cupy",
             "disk faults on a scratch directory",
             "file descriptors (dup may fail)",
             "threads and locks (simulated)"],
            "Each run draws a CUDA installation, up to three rounds of calls "
            "from up to three threads, compiler, process, descriptor and "
            "disk faults and a schedule; the last round is fault-free."),
        "P24": lambda t: _util(
            "P24", t, "gpu", "run", 2500,
            ["africanus.rime.cuda, africanus.model.coherency.cuda: kernel "
             "generation, caching and launching",
             "the CUDA kernels (compiled by g++ against a stand-in of the "
             "CUDA language)", "africanus.util.{cuda,jinja2,code}", "jinja2"],
            ["cupy and the CUDA driver", "GPU: one fibre per CUDA thread",
             "host threads and locks (simulated)"],
            "Each run draws up to four calls (functions, types, shapes, "
            "memory layouts), their callers' threads, device faults and, "
            "for every launch, an order of blocks and a schedule of the "
            "CUDA threads.", session=6,
            measure="distinct digests of the sequence of CUDA thread switches "
            "of all launches of a run"),
        "P25": lambda t: _util(
            "P25", t, "skymodel", "run", 8000,
            ["africanus.model.wsclean.load"],
            ["disk faults on a scratch directory", "streams that break"],
            "Each run draws up to three models (columns, defaults, values, "
            "defects), a source of lines, short reads and I/O errors."),
        "P09": lambda t: _equiv("P09", t, "perley", 4000, 80000),
    }




IDS = sorted(table())


def title(pid):
    from props.catalog import PROPERTIES
    return ([p["title"] for p in PROPERTIES if p["id"] == pid] or [pid])[0]


def load(pid):
    return table()[pid](title(pid))
