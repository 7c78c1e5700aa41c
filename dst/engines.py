"""One engine per property: how to generate, run, count and minimise its simulated executions."""
from . import c17, pipeline, qprops, shrink
from .kernel import mix

REAL_PIPELINE = ["src/collect_data.py", "src/decoding.py", "src/paper/aggregate_csv_data.py", "src/paper/main_collect_all.py",
                 "pymatching", "networkx", "stim circuits and error models", "csv, argparse, tempfile, pathlib, subprocess wrappers"]
STUB_PIPELINE = ["stim's compiled detector sampler (seeded, known hidden flips)", "external decoder process (strict keyed stub)",
                 "clocks, pids, stdout, process start/kill, file system calls (scratch directory behind intercepted os.*; _pyio buffering)",
                 "operating system scheduler (seeded)"]
ASSUME_PIPELINE = ["one write() call on an O_APPEND file is atomic towards other processes (POSIX local file systems)",
                   "user-space code between two intercepted calls of one process is not preempted (processes share no memory)",
                   "_pyio buffers and issues system calls like the C io module"]


class Engine:
    recheck = 4
    chunk = 1
    required_probes = ()
    assumptions = ()
    rule = ""
    distinct_measure = ""
    real = ()
    stubs = ()
    counts = dict(quick=100, thorough=10000)

    def __init__(self, prop):
        self.prop = prop

    def prepare(self, tier):
        pass

    def seeds(self, tier, seed):
        n = self.counts[tier]
        return [mix(seed, self.prop, k) >> 1 for k in range(n)]

    def nontrivial(self, sc, r):
        return True


class PipelineEngine(Engine):
    variants = dict(quick=5, thorough=9)
    real = REAL_PIPELINE
    stubs = STUB_PIPELINE
    assumptions = ASSUME_PIPELINE
    distinct_measure = "digest of the full event log (every intercepted call with its process, arguments, faults and output)"
    rule = ("each seed generates a workload (problems, files, phases of processes), runs it fault-free, then again with faults placed at "
            "calls that occurred; a run is non-trivial if at least one fault fired, a process was preempted, or a batch was recorded or decoded")

    def __init__(self, prop, counts, probes=()):
        super().__init__(prop)
        self.counts = dict(quick=counts, thorough=counts * 40)
        self.required_probes = probes

    def runs(self, seed, tier):
        g = pipeline.variants(self.prop, seed, self.variants[tier])
        sc = next(g)
        r = pipeline.run_scenario(sc)
        yield sc, r
        next(g)
        try:
            v = g.send(r)
            while True:
                yield v, pipeline.run_scenario(v)
                v = next(g)
        except StopIteration:
            return

    def run(self, sc):
        return pipeline.run_scenario(sc)

    def nontrivial(self, sc, r):
        return bool(r.faults) or r.preempts > 0 or r.batches > 0 or r.probes.get("decodes_checked", 0) > 0 or \
            r.probes.get("counts_checked", 0) > 0

    def describe(self, sc, r):
        return dict(seed=sc["seed"], phases=[[(p["name"], [o["op"] for o in p["ops"]]) for p in ph["procs"]] for ph in sc["phases"]],
                    faults=sc["faults"], sched=sc["sched"], steps=r.steps, switches=r.switches)

    def shrink(self, sc, cls):
        return shrink.shrink(sc, pipeline.run_scenario, cls)


class FigureEngine(PipelineEngine):
    real = REAL_PIPELINE + ["src/plotting.py", "src/probability_util.py", "src/paper/main_render_*.py", "matplotlib (artists and axes)", "scipy"]
    stubs = STUB_PIPELINE + ["rasterising and writing of figure files (the figure is taken apart when it is saved)", "plt.show"]
    variants = dict(quick=3, thorough=6)

    def prepare(self, tier):
        from . import figures
        figures.preload()


class QuantumEngine(Engine):
    """Executions of circuits made by the repository's code; the seed decides circuit, random outcomes and physical faults."""
    time_unit = "circuit time steps"
    real = ["src/honeycomb_layout.py", "src/honeycomb_circuit.py", "src/measure_tracker.py", "src/noise.py",
            "src/paper/main_collect_all.py (surface code circuits)"]
    stubs = ["quantum hardware: stim's stabilizer and frame simulators with every random outcome and fault decided by the seed"]
    assumptions = ["stim's stabilizer and Pauli frame simulation is correct"]
    distinct_measure = "digest of the generated circuits, random outcomes, results and faults of the run"

    def __init__(self, prop, counts, thorough, rule, probes=(), real=(), assumptions=()):
        super().__init__(prop)
        self.counts = dict(quick=counts, thorough=thorough)
        self.required_probes = probes
        self.rule = rule
        self.real = self.real + list(real)
        self.assumptions = self.assumptions + list(assumptions)

    def runs(self, seed, tier):
        for sc in qprops.GEN[self.prop](seed, tier):
            yield sc, qprops.RUN[self.prop](sc)

    def run(self, sc):
        return qprops.RUN[self.prop](sc)

    def describe(self, sc, r):
        return {**{k: v for k, v in sc.items() if k != "progs"}, **({"program": sc["progs"][0]} if "progs" in sc else {}),
                "steps": r.steps, "probes": r.probes}

    def nontrivial(self, sc, r):
        return r.steps > 0

    def shrink(self, sc, cls):
        best, r, n = shrink.shrink(sc, self.run, cls, cands=qprops.candidates)
        if getattr(r, "shot", None):
            c = dict(best, shot=r.shot)
            r2 = self.run(dict(c, keep_log=True))
            if r2.violation and r2.violation[0] == cls:
                best, r, m = shrink.shrink(c, self.run, cls, cands=qprops.candidates)
                n += m
        return best, r, n + 1


class ContextEngine(QuantumEngine):
    time_unit = "not applicable (no clock involved)"
    real = ["src/honeycomb_layout.py", "src/honeycomb_circuit.py", "src/measure_tracker.py", "src/noise.py", "src/paper/main_collect_all.py"]
    stubs = ["hash seed of the interpreter (chosen by the seed)", "thread scheduler (seeded, switches at calls of repository functions)"]
    assumptions = ["threads switch at function calls of the repository, not between arbitrary byte codes"]
    distinct_measure = "digest of hash seed, requests, switch points and results"

    def runs(self, seed, tier):
        for sc in c17.gen(seed, tier):
            yield sc, c17.run(sc)

    def run(self, sc):
        return c17.run(sc)

    def describe(self, sc, r):
        return dict(sc, switches=r.switches)

    def shrink(self, sc, cls):
        r = c17.run(sc)
        if len(sc["threads"]) > 1:
            c = dict(sc, switch_points=r.switch_points)
            r = c17.run(c)
            if r.violation and r.violation[0] == cls:
                sc = c
        return shrink.shrink(sc, c17.run, cls, cands=c17.candidates, max_runs=60)


ENGINES = {
    "C18": PipelineEngine("C18", 800, ("intervals_checked", "remaining_work_checked")),
    "C21": FigureEngine("C21", 200, ("figures_checked", "figure_problems_shown")),
    "C01": PipelineEngine("C01", 800, ("read_totals_checked",)),
    "C02": PipelineEngine("C02", 1000, ("power_cut_lossy", "short_write_error", "full_disk_partial", "read_totals_checked")),
    "C03": PipelineEngine("C03", 1100, ("read_totals_checked",)),
    "C04": PipelineEngine("C04", 800, ("read_totals_checked",)),
    "C05": PipelineEngine("C05", 650, ("read_totals_checked", "read_saw_new_records")),
    "C06": PipelineEngine("C06", 900, ("stopping_rule_checked", "batches_checked")),
    "C07": PipelineEngine("C07", 800, ("time_checked", "time_checked_after_clock_change")),
    "C08": PipelineEngine("C08", 900, ("decodes_checked",)),
    "C09": PipelineEngine("C09", 1100, ("repro_checked", "temp_clean_checked")),
    "C10": PipelineEngine("C10", 800, ("counts_checked", "refusals_checked")),
    "C11": QuantumEngine("C11", 450, 8000, "each seed draws an experiment (style, size, sub-rounds, observable; some stored surface code "
                         "circuits) and executes it fault-free with all-zero, all-one and random outcomes; non-trivial if it executed operations",
                         ("parities_compared",)),
    "C12": QuantumEngine("C12", 600, 6000, "each seed draws an experiment, executes it twice and replays the outcomes on an independent ideal "
                         "protocol, then corrupts single results and random sets of results", ("outcomes_checked", "corruptions_checked")),
    "C13": QuantumEngine("C13", 300, 4000, "each seed draws an experiment, executes it once per single fault, searches for short undetected chains "
                         "of faults in the observed symptoms, and executes the chains found and random clusters of faults",
                         ("chains_searched", "undetected_chains_found_at_or_above_distance")),
    "C14": QuantumEngine("C14", 350, 5000, "each seed draws an experiment of fault distance at least 3, executes it once per single fault and hands "
                         "the detection events to the repository's decoding", ("decoded",), real=["src/decoding.py", "pymatching"]),
    "C23": QuantumEngine("C23", 240, 5000, "each seed draws one or two memory experiments (the repository's or stim's standard ones) and possibly a different "
                         "model circuit, executes them with clusters and mixtures of injected faults, hands the detection events to the "
                         "repository's decoding and compares with the exact likeliest explanation", ("predictions_compared",
                         "histories_flipping_an_observable_likeliest"), real=["src/decoding.py", "pymatching"],
                         assumptions=["stim's circuit analysis and decomposition of errors is correct"]),
    "C15": QuantumEngine("C15", 220, 6000, "each seed draws 40 random circuits and one experiment and executes them with and without the noise "
                         "model's additions, no fault firing, with the same random outcomes", ("results_compared", "states_compared")),
    "C16": QuantumEngine("C16", 170, 5000, "each seed draws 14 random circuits and one experiment, executes them once per single fault component of the "
                         "noisy circuit and of the prescribed noise, and compares the resulting flip statistics of result sets",
                         ("exposures_compared", "result_statistics_compared")),
    "C17": ContextEngine("C17", 130, 4000, "each seed draws a hash seed and requests (circuits, descriptions, problem list, problems) made by one to "
                         "three interleaved threads in one fresh interpreter; every answer is compared with the same request made alone",
                         ("requests_compared", "descriptions_checked", "generated_twice")),
}
