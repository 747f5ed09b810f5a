"""Wording of the evidence files."""
LEVELS = {
    "C01": "exploration", "C02": "exploration", "C03": "fault_enumeration", "C04": "fault_enumeration",
    "C05": "fault_enumeration", "C06": "exploration", "C07": "fault_enumeration", "C08": "exploration",
    "C09": "fault_enumeration", "C10": "fault_enumeration", "C11": "fault_enumeration", "C12": "exploration",
}
_S = "Scenario i is drawn by a generator seeded with (VERIF_SEED, property, i). "
RULES = {
    "C01": _S + "2-4 callers (related functions and parameters, shared or separate arguments, cold or warm process) run under 1-10 explicit switches at steps chosen uniformly over distinct code sites. Non-trivial: at least one switch happened inside a call; distinct by functions and switch sites.",
    "C02": _S + "A history of 2-10 calls in one simulated process: variations of one call, calls on reused and overwritten buffers, refused calls, calls under outer contexts; every ordinary call is compared with a fresh process. Non-trivial: at least two compared calls; distinct by event list.",
    "C03": _S + "One call with snapshots of its arguments compared at the first and last execution of every code site, after return, and after up to 4 injected failures. Distinct by call and fault list.",
    "C04": _S + "1-8 failed attempts (fault at a step chosen over distinct code sites, or at a dependency call; alone or with a second caller), then 1-3 compared calls. Non-trivial: a fault fired; distinct by attempts and later calls.",
    "C05": _S + "4-12 executions of one call, each with one or two faults at dependency calls (one-shot or persistent). Non-trivial: the fault fired; distinct by call and fault.",
    "C06": _S + "2-6 calls with results held; between calls the caller overwrites a result and/or the arguments of a call; overlaps of memory are computed exactly. Distinct by event list.",
    "C07": _S + "Import and call(s) under 1-10 non-default host settings, completed, cut short by a fault, or overlapping under a switch plan; about 45 kinds of process-wide state compared. Distinct by calls, faults, plan and settings.",
    "C08": _S + "One call under perturbed clock, RNG, environment (including every variable the code reads), locale, gc timing, thread, event loop, import order; plus batches in a second process with another hash seed and flags. Distinct by call and setting.",
    "C09": _S + "A pipeline analysis -> coefficients -> synthesis with up to 2 failed attempts per stage, implementation chosen per attempt, scales mixed between successful attempts, process restarts. Distinct by configuration, implementations, faults and mix.",
    "C10": _S + "3-8 structurally damaged coefficient sets offered to one synthesis, then the intact set. Non-trivial: the shapes differ from the expected ones; distinct by function, configuration and damage.",
    "C11": _S + "A partition of the scales into windows plus redundant overlapping ones, shuffled, each on a chosen implementation, with crashes and retries; every scale compared with the reference model. Distinct by configuration and work units.",
    "C12": _S + "Weak references to arguments and results after completed and cut-short calls, or memory/array/descriptor/thread counts over repeated bursts. Distinct by function, configuration, form, kind and faults.",
}
ASSUMPTIONS = [
    "CPU execution in one process; XLA, torch and NumPy kernels are deterministic with one thread.",
    "A step is one executed line of s2wav code or one call it makes; switches and faults happen at steps, not inside C code of dependencies.",
    "In 'eager' and 'traced' runs jax.jit is replaced by an emulation of its argument boundary/trace cache and s2fft's JAX transforms by s2fft's own NumPy transforms of the same name; 'selftest' compares them with the real ones.",
    "s2fft's transforms are trusted within the configurations both its implementations support (see DESIGN.md, domain).",
]
COMPONENTS = {
    "real": ["all s2wav code from /repo's working tree", "NumPy", "torch", "JAX primitives", "pyssht (wavelet_c)", "s2fft NumPy/torch transforms, kernels and sampling", "threads (parked and released one at a time)"],
    "stub": ["jax.jit as called by s2wav (eager/traced emulation; real in 'real' runs)", "s2fft recursive/precompute JAX transforms (served by s2fft's NumPy versions; real in 'real' runs)", "threading locks created by s2wav (simulator locks)", "time.* as read by s2wav (simulated clock)", "process start/crash (fresh module instances; C08 also uses real processes)"],
}
