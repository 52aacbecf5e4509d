CLAIMED = ["C%02d" % i for i in range(1, 29)]
DEFAULT_TECH = "deterministic simulation with fault injection (seeded search over client interleavings, random draws and faults, refinement against a reference model)"
DEFAULT_NOTE = "Sampled exploration, not a proof: real code for every container; the random module, warnings, allocator and element callbacks are simulated."
TECH = {
    "C17": "deterministic simulation with fault injection: the operating system calls are answered by a simulated file system (injected errno faults, listing orders, concurrent changes between calls), seeded search, result judged against the recorded history of listings",
    "C18": "deterministic simulation with fault injection: an allocation, element callback, source or warning fault at a seeded point inside seeded histories, state before/after judged against the reference model",
    "C19": "deterministic simulation with fault injection: queries interrupted at seeded line events, allocations and callbacks inside seeded histories, contents and shape compared before and after",
    "C20": "deterministic simulation: real reader threads under a simulated scheduler (seeded preemption at every statement or expression, readers killed), answers compared with those obtained alone",
    "C21": "deterministic simulation: threads with containers of their own under a simulated scheduler (seeded preemption at every statement or expression, allocation faults), each container refined against its own model",
    "C22": "deterministic simulation: each program executed under two different simulated environments (entropy, prior history, unrelated containers, hash seeds), executions compared step by step",
    "C27": "deterministic simulation with fault injection: seeded histories of interleaved queries interrupted at seeded line events and constructions with failing allocations, answers judged against the word's definition",
    "C28": "deterministic simulation with fault injection: seeded histories with random draws and faults; after every step the drawing is read back and compared with the structure the other queries give",
    "C23": "deterministic simulation with fault injection: lifetimes observed by weak references at the simulated allocator and element seams over seeded histories with faults",
}
NOTE = {}
NA = {}
NOTES = "Deterministic simulation of the extra-collections containers; see DESIGN.md."
