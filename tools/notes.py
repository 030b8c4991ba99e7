"""Technique and level notes per scenario module."""
TECHNIQUE = {
    "history": "deterministic simulation: seeded histories of calls with injected I/O faults, crashes and power loss against a reference model",
    "faults": "deterministic simulation: seeded I/O faults at any step of any call, result checked against a reference model",
    "refused": "deterministic simulation: refused calls and failing sources against destinations with known content",
    "torn": "deterministic simulation: crash and power-loss residues of every format read under a step budget",
    "growing": "deterministic simulation: readers racing a simulated TOUGH process that writes or dies at any byte",
    "threads": "deterministic simulation: seeded thread schedules at line granularity, refinement against solo execution",
    "amnesia": "deterministic simulation: a call after a seeded history against the same call in a fresh process",
    "args": "deterministic simulation: arguments compared before and after calls under seeded faults and refusals",
    "footprint": "deterministic simulation: open handles and directory footprint of calls under seeded faults",
    "bytes": "deterministic simulation: the same write under several simulated environments, bytes compared",
    "models": "deterministic simulation: seeded histories and thread schedules of model objects, pickles and input files, against published formulas",
    "session": "deterministic simulation: seeded mesh editing histories over several meshes and process lifetimes, with I/O faults and crashes, against a numpy reference",
    "registry": "deterministic simulation: seeded histories and thread schedules of registrations and calls against a reference table",
}
NOTE = {
    "history": "Every acknowledged call is read back in the same process, later, and in a fresh process, and compared with an independent model of what was written, over thousands of seeded histories with split, short, interrupted, failing and fatal I/O.",
    "faults": "An I/O error is placed at a seeded step of every kind of call; the call must raise or be fully correct (compared with an independent model).",
    "refused": "Every kind of refused call found in the interface, over seeded destinations; the destination's bytes are compared.",
    "torn": "Files of every own format cut or zeroed at seeded bytes; termination is decided by a step budget on toughio's own loops and reads, not by wall-clock time.",
    "growing": "The simulator's output is generated with known values; each read of a growing or cut file is compared with the steps printed so far.",
    "threads": "Two to four threads, one running at a time, switched at pre-drawn lines of toughio code; each result, file and error is compared with a solo run.",
    "amnesia": "Value, bytes and error of a probe call compared between a fresh process and one with a seeded past.",
    "args": "Deep byte-exact comparison of all arguments around successful, refused and failing calls.",
    "footprint": "Handles are inspected at the moment the call returns or raises; the whole scratch directory is compared byte for byte.",
    "bytes": "Bytes compared across two to three simulated environments and a second interpreter with another hash seed.",
    "models": "Every value, the state after every step and the objects shared between threads are compared with a reference that knows the formulas and the parameters each model must have.",
    "session": "After every step the whole mesh, and after every edit all other meshes and the arrays given, are compared with a reference kept in plain numpy; geometry is computed independently for the supported cell types.",
    "registry": "Functions of the user record what reaches them; the reference table says which one must be reached; other formats go on being verified by their models.",
}
