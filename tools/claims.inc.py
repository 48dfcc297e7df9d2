DST = "deterministic simulation with fault injection: "
RTN = ("Seeded search over schedules and faults of the shipped runtime build (real code, simulated OS and threads); every run replays from its tape. "
       "Evidence, not proof: sampled histories. Trusts the simulated OS contract, sequentially consistent interleavings and the reference model in rtsim/.")
PRG = ("Seeded search over generated programs, inputs and environment faults: the real compiler and runtime, the emitted machine code executed on a simulated OS and a checked heap, judged by an independent reference interpreter; every run replays from its tape. "
       "Evidence, not proof: sampled programs within stated bounds. Trusts the reference interpreter, the parser stand-in for the missing tree-sitter library, and the in-process loader.")
CMP = ("Seeded search over generated and edited programs and over the environment and history of the compiling process; the real compiler, hash seeds supplied by the simulator; every run replays from its tape. "
       "Evidence, not proof: sampled programs and histories. Trusts the parser stand-in for the missing tree-sitter library (same trees for same texts).")
CCN = ("Seeded search over schedules, edit and call histories of the real IR library inside one process; every run replays from its tape. "
       "Evidence, not proof: sampled histories. Trusts the model in ccsim/ and, for threads, the lock stand-in and sequentially consistent interleavings.")
WSM = ("Seeded search over generated programs and host behaviour: the real compiler, the emitted module on a real engine (node) whose host calls and memory limit are decided beforehand by the simulator, judged by an independent reference interpreter; every run replays from its tape. "
       "Evidence, not proof: sampled programs within stated bounds. Trusts the reference interpreter, the engine, and the parser stand-in for the missing tree-sitter library.")
IRN = ("Seeded search over generated IR modules, pass schedules, restarts from text and host interruptions: the real IR library, passes, lowering and emission; the emitted code executed in process (native) or on a real engine (WebAssembly, node), judged by an independent evaluator; every run replays from its tape. "
       "Evidence, not proof: sampled modules and schedules. Trusts the evaluator in progsim/src/irsim.rs, the in-process loader and the engine.")
CLAIMS = {
 "C02": (DST + "the middle end as a machine driven by a seeded schedule of passes with restarts from the printed IR between them and the emitted program killed at chosen host calls, refinement against an evaluator of the IR", IRN),
 "C07": (DST + "IR text as durable state: restarts from text in contexts with another history, text torn, lost, doubled, swapped or overwritten at seeded places, read back against a model of the module",
         "Seeded search over generated modules, restarts and damage to the text; the real printer and parser; every run replays from its tape. Evidence, not proof: sampled modules and damage. Trusts the model in progsim/src/irtext.rs. Source locations and names of block arguments are not part of the text and not compared."),
 "W02": (DST + "seeded schedules of passes with restarts from text before the WebAssembly lowering, the module executed on a host that may end it at any call, refinement against an evaluator of the IR", IRN),
 "W01": (DST + "compiled modules on a simulated WASI host with short, interrupted, refused and stalled writes and refused memory growth, refinement against a reference interpreter", WSM),
 "R01": (DST + "real line reader against a simulated stdin, reference framing model", RTN),
 "R02": (DST + "injected read errors, history replayed through a reference model", RTN),
 "R03": (DST + "simulated stdout with short/interrupted/failing writes, exactly-once history check", RTN),
 "R04": (DST + "seeded preemption at every basic block/load/store, per-thread history check", RTN),
 "R05": (DST + "multi-threaded histories against a persistent-map model", RTN),
 "R06": (DST + "allocation failure at chosen points, tracked guard-page heap", RTN),
 "R07": (DST + "injected stray writes and quarantine histories against a model", RTN),
 "R08": (DST + "operation histories with allocation failure and concurrent users against a value model", RTN),
 "N01": (DST + "compiled programs on a simulated OS with I/O faults and memory exhaustion, refinement against a reference interpreter", PRG),
 "N02": (DST + "effect-heavy compiled programs on a simulated OS, refinement against a reference interpreter with first-class continuations", PRG),
 "N03": (DST + "compiled programs on a guard-page heap with allocation failure at chosen points", PRG),
 "C03": (DST + "the compiler run in simulated processes that differ in hash seed, memory layout, interning order and history, results compared byte for byte", CMP),
 "C06": (DST + "edit and request histories with requests torn down at chosen query events, final answer compared with a fresh start", CMP),
 "C01": (DST + "simulated threads preempted at every basic block, load and store of the IR library, checked against a name model", CCN),
 "C04": (DST + "edit histories with refused calls against a model of the IR, checked after every step", CCN),
 "C08": (DST + "modules damaged step by step at seeded places, verifier verdicts against an independent reading of its contract after every step", CCN),
 "C09": (DST + "generated patterns, targets and limits, patterns that give up or erase neighbours at chosen operations, refinement of the rewriter against a model", CCN),
 "C05": (DST + "generated pass-manager trees with passes and verifiers failing at chosen calls, call history against a model", CCN),
 "N05": (DST + "the same program in several build configurations on a simulated OS, refinement and cross-configuration comparison", PRG),
}
NA = {}
NOTES = ""
HOOKS = None
