DEFAULT = "deterministic simulation: seeded search over schedules and faults, all ranks in one process on a simulated MPI, oracle over the recorded history"
DEFNOTE = ("Seeded search, not exhaustive: each run is one exactly repeatable execution of the real unidist code under a simulated MPI, clock, threads and memory; "
           "bounds (processes, operations, sizes) are those of the generator in sim/profiles.py.")
TECH = {}
NOTE = {}
MP = "deterministic simulation: seeded search over schedules of simulated worker processes, queue feeders and the shared object table, oracle over the recorded history"
MPN = ("Seeded search, not exhaustive: the real multiprocessing backend of unidist runs on simulated processes, queues and managers; "
       "bounds (processes, operations, sizes) are those of the generator in sim/profiles.py.")
for p in ("C16", "C17"):
    TECH[p], NOTE[p] = MP, MPN
TECH["C20"] = "deterministic simulation: the real C++ copy compiled against a simulated std::thread whose order a seed decides, exact comparison of memory with guard zones"
NOTE["C20"] = "Seeded search over sizes, alignments, thread counts and thread orders; threads are run in any order but not preempted inside memcpy."
NA = {}
for p, n in (("C18", "Dask"), ("C19", "Ray")):
    TECH[p] = f"deterministic simulation: seeded search over schedules, delays and faults of a simulated {n} cluster under the real unidist backend, oracle over the recorded history"
    NOTE[p] = (f"Seeded search, not exhaustive: the real {n} backend of unidist runs on a stand-in of {n} (sim/fake{n.lower()}.py) that keeps the documented guarantees of {n} and nothing more; "
               "what is decided is unidist's use of it, not the library itself.")
NA["C21"] = ("a pure function of one value: no schedule, clock, message, crash or I/O influences it, so there is nothing for a simulator to control; "
             "round trips of generated values under every delivery schedule are part of C05")
NA["C22"] = "a sequential in-process call without concurrency, time, I/O or another party: no nondeterminism to simulate"
