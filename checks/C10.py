"""C10: multi-start simulated annealing."""
import stdmodels
from vf import Wit

A = "include/fiction/algorithms/optimization/simulated_annealing.hpp"
META = dict(
    title="Parallel annealing returns its best instance and is free of data races",
    statement="multi_simulated_annealing runs simulated annealing exactly once per instance, each from its own freshly generated initial "
              "state and with the given temperatures, cycle number, cost, schedule and neighbour functions, waits for every instance, and "
              "returns a result no instance undercuts, paired with its cost. No two of its threads, and no thread and the caller, access the "
              "same memory without synchronisation when at least one of them writes, provided the callables do not either.",
    forall="1 to 3 instances (thorough: 4), 0 or 1 proposals each, all costs and random draws; threads run at their start or at their join",
    over=["inputs", "schedules"],
    why="a data race or a wrong capture needs a particular interleaving; the tests run one schedule of the machine they run on",
    files=[A],
    mechanism=["multi_simulated_annealing @ " + A + ":165-225", "generator of simulated_annealing @ " + A + ":95-105"],
    technique="abstract interpretation of LLVM IR with a thread model (start/join clocks, access log) and a may-race rule on the accesses",
    note="Threads are std::thread started through libstdc++; two schedules are interpreted (every thread at its start, every thread at its "
         "join), and conflicting accesses are compared by start/join order and held mutexes, so a race is found in any schedule. One "
         "genuine race was repaired (see known_findings.json).",
)
PRE = """#include <fiction/algorithms/optimization/simulated_annealing.hpp>
extern "C" unsigned verif_tick(); extern "C" void verif_no_race(); extern "C" unsigned verif_draw_count();
struct Tab { double c[10]; unsigned id[10]; double TF, T0; };
static bool check(Tab& t, const unsigned inst, const unsigned cycles)
{
    const unsigned total = inst * (1 + cycles);
    const auto r = fiction::multi_simulated_annealing(t.T0, t.TF, cycles, inst, [&t]() -> unsigned { return t.id[verif_tick()]; },
        [&t](const unsigned s) -> double { return t.c[s]; }, [&t](const double) -> double { return t.TF; },
        [&t](const unsigned) -> unsigned { return t.id[verif_tick()]; });
    verif_no_race();
    if (verif_tick() != total) { return false; }
    if (r.first >= total || !(r.second == t.c[r.first])) { return false; }
    for (unsigned i = 0; i < total; ++i) { if (t.c[i] < r.second) { return false; } }
    return true;
}
"""


def run(c):
    w = Wit(c, "c10", PRE, A, models=stdmodels.RANDOM + stdmodels.THREADS, flags=["-pthread"])
    shapes = [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1)]
    if c.thorough:
        shapes += [(4, 0), (3, 1)]
    for mode in ("eager", "deferred"):
        for n, cy in shapes:
            cs = [f"c{i}" for i in range(n * (1 + cy))]
            w.ob(f"multi_{mode}_{n}x{cy}", ", ".join("double " + x for x in cs + ["T0", "TF"]),
                 "if (!(TF < T0)) { return true; } Tab t{}; t.T0 = T0; t.TF = TF; for (unsigned i = 0; i < 10; ++i) { t.id[i] = i; } " +
                 " ".join(f"t.c[{i}] = {x};" for i, x in enumerate(cs)) + f" return check(t, {n}, {cy});",
                 {"T0": (0.01, 1000), "TF": (0.01, 1000)}, "best-of-all-instances-no-race", thread_mode=mode, log_access=True, limit=200,
                 max_states=100000)
    w.run()
