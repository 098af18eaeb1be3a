"""C09: simulated annealing."""
import stdmodels
from vf import Wit

A = "include/fiction/algorithms/optimization/simulated_annealing.hpp"
META = dict(
    title="Simulated annealing keeps and returns the best state with its true cost",
    statement="The result of simulated_annealing is a state it visited (the initial state or one proposed by the neighbour function), paired "
              "with exactly the cost of that state, and no visited state is cheaper. Every proposal is made from the current state, which is "
              "the last accepted one: a proposal at most as expensive as the current state is always accepted, a new best is always "
              "accepted, and a more expensive one is accepted only if exp(-(cost difference)/temperature) exceeds a fresh random number of "
              "[0,1). The temperature starts at init_temp, each step is the schedule's value limited to [final_temp, init_temp], exactly "
              "`cycles` proposals are made per temperature above final_temp, and none is made when init_temp <= final_temp.",
    forall="all costs (floating-point and integral), all temperatures and schedules, all random draws; every acceptance history of up to 3 "
           "(thorough: 4) proposals over up to 3 temperatures",
    over=["inputs", "histories"],
    why="the result depends on random draws and on the whole acceptance history; the tests only look at the final state of a few long runs",
    files=[A],
    mechanism=["simulated_annealing @ " + A + ":70-160", "linear_temperature_schedule, geometric_temperature_schedule @ " + A + ":25-50"],
    technique="abstract interpretation of LLVM IR over symbolic costs, temperatures and random draws",
    note="Random numbers are arbitrary values of [0,1); exp is an uninterpreted function. Histories longer than the bound are not explored "
         "(the loop body depends on the current and best state only). A cost difference above 10 temperatures may be rejected without a draw.",
)
PRE = """#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <cmath>
extern "C" unsigned verif_draw_count(); extern "C" double verif_draw_value(unsigned);
struct St { unsigned id; explicit St(unsigned i = 77) : id{i} {} St(const St&) = default; St& operator=(const St&) = default;
  St(St&& o) noexcept : id{o.id} { o.id = 99; } St& operator=(St&& o) noexcept { if (this != &o) { id = o.id; o.id = 99; } return *this; } };
template <typename C> struct Log { C c[6]; unsigned n = 0, arg[6], dr[6], m = 0; double ta[6], tn[6], tm[6]; bool bad = false; };
// more calls than any run makes end the witness
// T0, TF: temperatures; L.tn: what the schedule answers (the last answer ends the run)
template <typename C>
static bool check(Log<C>& L, const unsigned K, const unsigned cycles, const unsigned temps, const double T0, const double TF)
{
    for (unsigned i = 0; i < 6; ++i) { L.arg[i] = 50; L.dr[i] = 0; }
    const auto r = fiction::simulated_annealing(St{0}, T0, TF, cycles,
        [&L, K](const St& s) noexcept -> C { if (s.id > K) { L.bad = true; return C{}; } return L.c[s.id]; },
        [&L, temps, TF](const double t) noexcept -> double { const auto i = L.m < 5 ? L.m : 5; L.ta[i] = t; if (++L.m > 20) { std::abort(); } return i + 1 >= temps ? TF : L.tn[i]; },
        [&L](const St& s) noexcept -> St { const auto i = L.n < 5 ? L.n : 5; L.arg[i] = s.id; L.dr[i] = verif_draw_count();
                                            L.tm[i] = L.m == 0 ? -1.0 : 0.0; if (++L.n > 40) { std::abort(); } return St{i + 1}; });
    if (L.bad || L.n > K) { return false; }
    // temperatures: T0, then the clamped answers, while above TF
    double t = T0; unsigned steps = 0; double at[6];
    while (t > TF && steps < temps) { at[steps] = t; t = steps + 1 >= temps ? TF : (L.tn[steps] < TF ? TF : (T0 < L.tn[steps] ? T0 : L.tn[steps])); ++steps; }
    if (L.m != steps || L.n != steps * cycles) { return false; }
    for (unsigned i = 0; i < steps; ++i) { if (L.ta[i] != at[i]) { return false; } }
    // the result
    if (r.first.id > L.n || !(r.second == L.c[r.first.id])) { return false; }
    for (unsigned i = 0; i <= L.n; ++i) { if (L.c[i] < r.second) { return false; } }
    // acceptance
    if (L.n > 0 && L.arg[0] != 0) { return false; }
    C best = L.c[0];
    for (unsigned k = 0; k + 1 < L.n; ++k)
    {
        const unsigned cur = L.arg[k], prop = k + 1, nxt = L.arg[k + 1];
        if (nxt != cur && nxt != prop) { return false; }
        const bool acc = nxt == prop; const C cc = L.c[cur], cp = L.c[prop];
        if (cp < best) { best = cp; if (!acc) { return false; } continue; }
        if (cp <= cc) { if (!acc) { return false; } continue; }
        const double d = static_cast<double>(cp - cc); const double T = at[k / cycles];
        const bool drawn = L.dr[k + 1] > L.dr[k];
        if (d > 10.0 * T && !acc) { continue; }
        if (!drawn) { return false; }
        if (acc != (std::exp(-d / T) > verif_draw_value(L.dr[k + 1] - 1))) { return false; }
    }
    return true;
}
"""


def run(c):
    w = Wit(c, "c09", PRE, A, models=stdmodels.RANDOM)
    # cycles, temperatures above final
    shapes = [(0, 1), (1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2)]
    if c.thorough:
        shapes += [(4, 1), (1, 4), (3, 2)]
    for C, tag in (("double", "d"), ("int", "i")):
        for cy, te in shapes:
            if tag == "i" and cy * te > 3:
                continue
            K = cy * te
            cs = [f"c{i}" for i in range(K + 1)]
            ts = [f"t{i}" for i in range(te - 1)]
            sig = ", ".join([f"{C} {x}" for x in cs] + ["double " + x for x in ["T0", "TF"] + ts])
            body = f"Log<{C}> L; " + " ".join(f"L.c[{i}] = {x};" for i, x in enumerate(cs)) + \
                " ".join(f"L.tn[{i}] = {x};" for i, x in enumerate(ts)) + f" return check<{C}>(L, {K}, {cy}, {te}, T0, TF);"
            rg = {x: (0.01, 1000) for x in ["T0", "TF"]}
            if tag == "i":
                rg.update({x: (-(1 << 29), 1 << 29) for x in cs})
            w.ob(f"anneal_{tag}_{cy}x{te}", sig, body, rg, "best-state-and-acceptance-rule", limit=240 if not c.thorough else 500,
                 max_states=200000)
    w.ob("linear", "double t", "return fiction::linear_temperature_schedule(t) == t - 10.0;", {}, "temperature-schedule")
    w.ob("geometric", "double t", "return fiction::geometric_temperature_schedule(t) == t * 0.99;", {}, "temperature-schedule")
    w.run()
