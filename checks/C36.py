"""C36: exact simulation of SiDB layouts."""
import os
import stdmodels
import vf
from vf import Wit

A = "include/fiction/algorithms/simulation/sidb/"
FILES = [A + f for f in ("quickexact.hpp", "exhaustive_ground_state_simulation.hpp", "sidb_simulation_result.hpp", "quicksim.hpp", "energy_distribution.hpp", "minimum_energy.hpp", "is_ground_state.hpp",
                         "can_positive_charges_occur.hpp", "equivalence_check_for_simulation_results.hpp", "occupation_probability_of_excited_states.hpp")]
META = dict(
    title="Exact SiDB simulation: all and only the valid configurations",
    statement="The exhaustive simulation and QuickExact return every physically valid charge configuration of an SiDB layout exactly once and nothing else: those where each SiDB's charge fits its local potential (external potentials "
              "and defects included) and no hop of an electron to a less occupied SiDB lowers the energy; without positive charges if two charge states are simulated, with them if base detection finds them possible. QuickSim returns "
              "only valid configurations and its threads do not race. Every result carries its energy and validity. From the results follow the least energy, all ground states, the energy distribution, the occupation of excited states, "
              "whether a heuristic found the ground states, whether two results are equivalent, and whether positive charges can occur.",
    forall="arrangements of one to three SiDBs, every transition level in [-2, 0.25] eV up to the numerical margin, external potentials of either sign, with and without a charged defect; two threads of QuickSim in every schedule",
    why="pre-assigned SiDBs, dependent SiDBs and Gray codes make an exact simulator miss or invent configurations for particular potentials only, and the simulators are tested against each other on a few layouts",
    files=FILES,
    mechanism=["quickexact_impl::run, initialize_charge_layout @ " + FILES[0] + ":90-180, 480-510", "two_state_simulation, three_state_simulation @ " + FILES[0] + ":290-455", "exhaustive_ground_state_simulation @ " + FILES[1] + ":36-80",
               "quicksim @ " + A + "quicksim.hpp:70-265", "groundstates @ " + FILES[2] + ":60-105", "calculate_energy_distribution @ " + A + "energy_distribution.hpp:150-230"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic potentials",
    note="Positions are fixed arrangements; floating point is exact rational arithmetic; configurations within 2e-6 eV of a transition level may or may not be found. ClusterComplete is not covered (needs ALGLIB). The clock stands still; "
         "random draws are arbitrary. phmap's maps, the stopwatch and the interfaces of mockturtle and kitty are replaced by stand-ins.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini"), "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <cmath>
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp>
#include <fiction/algorithms/simulation/sidb/is_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
#include <cstdint>
#include <vector>
using namespace fiction;
extern "C" void verif_no_race();
using T = sidb_technology::cell_type;
using L = sidb_100_cell_clk_lyt_siqad; using S = charge_distribution_surface<L>; using C = cell<L>;
using Q = sidb_charge_state;
// arrangements of three SiDBs
static const C P[4][3] = {{C{0, 0, 0}, C{0, 0, 1}, C{4, 1, 0}}, {C{0, 0, 0}, C{3, 0, 0}, C{6, 0, 1}}, {C{0, 0, 0}, C{1, 0, 0}, C{9, 4, 1}}, {C{0, 0, 0}, C{2, 0, 0}, C{1, 0, 1}}};
static L lay(int n, int g) { L l{C{20, 20, 1}}; for (int i = 0; i < n; ++i) { l.assign_cell_type(P[g][i], T::NORMAL); } return l; }
static sidb_simulation_parameters par(int base, double mu) { sidb_simulation_parameters p{}; p.base = static_cast<uint8_t>(base); p.mu_minus = mu; return p; }
static int pw(int b, int n) { int r = 1; while (n-- > 0) { r *= b; } return r; }
static int dg(int k, int b, int n, int i) { return (k / pw(b, n - 1 - i)) % b; }
// is configuration k (in base 3) of these n SiDBs physically valid?
static bool valid(const S& s, int n, int k, double mu, const double* ext, double r)
{
    double t[3];
    int q[3];
    for (int i = 0; i < n; ++i) { q[i] = dg(k, 3, n, i) - 1; }
    for (int i = 0; i < n; ++i)
    {
        t[i] = ext[i];
        for (int j = 0; j < n; ++j) { t[i] += s.get_chargeless_potential_by_indices(i, j) * q[j]; }
    }
    for (int i = 0; i < n; ++i)
    {
        const double lo = mu - t[i], hi = mu - 0.59 - t[i];
        if (!(q[i] == -1 ? lo < r : q[i] == 1 ? hi > -r : lo > -r && hi < r)) { return false; }
    }
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { if (q[i] < q[j] && t[i] - t[j] - s.get_chargeless_potential_by_indices(i, j) < -r) { return false; } } }
    return true;
}
// every result is one of the valid configurations, is called so, and has the right energy and charges
template <typename R>
static bool sound(const R& r, int n, int g, int b, double mu, const double* ext, bool energy = true)
{
    const S z{lay(n, g)};
    for (const auto& d : r.charge_distributions)
    {
        int k = 0;
        double e = 0;
        int q[3];
        for (int i = 0; i < n; ++i)
        {
            q[i] = charge_state_to_sign(d.get_charge_state(P[g][i]));
            k = 3 * k + q[i] + 1;
            if (b == 2 && q[i] == 1) { return false; }
        }
        for (int i = 0; i < n; ++i)
        {
            e += ext[i] * q[i];
            for (int j = 0; j < n; ++j) { e += q[i] * q[j] * z.get_chargeless_potential_by_indices(i, j) / 2; }
        }
        const double de = e - d.get_electrostatic_potential_energy();
        if (!d.is_physically_valid() || d.num_cells() != n || (energy && (de > 1e-9 || de < -1e-9)) || !valid(z, n, k, mu, ext, 1e-6)) { return false; }
    }
    return true;
}
// every valid configuration (without positive charges if the base is two) is found, once
template <typename R>
static bool exact(const R& r, int n, int g, int b, double mu, const double* ext, bool energy = true)
{
    if (!sound(r, n, g, b, mu, ext, energy)) { return false; }
    const S z{lay(n, g)};
    bool seen[27] = {};
    for (const auto& d : r.charge_distributions)
    {
        int k = 0;
        for (int i = 0; i < n; ++i) { k = 3 * k + charge_state_to_sign(d.get_charge_state(P[g][i])) + 1; }
        if (seen[k]) { return false; }
        seen[k] = true;
    }
    for (int k = 0; k < pw(3, n); ++k)
    {
        bool two = true;
        for (int i = 0; i < n; ++i) { two = two && dg(k, 3, n, i) < 2; }
        if ((b == 3 || two) && !seen[k] && valid(z, n, k, mu, ext, -2e-6)) { return false; }
    }
    return true;
}
"""



def run(c):
    w = Wit(c, "c36", PRE, FILES[0], flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)", models=stdmodels.RANDOM + stdmodels.THREADS)
    cf = lambda k: f"int {k} = 0; while ({k} < {k}0) {{ ++{k}; }} "
    X = "const double ext[3] = {0, 0, 0}; "
    ON, OFF = "ON", "OFF"
    QP = lambda b, m: f"quickexact_params<C> p{{}}; p.simulation_parameters = par({b}, mu); p.base_number_detection = quickexact_params<C>::automatic_base_number_detection::{m}; "
    M = {"mu": (-2, 0.25)}
    for g in range(4):
        Z = c.thorough or g == 0
        G = f"constexpr int g = {g}; "
        N = {"n0": (1, 3)} if g == 0 else {"n0": (3, 3)}
        for b in (2, 3):
            if Z or (b, g) == (2, 2):
                w.ob(f"exhaustive_{b}_{g}", "int n0, double mu", G + cf("n") + X + f"return exact(exhaustive_ground_state_simulation(lay(n, g), par({b}, mu)), n, g, {b}, mu, ext);", N | M, "exhaustive", limit=600)
            if Z or (b, g) == (3, 1):
                w.ob(f"quickexact_{b}_{g}", "int n0, double mu", G + cf("n") + X + QP(b, OFF) + f"return exact(quickexact(lay(n, g), p), n, g, {b}, mu, ext);", N | M, "quickexact", limit=600)
        if Z or g == 2:
            w.ob(f"quickexact_auto_{g}", "int n0, double mu", G + cf("n") + X + QP(2, ON) + "return exact(quickexact(lay(n, g), p), n, g, 3, mu, ext);", N | M, "quickexact", limit=600)
        if Z or g == 1:
            w.ob(f"external_{g}", "int n0, double e0", G + cf("n") + "const double mu = -0.28, v = e0 / 4 - 0.1; const double ext[3] = {e0 + v, v - e0 / 2, v}; " + QP(3, ON) + "p.global_potential = v; p.local_external_potential[P[g][0]] = e0; p.local_external_potential[P[g][1]] = -e0 / 2; return exact(quickexact(lay(n, g), p), n, g, 3, mu, ext);", {"n0": (1, 2)} | {"e0": (-2, 2)}, "external-potentials", limit=600)
        if c.thorough:
            w.ob(f"external_n3_{g}", "int n0, double e0", G + cf("n") + "const double mu = -0.28, v = e0 / 4 - 0.1; const double ext[3] = {e0 + v, v - e0 / 2, v}; " + QP(3, ON) + "p.global_potential = v; p.local_external_potential[P[g][0]] = e0; p.local_external_potential[P[g][1]] = -e0 / 2; return exact(quickexact(lay(n, g), p), n, g, 3, mu, ext);", {"n0": (3, 3)} | {"e0": (-1, 1)}, "external-potentials", limit=600)
        if Z or g == 2:
            w.ob(f"quicksim_{g}", "int n0, int u0", G + cf("n") + cf("u") + X + "const double mu = 0.1 - 0.11 * u; quicksim_params p{}; p.simulation_parameters = par(2, mu); p.iteration_steps = 1; p.number_threads = 1; const auto r = quicksim(lay(n, g), p); return !r || sound(*r, n, g, 2, mu, ext);", N | {"u0": (0, 9)}, "quicksim", limit=600)
        if Z or g == 1:
            w.ob(f"quicksim_race_{g}", "int n0, int u0", G + cf("n") + cf("u") + X + "const double mu = 0.1 - 0.11 * u; quicksim_params p{}; p.simulation_parameters = par(2, mu); p.iteration_steps = 2; p.number_threads = 2; const auto r = quicksim(lay(n, g), p); verif_no_race(); return !r || sound(*r, n, g, 2, mu, ext);", {"n0": (2, 2), "u0": (2, 5)}, "quicksim-race", limit=600, thread_mode="eager" if g % 2 else "deferred", log_access=True)
    # charged defects
    D = ("sidb_defect_surface<L> l{lay(n, g)}; const sidb_defect d{sidb_defect_type::SI_VACANCY, -1, 7, 3}; const C x{5, 0, 0}; l.assign_sidb_defect(x, d); const S z{lay(n, g)}; double ext[3] = {0, 0, 0}; "
         "for (int i = 0; i < n; ++i) { const double r = sidb_nm_distance<L>(z, P[g][i], x); ext[i] = -constants::physical::K_E / 7 / (r * 1e-9) * std::exp(-r / 3) * constants::physical::ELEMENTARY_CHARGE; } ")
    w.ob("defect", "int n0, double mu", "constexpr int g = 0; " + cf("n") + D + QP(3, ON) + "return exact(quickexact(l, p), n, g, 3, mu, ext, false);", {"n0": (1, 2)} | M, "defects", limit=600)
    w.ob("defect_n3", "int u0", "constexpr int g = 0, n = 3; " + cf("u") + "const double mu = 0.1 - 0.07 * u; " + D + QP(3, ON) + "return exact(quickexact(l, p), n, g, 3, mu, ext, false);", {"u0": (0, 9)}, "defects", limit=600)
    # what is derived from the configurations
    U = {"n0": (1, 3), "g0": (0, 2), "u0": (0, 9)}
    R = cf("n") + cf("g") + cf("u") + X + "const double mu = 0.1 - 0.11 * u; const auto r = exhaustive_ground_state_simulation(lay(n, g), par(3, mu)); const auto& v = r.charge_distributions; (void)ext; "
    A3 = "int n0, int g0, int u0"
    w.ob("empty", "int b0", cf("b") + "const L l{C{3, 3, 0}}; return exhaustive_ground_state_simulation(l, par(b, -0.3)).charge_distributions.empty() && quickexact(l, quickexact_params<C>{par(b, -0.3)}).charge_distributions.empty() && !quicksim(l);", {"b0": (2, 3)}, "quickexact", limit=60)
    w.ob("minimum", A3, R + "const double m = minimum_energy(v.cbegin(), v.cend()); bool hit = v.empty() && m > 1e300; for (const auto& d : v) { if (d.get_electrostatic_potential_energy() < m) { return false; } hit = hit || d.get_electrostatic_potential_energy() == m; } "
         "const auto gs = r.groundstates(); unsigned c = 0; for (const auto& d : v) { if (d.get_electrostatic_potential_energy() < m + 1e-6) { ++c; bool f = false; for (const auto& x : gs) { bool same = true; for (int i = 0; i < n; ++i) { same = same && x.get_charge_state(P[g][i]) == d.get_charge_state(P[g][i]); } f = f || same; } if (!f) { return false; } } } return hit && gs.size() == c;", U, "ground-states", limit=200)
    w.ob("distribution", A3, R + "const auto e = calculate_energy_distribution(v); unsigned n1 = 0; bool ok = true; e.for_each([&](const double x, const uint64_t k) { unsigned c = 0; for (const auto& d : v) { const double y = d.get_electrostatic_potential_energy() - x; if (y < 1e-6 && y > -1e-6) { ++c; } } ok = ok && c == k && k > 0; n1 += k; }); if (v.empty()) { return e.empty() && e.size() == 0; } "
         "return ok && n1 == v.size() && e.min_energy() == minimum_energy(v.cbegin(), v.cend()) && e.get_nth_state(0)->electrostatic_potential_energy == e.min_energy() && e.get_nth_state(e.size() - 1)->electrostatic_potential_energy == e.max_energy() && !e.get_nth_state(e.size()) && *e.degeneracy(e.max_energy()) == e.size() - 1 && !e.degeneracy(e.max_energy() + 1);", U, "energy-distribution", limit=200)
    w.ob("positive", A3, R + "bool p = false; for (const auto& d : v) { p = p || d.charge_exists(Q::POSITIVE); } return can_positive_charges_occur(lay(n, g), par(3, mu)) || !p;", U, "positive-charges", limit=200)
    w.ob("positive_exact", "int n0, int g0, double mu", cf("n") + cf("g") + "const S z{lay(n, g)}; bool p = false; for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) { t -= z.get_chargeless_potential_by_indices(i, j); } p = p || mu - 0.59 - t > -1e-6; } return can_positive_charges_occur(lay(n, g), par(3, mu)) == p;", {"n0": (1, 3), "g0": (0, 3)} | M, "positive-charges", limit=200)
    for g in range(3):
        w.ob(f"equivalent_{g}", A3, R + QP(3, OFF) + "const auto q = quickexact(lay(n, g), p); if (!check_simulation_results_for_equivalence(r, q)) { return false; } if (v.empty()) { return !is_ground_state(q, r); } if (!is_ground_state(q, r)) { return false; } auto h = r; h.charge_distributions.pop_back(); return !check_simulation_results_for_equivalence(r, h);", U | {"g0": (g, g)}, "equivalence", limit=300)
    w.ob("ground_state_missed", A3, R + "if (v.size() < 2) { return true; } auto h = r; unsigned k = 0; for (unsigned i = 1; i < v.size(); ++i) { if (v[i].get_electrostatic_potential_energy() < v[k].get_electrostatic_potential_energy()) { k = i; } } h.charge_distributions.erase(h.charge_distributions.begin() + k); return h.groundstates().size() > r.groundstates().size() || !is_ground_state(h, r);", U, "ground-states", limit=200)
    w.ob("occupation", A3, R + "const auto e = calculate_energy_distribution(v); const double p = occupation_probability_non_gate_based(e, 100); double z = 0, x = 0; const double m = minimum_energy(v.cbegin(), v.cend()); for (const auto& d : v) { const double y = d.get_electrostatic_potential_energy() - m, f = std::exp(-y / (8.617333262e-5 * 100)); z += f; if (y > 2e-6) { x += f; } } if (v.empty()) { return p == 0; } const double dp = p - x / z; return dp < 1e-6 && dp > -1e-6;", U, "occupation", limit=200)
    w.run()
