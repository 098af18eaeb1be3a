"""C35: charge distributions of SiDB layouts: index, potentials, energy, stability."""
import os
import vf
from vf import Wit

A = "include/fiction/technology/charge_distribution_surface.hpp"
META = dict(
    title="Charge distributions: every index one configuration, potentials and energy agree",
    statement="The charge index enumerates the configurations of a charge distribution surface: an index sets the charges to its digits (base 2 or 3, first SiDB most significant, 0 for negative), leaving out the dependent SiDB, "
              "the charges give the same index back, and counting up visits every configuration once. The potential between two SiDBs is the screened Coulomb potential of their distance; the local potential of an SiDB is the sum "
              "over all SiDBs and defects, the energy is the external potentials' plus half the internal ones', whether computed from scratch or updated after the change of a charge along a Gray code, and defects can be added, "
              "replaced and erased without residue. The dependent SiDB takes the charge its local potential prescribes. A configuration is physically valid exactly if every SiDB's charge fits its potential and no hop of an electron to "
              "a less occupied SiDB lowers the energy. Copies, clones and assigned surfaces are independent and carry the cells with them. Counts of negative, neutral and positive SiDBs are right.",
    forall="all configurations, indices, Gray code steps and dependent SiDBs of three SiDBs in bases 2 and 3, with arbitrary external potentials and transition levels; with up to two defects",
    why="a wrong enumeration or a drifting local potential misses ground states for particular layouts only, and simulators that share the surface agree with each other",
    files=[A],
    mechanism=["index_to_charge_distribution, charge_distribution_to_index @ " + A + ":1362-1475, 2412-2455", "update_local_internal_potential @ " + A + ":928-975", "recompute_electrostatic_potential_energy @ " + A + ":1192-1230",
               "validity_check, is_configuration_stable @ " + A + ":1271-1340", "update_charge_state_of_dependent_cell @ " + A + ":1935-2002"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic potentials",
    note="Positions of the SiDBs are fixed (three atoms, two of one dimer); floating point is exact rational arithmetic; phmap's maps and the interfaces of mockturtle and kitty are replaced by stand-ins.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini")]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <cmath>
#include <cstdint>
#include <unordered_map>
#include <vector>
using namespace fiction;
using T = sidb_technology::cell_type;
using DT = sidb_defect_type;
using L = sidb_100_cell_clk_lyt_siqad; using S = charge_distribution_surface<L>; using C = cell<L>;
using Q = sidb_charge_state;
static const C P[3] = {C{0, 0, 0}, C{0, 0, 1}, C{4, 1, 0}};
static L three() { L l{C{20, 20, 1}}; l.assign_cell_type(P[1], T::NORMAL); l.assign_cell_type(P[2], T::INPUT); l.assign_cell_type(P[0], T::NORMAL); return l; }
static sidb_simulation_parameters par(int base, double mu) { sidb_simulation_parameters p{}; p.base = static_cast<uint8_t>(base); p.mu_minus = mu; return p; }
static Q st(int d) { return d == 0 ? Q::NEGATIVE : d == 1 ? Q::NEUTRAL : Q::POSITIVE; }
static int pw(int b, int n) { int r = 1; while (n-- > 0) { r *= b; } return r; }
// the digit of SiDB i of configuration k
static int dg(int k, int b, int i) { return (k / pw(b, 2 - i)) % b; }
static bool near(double a, double b) { const double d = a - b; return d < 1e-9 && d > -1e-9; }
// up to the rounding of the constants
static bool close(double a, double b) { const double d = a - b; return d < 1e-7 && d > -1e-7; }
static bool is(const S& s, int k, int b) { for (int i = 0; i < 3; ++i) { if (s.get_charge_state(P[i]) != st(dg(k, b, i)) || s.get_charge_state_by_index(i) != st(dg(k, b, i))) { return false; } } return true; }
static double V(const S& s, int i, int j) { return s.get_chargeless_potential_by_indices(i, j); }
static int sg(const S& s, int i) { return charge_state_to_sign(s.get_charge_state_by_index(i)); }
static void put(S& s, int k, int b) { for (int i = 0; i < 3; ++i) { s.assign_charge_state(P[i], st(dg(k, b, i)), charge_index_mode::KEEP_CHARGE_INDEX); } }
// local potentials and energy of what s holds
static bool consistent(const S& s)
{
    double e = 0;
    for (int i = 0; i < 3; ++i)
    {
        double v = 0;
        for (int j = 0; j < 3; ++j) { v += V(s, i, j) * sg(s, j); }
        if (!near(*s.get_local_internal_potential_by_index(i), v)) { return false; }
        e += v * sg(s, i) / 2;
    }
    return near(s.get_electrostatic_potential_energy(), e);
}
"""


def run(c):
    w = Wit(c, "c35", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    cf = lambda k: f"int {k} = 0; while ({k} < {k}0) {{ ++{k}; }} "
    # construction
    for b in (2, 3):
        w.ob(f"initial_{b}", "int k0", cf("k") + f"const S s{{three(), par({b}, -0.3), st(k)}}; const auto o = s.get_sidb_order(); if (o.size() != 3) {{ return false; }} for (int i = 0; i < 3; ++i) {{ if (!(o[i] == P[i]) || s.cell_to_index(P[i]) != i || !(s.index_to_cell(i) == P[i]) || s.get_charge_state(P[i]) != st(k)) {{ return false; }} }} "
             f"return s.get_max_charge_index() == {b**3 - 1} && s.num_cells() == 3 && s.cell_to_index(C{{1, 0, 0}}) == -1 && s.get_charge_state(C{{1, 0, 0}}) == Q::NONE && consistent(s) && s.get_charge_index_and_base().first == k * {(b**3 - 1) // (b - 1)} && s.get_charge_index_and_base().second == {b};", {"k0": (0, b - 1)}, "construction", limit=60)
        n = b ** 3 - 1
        w.ob(f"index_{b}", "int k0, int j0", cf("k") + cf("j") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; s.assign_charge_index(j); s.assign_charge_index(k); if (!is(s, k, {b}) || s.get_charge_index_and_base().first != k) {{ return false; }} s.assign_charge_index(0, charge_distribution_mode::KEEP_CHARGE_DISTRIBUTION); if (!is(s, k, {b})) {{ return false; }} "
             f"s.charge_distribution_to_index(); if (s.get_charge_index_and_base().first != k) {{ return false; }} s.assign_charge_index(0, charge_distribution_mode::KEEP_CHARGE_DISTRIBUTION); s.charge_distribution_to_index_general(); return s.get_charge_index_and_base().first == k;", {"k0": (0, n), "j0": (0, 1) if b == 3 else (0, n)}, "index", limit=200)
        w.ob(f"assign_{b}", "int k0", cf("k") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; for (int i = 2; i >= 0; --i) {{ s.assign_charge_state(P[i], st(dg(k, {b}, i))); }} return is(s, k, {b}) && s.get_charge_index_and_base().first == k;", {"k0": (0, n)}, "index", limit=100)
        w.ob(f"count_up_{b}", "int k0", cf("k") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; for (int i = 0; i < k; ++i) {{ s.increase_charge_index_by_one(); if (!is(s, i + 1, {b}) || !consistent(s)) {{ return false; }} }} if (k == {n}) {{ s.increase_charge_index_by_one(); return is(s, k, {b}) && s.get_charge_index_and_base().first == k; }} return is(s, k, {b});", {"k0": ((1, n) if b == 2 else (n, n))}, "enumeration", limit=200)
        # dependent cell
        w.ob(f"dependent_{b}", "int d0, int k0", cf("d") + cf("k") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; s.assign_dependent_cell(P[d]); if (s.get_max_charge_index() != {b * b - 1}) {{ return false; }} s.assign_charge_index(k); int m = 0; for (int i = 0; i < 3; ++i) {{ if (i != d) {{ const int q = m == 0 ? k / {b} : k % {b}; ++m; if (s.get_charge_state(P[i]) != st(q)) {{ return false; }} }} }} "
             "s.assign_charge_index(0, charge_distribution_mode::KEEP_CHARGE_DISTRIBUTION); s.charge_distribution_to_index(); return s.get_charge_index_and_base().first == k;", {"d0": (0, 2), "k0": (0, b * b - 1)}, "dependent", limit=100)
        w.ob(f"count_dependent_{b}", "int d0", cf("d") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; s.assign_dependent_cell(P[d]); for (int k = 1; k < {b * b}; ++k) {{ s.increase_charge_index_by_one(dependent_cell_mode::VARIABLE); int m = 0; for (int i = 0; i < 3; ++i) {{ if (i != d) {{ const int q = m == 0 ? k / {b} : k % {b}; ++m; if (s.get_charge_state(P[i]) != st(q)) {{ return false; }} }} }} if (!consistent(s)) {{ return false; }} }} "
             "s.increase_charge_index_by_one(dependent_cell_mode::VARIABLE); return s.get_charge_index_and_base().first == s.get_max_charge_index();", {"d0": (0, 2)}, "enumeration", limit=100)
    w.ob("max_index", "int b0", cf("b") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; s.assign_base_number(static_cast<uint8_t>(b)); return s.get_max_charge_index() == b * b * b - 1 && s.get_charge_index_and_base().second == b;", {"b0": (2, 3)}, "index", limit=60)
    w.ob("max_index_dependent", "int b0", cf("b") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; s.assign_dependent_cell(P[1]); s.assign_base_number(static_cast<uint8_t>(b)); return s.get_max_charge_index() == b * b - 1;", {"b0": (2, 3)}, "index", limit=60)
    # potentials
    w.ob("potential", "int i0, int j0, int u", cf("i") + cf("j") + "sidb_simulation_parameters p = par(3, -0.3); p.epsilon_r = 4 + u / 4.0; p.lambda_tf = 5; const S s{three(), p, Q::NEGATIVE}; const double d = sidb_nm_distance<L>(s, P[i], P[j]); "
         "const double f = i == j ? 0 : 8.9875517923e9 / p.epsilon_r / (d * 1e-9) * std::exp(-d / 5) * 1.602176634e-19; return close(V(s, i, j), f) && close(s.get_chargeless_potential_between_sidbs(P[i], P[j]), f) && close(s.calculate_chargeless_potential_between_sidbs(P[i], P[j]), f) && near(s.get_nm_distance_by_indices(i, j), d) && near(s.get_nm_distance_between_sidbs(P[j], P[i]), d) && close(s.get_potential_between_sidbs(P[i], P[j]), -f);",
         {"i0": (0, 2), "j0": (0, 2), "u": (0, 8)}, "potential", limit=60)
    w.ob("energy", "int k0", cf("k") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; put(s, k, 3); s.update_after_charge_change(); return is(s, k, 3) && consistent(s);", {"k0": (0, 26)}, "energy", limit=60)
    w.ob("parameters", "int k0, int u", cf("k") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; put(s, k, 3); sidb_simulation_parameters p = par(3, -0.2); p.epsilon_r = 4 + u / 4.0; s.assign_physical_parameters(p); S t{three(), p, Q::NEGATIVE}; put(t, k, 3); t.update_after_charge_change(); return consistent(s) && near(V(s, 0, 2), V(t, 0, 2)) && near(s.get_electrostatic_potential_energy(), t.get_electrostatic_potential_energy()) && s.is_physically_valid() == t.is_physically_valid();", {"k0": (0, 26), "u": (0, 8)}, "energy", limit=100)
    E = "std::unordered_map<C, double> m{}; m[P[0]] = e0; m[P[1]] = e1; m[P[2]] = e2; s.assign_local_external_potential(m); "
    X = {k: (-2, 2) for k in ("e0", "e1", "e2")}
    w.ob("external", "int k0, double e0, double e1, double e2", cf("k") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; " + E + "put(s, k, 3); s.update_after_charge_change(); double v = 0; for (int i = 0; i < 3; ++i) { v += m[P[i]] * sg(s, i); for (int j = 0; j < 3; ++j) { v += V(s, i, j) * sg(s, i) * sg(s, j) / 2; } } "
         "return near(s.get_electrostatic_potential_energy(), v) && near(*s.get_local_external_potential(P[1]), e1) && near(*s.get_local_potential(P[2]), *s.get_local_internal_potential(P[2]) + e2);", {"k0": (0, 26)} | X, "energy", limit=100)
    w.ob("external_twice", "double e0, double e1, double e2, double g", "S s{three(), par(3, -0.3), Q::NEGATIVE}; " + E + "s.assign_local_external_potential(m); s.assign_global_external_potential(g); bool ok = true; for (int i = 0; i < 3; ++i) { ok = ok && near(*s.get_local_external_potential(P[i]), 2 * m[P[i]] + g) && near(s.get_effective_charge_transition_thresholds(i)[0], 2 * m[P[i]] + g + 0.3 + constants::ERROR_MARGIN); } "
         "s.reset_local_external_potentials(); return ok && near(*s.get_local_external_potential(P[0]), 0) && near(*s.get_local_external_potential(P[1]), 0) && near(*s.get_local_external_potential(P[2]), 0) && near(s.get_effective_charge_transition_thresholds(1)[0], 0.3 + constants::ERROR_MARGIN);", X | {"g": (-2, 2)}, "energy", limit=100)
    # validity
    pop = ("bool v = true; for (int i = 0; i < 3; ++i) { double t = m[P[i]]; for (int j = 0; j < 3; ++j) { t += V(s, i, j) * sg(s, j); } const double lo = mu - t, hi = mu - 0.59 - t, r = constants::ERROR_MARGIN; "
           "v = v && (sg(s, i) == -1 ? lo < r : sg(s, i) == 1 ? hi > -r : lo > -r && hi < r); } ")
    hop = "bool h = true; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { if (sg(s, i) < 1 && sg(s, j) > sg(s, i)) { double t = m[P[i]] - m[P[j]] - V(s, i, j); for (int l = 0; l < 3; ++l) { t += (V(s, i, l) - V(s, j, l)) * sg(s, l); } h = h && !(t < -constants::ERROR_MARGIN); } } } "
    for b in (2, 3):
        w.ob(f"hops_{b}", "int k0, double e0, double e1, double e2", cf("k") + f"S s{{three(), par({b}, -0.3), Q::NEGATIVE}}; " + E + f"put(s, k, {b}); s.update_after_charge_change(); " + hop + "return s.is_configuration_stable() == h;", {"k0": (0, b ** 3 - 1)} | X, "stability", limit=100)
        w.ob(f"valid_{b}", "int k0, double e0, double mu", cf("k") + f"S s{{three(), par({b}, mu), Q::NEGATIVE}}; const double e1 = 0.25 * e0, e2 = 0; " + E + f"put(s, k, {b}); s.update_after_charge_change(); " + pop + hop + "return s.is_physically_valid() == (v && h);", {"k0": (0, b ** 3 - 1), "e0": (-2, 2), "mu": (-2, 0)}, "stability", limit=100)
    # Gray code, local potentials updated incrementally
    w.ob("gray", "int d0, int k0, double mu", cf("d") + cf("k") + "S s{three(), par(2, mu), Q::NEUTRAL}; s.assign_dependent_cell(P[d]); s.update_after_charge_change(dependent_cell_mode::VARIABLE); int g0 = 0; "
         "for (int i = 1; i <= k; ++i) { const int g = i ^ (i >> 1); s.assign_charge_index_by_gray_code(g, g0, dependent_cell_mode::VARIABLE, energy_calculation::UPDATE_ENERGY, charge_distribution_history::CONSIDER); g0 = g; } "
         "int m = 0; for (int i = 0; i < 3; ++i) { if (i != d) { if (sg(s, i) != -((g0 >> m) & 1)) { return false; } ++m; } } return consistent(s);", {"d0": (0, 2), "k0": (0, 3), "mu": (-2, 0)}, "gray-code", limit=200)
    for b in (2, 3):
        w.ob(f"dependent_charge_{b}", "int d0, int k0, double mu", cf("d") + cf("k") + f"S s{{three(), par({b}, mu), Q::NEGATIVE}}; s.assign_dependent_cell(P[d]); s.assign_charge_index(k); s.update_after_charge_change(dependent_cell_mode::VARIABLE); double t = 0; for (int j = 0; j < 3; ++j) {{ t += V(s, d, j) * sg(s, j); }} const double r = constants::ERROR_MARGIN; "
             f"const int q = sg(s, d); const bool ok = mu - t < r ? q == -1 : ({b} == 3 && mu - 0.59 - t > -r) ? q == 1 : mu - 0.59 - t > -r ? true : q == 0; return ok && consistent(s);", {"d0": (0, 2), "k0": (0, b * b - 1), "mu": (-2, 0)}, "dependent", limit=200)
    # counts
    w.ob("counts", "int k0", cf("k") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; put(s, k, 3); int n[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) { ++n[dg(k, 3, i)]; } "
         "return s.num_negative_sidbs() == n[0] && s.num_neutral_sidbs() == n[1] && s.num_positive_sidbs() == n[2] && s.charge_exists(Q::NEGATIVE) == (n[0] > 0) && s.charge_exists(Q::NEUTRAL) == (n[1] > 0) && s.charge_exists(Q::POSITIVE) == (n[2] > 0) && s.get_all_sidb_charges().size() == 3;", {"k0": (0, 26)}, "counts", limit=60)
    w.ob("must_be_negative", "double e0, double e1, double e2, double mu", "S s{three(), par(3, mu), Q::NEGATIVE}; " + E + "s.update_after_charge_change(); const auto v = s.negative_sidb_detection(); unsigned n = 0; for (int i = 0; i < 3; ++i) { double t = m[P[i]]; for (int j = 0; j < 3; ++j) { t -= V(s, i, j); } if (mu - t < -constants::ERROR_MARGIN) { if (n >= v.size() || v[n] != i) { return false; } ++n; } } return n == v.size();", X | {"mu": (-2, 0)}, "counts", limit=100)
    w.ob("can_be_positive", "double e0, double e1, double e2, double mu", "S s{three(), par(3, mu), Q::NEGATIVE}; " + E + "const bool q = s.is_three_state_simulation_required(); unsigned n = 0, n2 = 0; const auto p = s.get_positive_candidates(); unsigned r = 0; while (r < 4 && !s.index_to_two_state_cell(r).is_dead()) { ++r; } for (int i = 0; i < 3; ++i) { double t = m[P[i]]; for (int j = 0; j < 3; ++j) { t -= V(s, i, j); } if (mu - 0.59 - t >= -constants::ERROR_MARGIN) { if (n >= p.size() || !(p[n] == P[i])) { return false; } ++n; } else { if (n2 >= r || !(s.index_to_two_state_cell(n2) == P[i])) { return false; } ++n2; } } return n == p.size() && n2 == r && q == (n > 0);", X | {"mu": (-2, 0)}, "counts", limit=100)
    # copies
    for nm, cp in (("copy", "S t{s}; "), ("clone", "S t = s.clone(); "), ("assign", "L o{}; o.assign_cell_type(C{9, 9, 0}, T::NORMAL); S t{o, par(2, -0.1), Q::NEUTRAL}; t = s; ")):
        w.ob("independent_" + nm, "int k0, int j0", cf("k") + cf("j") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; put(s, k, 3); s.update_after_charge_change(); " + cp + "const bool same = is(t, k, 3) && t.num_cells() == 3 && near(t.get_electrostatic_potential_energy(), s.get_electrostatic_potential_energy()) && t.get_cell_type(P[2]) == T::INPUT; "
             "t.assign_charge_index(j); t.update_after_charge_change(); if (!(same && is(s, k, 3) && is(t, j, 3) && consistent(s) && consistent(t))) { return false; } s.assign_charge_index(25 - j); return is(t, j, 3);", {"k0": (0, 26), "j0": (1, 2)}, "independent", limit=100)
    # defects
    DF = "const sidb_defect d1{DT::SI_VACANCY, -1, 7, 3}, d2{DT::ARSENIC, 1, 9, 5}; const C a{2, 3, 0}, b{7, 0, 1}; const auto pot = [&](const S& s, int i, const C& x, const sidb_defect& d) { const double r = sidb_nm_distance<L>(s, P[i], x); return 8.9875517923e9 / d.epsilon_r / (r * 1e-9) * std::exp(-r / d.lambda_tf) * 1.602176634e-19 * d.charge; }; (void)b; (void)d2; " \
         "const auto holds = [&](const S& s, int n1, int n2) { for (int i = 0; i < 3; ++i) { double v = 0; for (int j = 0; j < 3; ++j) { v += V(s, i, j) * sg(s, j); } double e = 0; if (n1) { e += pot(s, i, a, n1 == 1 ? d1 : d2); } if (n2) { e += pot(s, i, b, d2); } if (!near(*s.get_local_internal_potential_by_index(i), v + e) || !near(*s.get_local_potential_caused_by_defects_by_index(i), e)) { return false; } } return true; }; "
    W = "S s{three(), par(3, -0.3), Q::NEGATIVE}; "
    for nm, code in (("add", "s.add_sidb_defect_to_potential_landscape(a, d1); const bool ok = holds(s, 1, 0); s.add_sidb_defect_to_potential_landscape(b, d2); if (!(ok && holds(s, 1, 1) && s.get_defects().size() == 2)) { return false; } put(s, k, 3); s.update_after_charge_change(); return holds(s, 1, 1);"),
                     ("replace", "s.add_sidb_defect_to_potential_landscape(a, d1); s.add_sidb_defect_to_potential_landscape(a, d2); if (!holds(s, 2, 0)) { return false; } put(s, k, 3); s.update_after_charge_change(); return holds(s, 2, 0) && s.get_defects().size() == 1;"),
                     ("erase", "s.add_sidb_defect_to_potential_landscape(a, d1); s.add_sidb_defect_to_potential_landscape(b, d2); s.erase_defect(a); s.erase_defect(C{5, 5, 0}); if (!holds(s, 0, 1)) { return false; } put(s, k, 3); s.update_after_charge_change(); s.erase_defect(b); return holds(s, 0, 0) && s.get_defects().empty();"),
                     ("energy", "s.add_sidb_defect_to_potential_landscape(a, d1); put(s, k, 3); s.update_after_charge_change(); double v = 0; for (int i = 0; i < 3; ++i) { v += pot(s, i, a, d1) * sg(s, i) / 2; const double r = sidb_nm_distance<L>(s, P[i], a); v += 8.9875517923e9 / 5.6 / (r * 1e-9) * std::exp(-r / 5.0) * 1.602176634e-19 * sg(s, i) * -1 / 2; for (int j = 0; j < 3; ++j) { v += V(s, i, j) * sg(s, i) * sg(s, j) / 2; } } return near(s.get_electrostatic_potential_energy(), v);")):
        w.ob("defect_" + nm, "int k0", DF + cf("k") + W + code, {"k0": (0, 26)}, "defects", limit=100)
    w.ob("defect_on_sidb", "int k0", DF + cf("k") + W + "s.add_sidb_defect_to_potential_landscape(P[k], d1); s.add_sidb_defect_to_potential_landscape(a, sidb_defect{DT::SILOXANE, 0, 5, 5}); return holds(s, 0, 0) && s.get_defects().empty();", {"k0": (0, 2)}, "defects", limit=60)
    w.ob("defect_surface", "int k0", DF + cf("k") + "sidb_defect_surface<L> x{three()}; x.assign_sidb_defect(a, d1); x.assign_sidb_defect(b, d2); charge_distribution_surface<sidb_defect_surface<L>> s{x, par(3, -0.3), st(k)}; for (int i = 0; i < 3; ++i) { double v = 0; for (int j = 0; j < 3; ++j) { v += s.get_chargeless_potential_by_indices(i, j) * (k - 1); } "
         "for (int n = 0; n < 2; ++n) { const C& p = n ? b : a; const sidb_defect& d = n ? d2 : d1; const double r = sidb_nm_distance<L>(x, P[i], p); v += 8.9875517923e9 / d.epsilon_r / (r * 1e-9) * std::exp(-r / d.lambda_tf) * 1.602176634e-19 * d.charge; } if (!near(*s.get_local_internal_potential_by_index(i), v)) { return false; } } return true;", {"k0": (0, 2)}, "defects", limit=60)
    # adding SiDBs
    w.ob("add_sidb", "int k0", cf("k") + "S s{three(), par(3, -0.3), Q::NEGATIVE}; put(s, k, 3); s.add_sidb(C{2, 0, 1}, Q::POSITIVE); const auto o = s.get_sidb_order(); if (o.size() != 4) { return false; } for (int i = 0; i < 3; ++i) { if (!(o[i] < o[i + 1])) { return false; } } for (int i = 0; i < 3; ++i) { if (s.get_charge_state(P[i]) != st(dg(k, 3, i))) { return false; } } return s.get_charge_state(C{2, 0, 1}) == Q::POSITIVE;", {"k0": (0, 26)}, "add", limit=60)
    w.run()
