"""C12: simulation parameters, physical and lattice constants."""
from vf import Wit

META = dict(
    title="SiDB simulation parameters and physical constants have their documented values",
    statement="A simulation-parameter set constructed from a base number, mu-minus, relative permittivity and screening distance "
              "reports exactly those values, with defaults 3, -0.32 eV, 5.6 and 5 nm when omitted; its Coulomb factor is the Coulomb "
              "constant divided by the current relative permittivity and its mu-plus is the current mu-minus minus 0.59 eV, also after "
              "the fields were changed. The physical constants (vacuum permittivity 8.8541878e-12, elementary charge 1.6021766e-19, "
              "Coulomb constant 8.987552e9, Boltzmann constant 1.38064852e-23, eV-to-joule, the error margin 1e-6) and the lattice "
              "constants of H-Si(100)-2x1 (3.84, 7.68, dimer offset (0, 2.25)) and H-Si(111)-1x1 (6.65, 3.84, dimer offset (3.3255, "
              "1.92)) have those values.",
    forall="all parameter values with a positive relative permittivity; every constant",
    over=["inputs", "configurations"],
    why="the tests compare a handful of parameter sets against each other, never the derived quantities for all values",
    files=["include/fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp", "include/fiction/technology/constants.hpp",
           "include/fiction/technology/sidb_lattice_orientations.hpp"],
    mechanism=["constructor, k(), mu_plus() @ include/fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp:20-80",
               "constants @ include/fiction/technology/constants.hpp:10-50"],
    technique="abstract interpretation of LLVM IR with exact rational-function arithmetic over witness units",
    note="Proved for all real parameter values (floating-point rounding is abstracted to real arithmetic); trusts clang and lib/.",
)
PAR = "include/fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp"
CON = "include/fiction/technology/constants.hpp"
LAT = "include/fiction/technology/sidb_lattice_orientations.hpp"


def run(c):
    w = Wit(c, "c12", "#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>\n"
            "#include <fiction/technology/constants.hpp>\n#include <fiction/technology/sidb_lattice_orientations.hpp>\n"
            "using P = fiction::sidb_simulation_parameters; namespace ph = fiction::constants::physical;", PAR)
    e = {"e": (0.001, 1000)}
    b = {"b": (2, 3)}
    f4 = "uint8_t b, double m, double e, double l"
    w.ob("ctor4", f4, "const P p{b, m, e, l}; return p.base == b && p.mu_minus == m && p.epsilon_r == e && p.lambda_tf == l;",
         {**b, **e}, "argument-reaches-its-field")
    w.ob("ctor3", "uint8_t b, double m, double e",
         "const P p{b, m, e}; return p.base == b && p.mu_minus == m && p.epsilon_r == e && p.lambda_tf == 5.0;", {**b, **e},
         "argument-reaches-its-field")
    w.ob("ctor2", "uint8_t b, double m",
         "const P p{b, m}; return p.base == b && p.mu_minus == m && p.epsilon_r == 5.6 && p.lambda_tf == 5.0;", b,
         "argument-reaches-its-field")
    w.ob("ctor1", "uint8_t b", "const P p{b}; return p.base == b && p.mu_minus == -0.32 && p.epsilon_r == 5.6 && p.lambda_tf == 5.0;",
         b, "documented-default")
    w.ob("ctor0", "", "const P p{}; return p.base == 3 && p.mu_minus == -0.32 && p.epsilon_r == 5.6 && p.lambda_tf == 5.0;", {},
         "documented-default")
    w.ob("k", f4, "const P p{b, m, e, l}; return p.k() * e == 8.987552 * 1E9;", {**b, **e}, "coulomb-factor")
    w.ob("k_after", f4 + ", double e2", "P p{b, m, e, l}; p.epsilon_r = e2; return p.k() * e2 == 8.987552 * 1E9;",
         {**b, **e, "e2": (0.001, 1000)}, "coulomb-factor")
    w.ob("mu_plus", f4, "const P p{b, m, e, l}; return p.mu_plus() + 0.59 == m;", {**b, **e}, "mu-plus-offset")
    w.ob("mu_plus_after", f4 + ", double m2", "P p{b, m, e, l}; p.mu_minus = m2; return p.mu_plus() + 0.59 == m2;", {**b, **e},
         "mu-plus-offset")
    w.ob("pure", f4, "P p{b, m, e, l}; (void)p.k(); (void)p.mu_plus(); return p.base == b && p.mu_minus == m && p.epsilon_r == e && "
         "p.lambda_tf == l;", {**b, **e}, "queries-do-not-modify")

    def rel(a, v):
        return f"const double d = ({a}) - ({v}); const double t = ({v}) < 0 ? -({v}) : ({v}); return d <= t * 1e-12 && d >= -t * 1e-12;"
    for n, x, v in (("epsilon", "ph::EPSILON", "8.8541878E-12"), ("charge", "ph::ELEMENTARY_CHARGE", "1.6021766E-19"),
                    ("ke", "ph::K_E", "8.987552E9"), ("kb", "ph::BOLTZMANN_CONSTANT", "1.38064852E-23"),
                    ("ev", "ph::EV_TO_JOULE", "1.6021766E-19"), ("margin", "fiction::constants::ERROR_MARGIN", "1E-6"),
                    ("pi", "fiction::constants::PI", "3.14159265359")):
        w.ob("const_" + n, "", rel(x, v), {}, "constant-value", CON)
    for lat, vals in (("fiction::sidb_100_lattice", ("3.84", "7.68", "0.0", "2.25")),
                      ("fiction::sidb_111_lattice", ("6.65", "3.84", "3.3255", "1.92"))):
        for nm, v in zip(("LAT_A", "LAT_B", "LAT_C.first", "LAT_C.second"), vals):
            w.ob(f"lat_{lat[14:17]}_{nm.replace('.', '_')}", "", rel(f"{lat}::{nm}", v), {}, "lattice-constant", LAT)
    w.run()
