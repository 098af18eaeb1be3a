"""C11: conversion of a potential to a distance."""
from vf import Wit

A = "include/fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp"
B = "include/fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp"
META = dict(
    title="A potential converts to the first distance at which it is no longer exceeded",
    statement="The distance returned for a potential, physical parameters and a precision is the smallest positive multiple of 10^-precision nm at which "
              "the screened Coulomb potential of one elementary charge, e / (4 pi eps_0 eps_r d) * exp(-d / lambda_tf), is not greater than the given "
              "potential; the defaults are the documented parameters and two decimal places. The parameters' Coulomb constant is K_E / eps_r and mu_plus "
              "is mu_minus - 0.59 eV for all values. The physical constants agree with CODATA to 1e-5.",
    forall="all potentials, relative permittivities and screening lengths whose distance is within the first 12 (thorough: 40) steps, precisions 0 to 4",
    over=["inputs"],
    why="a test compares a handful of distances under a tolerance; a wrong exponent, unit or stop condition shifts every influence radius",
    files=[A, B],
    mechanism=["potential_to_distance_conversion @ " + A + ":33-66", "physical constants @ include/fiction/technology/constants.hpp:13-46", "sidb_simulation_parameters::k, mu_plus @ " + B + ":60-75"],
    technique="abstract interpretation of LLVM IR with exp uninterpreted and real arithmetic",
    note="Real arithmetic: rounding errors, which may shift the result by one step, are not modelled. Potentials that need more steps than the bound are "
         "not explored; the loop treats every step alike.",
)


def run(c):
    w = Wit(c, "c11", """#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <cmath>
#include <cstdint>
using P = fiction::sidb_simulation_parameters;
static P par(double er, double l) { P p{}; p.epsilon_r = er; p.lambda_tf = l; return p; }
static constexpr double KE = fiction::constants::physical::K_E, Q = fiction::constants::physical::ELEMENTARY_CHARGE;
static double phi(double d, double er, double l) { return KE / er / (d * 1e-9) * std::exp(-d / l) * Q; }
static bool rel(double a, double b) { const double q = a / b - 1; return q < 1e-5 && q > -1e-5; }
static double at(unsigned n, double step) { return n * step; }
static bool near(double a, double b) { const double d = a - b; return d < 1e-12 && d > -1e-12; }
static bool first(double r, double v, double er, double l, double step, unsigned n)
{
    for (unsigned i = 1; i <= n; ++i) { if (!(phi(i * step, er, l) > v)) { return near(r, i * step); } }
    return true;
}
""", A)
    n = 40 if c.thorough else 12
    R = {"v": (-10, 1000), "er": (1, 100), "l": (1, 100)}
    for k, st in enumerate(("1.0", "0.1", "0.01", "0.001", "0.0001")):
        pre = f"if (phi(at({n}, {st}), er, l) > v) return true; "
        w.ob(f"first_{k}", "double v, double er, double l", pre + f"return first(fiction::potential_to_distance_conversion(v, par(er, l), {k}), v, er, l, "
             f"{st}, {n});", R, "first-distance", limit=200)
    w.ob("default_precision", "double v, double er, double l", f"if (phi(at({n}, 0.01), er, l) > v) return true; return "
         f"first(fiction::potential_to_distance_conversion(v, par(er, l)), v, er, l, 0.01, {n});", R, "first-distance", limit=200)
    w.ob("default_params", "double v", f"if (phi(at({n}, 0.01), 5.6, 5.0) > v) return true; return first(fiction::potential_to_distance_conversion(v), v, 5.6, 5.0, "
         f"0.01, {n});", R, "first-distance", limit=200)
    w.ob("other_params", "double v, double er, double l, double mu, bool b", f"if (phi(at({n}, 0.1), er, l) > v) return true; P p{{static_cast<uint8_t>(b ? 2 : "
         f"3), mu, er, l}}; return first(fiction::potential_to_distance_conversion(v, p, 1), v, er, l, 0.1, {n});", dict(R, mu=(-1, 0)), "first-distance",
         limit=200)
    w.ob("coulomb", "double er", "const auto k = par(er, 5.0).k(); const double q = k * er / KE - 1; return q < 1e-6 && q > -1e-6;", {"er": (1, 100)}, "parameters")
    for x, v in (("PI", "3.14159265358979"), ("physical::EPSILON", "8.8541878128e-12"), ("physical::ELEMENTARY_CHARGE", "1.602176634e-19"),
                 ("physical::K_E", "8.9875517923e9"), ("physical::BOLTZMANN_CONSTANT", "1.380649e-23"), ("physical::EV_TO_JOULE", "1.602176634e-19")):
        w.ob("constant_" + x.split(":")[-1].lower(), "bool z", f"volatile double q = fiction::constants::{x}; return rel(q, {v});", {}, "physical-constants",
             anchor="include/fiction/technology/constants.hpp")
    w.ob("muplus", "double mu", "P p{}; p.mu_minus = mu; return near(p.mu_plus(), mu - 0.59);", {"mu": (-1, 0)}, "parameters")
    w.ob("ctor", "bool b, double mu, double er, double l", "const P p{static_cast<uint8_t>(b ? 2 : 3), mu, er, l}; return p.base == (b ? 2 : 3) && p.mu_minus == mu "
         "&& p.epsilon_r == er && p.lambda_tf == l;", {}, "parameters")
    w.ob("defaults", "bool z", "const P p{}; return p.base == 3 && near(p.mu_minus, -0.32) && near(p.epsilon_r, 5.6) && near(p.lambda_tf, 5.0);", {}, "parameters")
    w.run()
