"""C20: arithmetic and combinatorial helpers."""
import math
from vf import Wit

A = "include/fiction/utils/math_utils.hpp"
META = dict(
    title="Absolute value, rounding, binomials, products and weighted sums are exact",
    statement="The absolute value of an integer is the integer or its negation, whichever is not negative, for every integral type; rounding "
              "to n decimal places is the nearest multiple of 10^-n; the binomial coefficient of n and k is 0 for k > n and the exact number "
              "of k-subsets whenever that number fits in 64 bits. The combinations of a list of sets are all tuples with one element per set, "
              "each exactly once in lexicographic order of positions; the weighted cost is the sum of weight times value, and different "
              "numbers of weights and values are rejected with std::invalid_argument.",
    forall="all integers of all eight integral types whose absolute value is representable; all n and k whose binomial fits "
           "in 64 bits; all element values for lists of up to 3 sets of up to 3 elements; cost vectors of up to 4 entries",
    why="tests sample a few literals; overflow and ordering errors only show for inputs they do not use, and the callers (combination "
        "enumeration, operational domains, critical temperature) rely on exact counts",
    files=[A],
    mechanism=["integral_abs @ " + A + ":40-51", "binomial_coefficient @ " + A + ":52-80", "cartesian_combinations @ " + A + ":81-120",
               "cost_function_chi @ " + A + ":121-145", "round_to_n_decimal_places @ " + A + ":20-35"],
    technique="abstract interpretation of LLVM IR over polynomial domains, with integer-valued-polynomial reasoning for the division",
    note="Binomials are proved symbolically in n for min(k, n-k) = 0..7 up to the largest n whose result fits; larger k leave 2319 pairs, each decided by constant propagation. "
         "Floating-point operations are read over the reals; rounding is compared term by term with round(x*10^n)/10^n. Trusts clang, lib/.",
)
PRE = """#include <fiction/utils/math_utils.hpp>
#include <cstdint>
#include <cmath>
#include <vector>
#include <stdexcept>
using namespace fiction; using u128 = unsigned __int128; using V = std::vector<int>; using VV = std::vector<std::vector<int>>;
"""


def run(c):
    w = Wit(c, "c20", PRE, A)
    for b in (8, 16, 32, 64):
        T = f"int{b}_t"
        w.ob(f"abs{b}", f"{T} x", f"const auto r = integral_abs(x); static_assert(sizeof(r) == sizeof(x)); return x < 0 ? r == static_cast<"
             f"{T}>(-x) && r > 0 : r == x;", {"x": (-(1 << (b - 1)) + 1, (1 << (b - 1)) - 1)}, "absolute-value")
        w.ob(f"absu{b}", f"u{T} x", "return integral_abs(x) == x;", {}, "absolute-value")
    K = 8 if c.thorough else 7
    for k in range(0, K + 1):
        # the largest n whose binomial fits
        lo, hi = 2 * k, 1 << 65
        if k == 0:
            hi = (1 << 64) - 1
        else:
            a, b = lo, hi
            while b - a > 1:
                m = (a + b) // 2
                if math.comb(m, k) < 1 << 64:
                    a = m
                else:
                    b = m
            hi = min(a, (1 << 64) - 1)
        hi -= 2 * k
        prod = "1"
        for i in range(k):
            prod = f"{prod} * (n - {i})"
        for nm, kk in ((f"binom_{k}", f"{k}"), (f"binom_n_minus_{k}", f"t + {k}")):
            w.ob(nm, "uint64_t t", f"const uint64_t N = t + {2 * k}; const u128 n = N; const u128 r = binomial_coefficient(N, {kk}); "
                 f"return r * {math.factorial(k)}ull == {prod};", {"t": (0, hi)}, "number-of-subsets")
    for k in range(K + 1, 34):
        ns, e = 2 * k, []
        while math.comb(ns + len(e), k) < 1 << 64:
            e.append(math.comb(ns + len(e), k))
        if len(e) > 300:
            parts = [e[:300], e[300:600], e[600:]]
        else:
            parts = [e]
        for j, q in enumerate(parts):
            if q:
                w.ob(f"binom_{k}_const{j}", "int t", f"static constexpr uint64_t E[] = {{{', '.join(f'{v}ull' for v in q)}}}; for (uint64_t i = 0; i < {len(q)}; ++i) {{ const uint64_t n = {ns + 300 * j} + i; "
                     f"if (binomial_coefficient(n, {k}) != E[i] || binomial_coefficient(n, n - {k}) != E[i]) return false; }} return true;", {"t": (0, 0)}, "number-of-subsets")
    w.ob("binom_beyond", "uint64_t n, uint64_t k", "if (k <= n) return true; return binomial_coefficient(n, k) == 0;", {},
         "number-of-subsets")
    for n in (0, 1, 2, 3, 6):
        w.ob(f"round{n}", "double x", f"return round_to_n_decimal_places(x, {n}) == std::round(x * std::pow(10.0, {n}.0)) / std::pow(10.0, "
             f"{n}.0);", {}, "nearest-multiple")
    w.ob("round_n", "double x, uint32_t n", "return round_to_n_decimal_places(x, n) == std::round(x * std::pow(10.0, n)) / "
         "std::pow(10.0, n);", {}, "nearest-multiple")
    shapes = [(), (0,), (1,), (3,), (1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (2, 0), (0, 2), (2, 2, 2), (1, 2, 3), (3, 1, 2), (2, 0, 2)]
    if c.thorough:
        shapes += [(3, 3, 3), (2, 2, 2, 2), (4, 4)]
    import itertools
    for sh in shapes:
        xs = [[f"x{i}_{j}" for j in range(n)] for i, n in enumerate(sh)]
        flat = [x for r in xs for x in r]
        tup = list(itertools.product(*xs))
        body = "const VV s{" + ", ".join("V{" + ", ".join(r) + "}" for r in xs) + "}; const VV r = cartesian_combinations(s); " \
               f"if (r.size() != {len(tup)}u) return false; "
        if len(sh) == 1:
            body = "VV s{}; s.push_back(V{" + ", ".join(xs[0]) + "}); const VV r = cartesian_combinations(s); " \
                   f"if (r.size() != {len(tup)}u) return false; "
        for i, t in enumerate(tup):
            body += f"if (r[{i}].size() != {len(sh)}u) return false; "
            for j, x in enumerate(t):
                body += f"if (r[{i}][{j}] != {x}) return false; "
        w.ob("combos_" + ("_".join(map(str, sh)) or "none"), ", ".join("int " + x for x in flat), body + "return true;", {}, "all-tuples-in-order")
    for n in range(0, 5):
        xs = [f"x{i}" for i in range(n)]
        ws = [f"w{i}" for i in range(n)]
        args = ", ".join("double " + v for v in xs + ws)
        s = " + ".join(["0.0"] + [f"{a} * {b}" for a, b in zip(ws, xs)])
        w.ob(f"chi{n}", args, f"const std::vector<double> x{{{', '.join(xs)}}}, w{{{', '.join(ws)}}}; return cost_function_chi(x, w) == {s};",
             {}, "weighted-sum")
    for i, j in ((0, 1), (1, 0), (1, 2), (2, 1), (3, 2), (0, 3)):
        xs = [f"x{k}" for k in range(i)]
        ws = [f"w{k}" for k in range(j)]
        w.ob(f"chi_reject_{i}_{j}", ", ".join("double " + v for v in xs + ws),
             f"const std::vector<double> x{{{', '.join(xs)}}}, w{{{', '.join(ws)}}}; try {{ (void)cost_function_chi(x, w); }} catch (const "
             "std::invalid_argument&) { return true; } catch (...) { return false; } return false;", {}, "rejected")
    w.run()
