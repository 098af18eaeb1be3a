"""C30: distances, costs and distance maps."""
import os
import vf
from vf import Wit

A = "include/fiction/algorithms/path_finding/distance.hpp"
B = "include/fiction/algorithms/path_finding/cost.hpp"
D = "include/fiction/algorithms/path_finding/distance_map.hpp"
META = dict(
    title="Distances and costs follow their formulas; maps and caches return the same",
    statement="The Manhattan, Chebyshev and squared Euclidean distance of two coordinates are the sum, the maximum and the sum of squares of their axis differences, the "
              "2DDWave distance is the Manhattan distance if the target is not to the west or north of the source and the largest 32-bit number otherwise, and the unit cost is 1; "
              "each functor returns what its function returns, for any coordinate type including negative coordinates. Distance maps, dense and sparse, and the functors over them "
              "return for any two tiles of their layout, with any number of layers, the distance they were filled with, and a caching functor calls its function at most once per pair.",
    forall="all pairs of coordinates with components up to 2^30 (2^25 for squares); maps of every layout of up to 3 x 2 tiles and two layers; every sequence of three cached queries",
    why="path finding is guided and bounded by these numbers: a wrong heuristic silently yields longer or no paths",
    files=[A, B, D],
    mechanism=["distance functions @ " + A + ":30-140", "unit_cost @ " + B + ":25-40", "distance maps and caches @ " + D + ":30-270"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic coordinates",
    note="phmap's maps and mockturtle's traits are replaced by stand-ins; the Euclidean distance is compared with std::hypot of the differences.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]
PRE = """#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <cmath>
#include <cstdint>
#include <vector>
using namespace fiction;
using I = int64_t;
using CO = cartesian_layout<offset::ucoord_t>; using CU = cartesian_layout<cube::coord_t>; using HX = hexagonal_layout<offset::ucoord_t, even_row_hex>;
static I ab(I v) { return v < 0 ? -v : v; }
"""


def run(c):
    w = Wit(c, "c30", PRE, A, flags=FLAGS)
    M = 1 << 30
    for lt, lo, ty in (("CO", 0, "I"), ("HX", 0, "I"), ("CU", -M, "int")):
        R = {k: (lo, M) for k in "xyuv"} | {"z": (0, 1), "zz": (0, 1)}
        Q = {k: (max(lo, -(1 << 25)), 1 << 25) for k in "xyuv"} | {"z": (0, 1), "zz": (0, 1)}
        P = "int x, int y, int z, int u, int v, int zz"
        L = f"using L = {lt}; using C = coordinate<L>; const L l{{{{5, 5, 1}}}}; const C a{{{ty}{{x}}, {ty}{{y}}, {ty}{{z}}}}, b{{{ty}{{u}}, {ty}{{v}}, {ty}{{zz}}}}; const I dx = ab(I{{x}} - I{{u}}), dy = ab(I{{y}} - I{{v}}); "
        w.ob(f"manhattan_{lt}", P, L + "const uint64_t e = static_cast<uint64_t>(dx + dy); return manhattan_distance<L>(l, a, b) == e && manhattan_distance<L, int64_t>(l, a, b) == dx + dy && manhattan_distance_functor<L>{}(l, a, b) == e;", R, "formula", anchor=A)
        w.ob(f"chebyshev_{lt}", P, L + "const auto r = static_cast<I>(chebyshev_distance<L>(l, a, b)), f = static_cast<I>(chebyshev_distance_functor<L>{}(l, a, b)); return r >= dx && r >= dy && (r == dx || r == dy) && r == f;", R, "formula", anchor=A)
        w.ob(f"twoddwave_{lt}", P, L + "const uint64_t e = x <= u && y <= v ? static_cast<uint64_t>(dx + dy) : 0xffffffffull; return twoddwave_distance<L>(l, a, b) == e && twoddwave_distance_functor<L>{}(l, a, b) == e && twoddwave_distance<L, int64_t>(l, a, b) == static_cast<int64_t>(e);", R, "formula", anchor=A)
        w.ob(f"squared_{lt}", P, L + "const uint64_t e = static_cast<uint64_t>(dx * dx + dy * dy); return squared_euclidean_distance<L>(l, a, b) == e && squared_euclidean_distance_functor<L>{}(l, a, b) == e;", Q, "formula", anchor=A)
        w.ob(f"euclidean_{lt}", P, L + "const double e = std::hypot(static_cast<double>(x) - static_cast<double>(u), static_cast<double>(y) - static_cast<double>(v)); return euclidean_distance<L>(l, a, b) == e && euclidean_distance_functor<L>{}(l, a, b) == e;", Q, "formula", anchor=A)
        w.ob(f"unit_{lt}", P, L + "return unit_cost<L>(a, b) == 1 && unit_cost<L, uint64_t>(a, b) == 1 && unit_cost_functor<L>{}(a, b) == 1;", R, "formula", anchor=B)
    w.add("""static I code(I x, I y, I u, I v) { return ((x * 8 + y) * 8 + u) * 8 + v + 5; }
struct fdist : distance_functor<CO, I> { fdist() : distance_functor<CO, I>([](const CO&, const offset::ucoord_t& a, const offset::ucoord_t& b) { return code(a.x, a.y, b.x, b.y); }) {} };
""")
    for W in range(3):
        for H in range(2):
            for Z in range(2):
                w.ob(f"map_{W}{H}{Z}", "int k", f"using C = offset::ucoord_t; const CO l{{C{{{W}, {H}, {Z}}}}}; const fdist f{{}}; const auto m = initialize_distance_map<CO, I>(l, f); const distance_map_functor<CO, I> g{{m}}; const auto s = initialize_sparse_distance_map<CO, I>(l, f); "
                     f"const sparse_distance_map_functor<CO, I> h{{s}}; for (I x = 0; x <= {W}; ++x) {{ for (I y = 0; y <= {H}; ++y) {{ for (I z = 0; z <= {Z}; ++z) {{ for (I u = 0; u <= {W}; ++u) {{ for (I v = 0; v <= {H}; ++v) {{ for (I t = 0; t <= {Z}; ++t) {{ "
                     "const C a{x, y, z}, b{u, v, t}; if (g(l, a, b) != code(x, y, u, v) || h(l, a, b) != code(x, y, u, v)) { return false; } } } } } } } return m.size() >= l.area();", {"k": (0, 0)}, "maps", anchor=D)
    w.ob("cache", "int x, int y, int u, int v, int w, int e0", f"""using C = offset::ucoord_t; int e = 0; while (e < e0) {{ ++e; }} const CO l{{C{{5, 5}}}}; const C a{{x, y}}, b{{x + 1 + u, v}}, d{{w, y + 1, 1}}; const C q[4] = {{a, b, d, e & 1 ? a : b}}; int calls = 0;
        smart_distance_cache_functor<CO, I> f{{l, [&calls](const CO&, const C& s, const C& t) {{ ++calls; return static_cast<I>(s.x) * 7 + static_cast<I>(t.x) * 3 + static_cast<I>(s.y) * 5 + static_cast<I>(t.y) + static_cast<I>(t.z); }}}};
        const int p[3][2] = {{{{0, 1}}, {{(e >> 1) & 3, (e >> 3) & 3}}, {{(e >> 5) & 3, (e >> 7) & 3}}}}; int distinct = 0;
        for (int i = 0; i < 3; ++i) {{ const C s = q[p[i][0]], t = q[p[i][1]]; bool seen = false; for (int j = 0; j < i; ++j) {{ seen = seen || (q[p[j][0]] == s && q[p[j][1]] == t); }} distinct += seen ? 0 : 1;
            if (f(l, s, t) != static_cast<I>(s.x) * 7 + static_cast<I>(t.x) * 3 + static_cast<I>(s.y) * 5 + static_cast<I>(t.y) + static_cast<I>(t.z) || calls != distinct) {{ return false; }} }} return true;""",
         {k: (0, M // 2 - 1) for k in "xyuvw"} | {"e0": (0, 511)}, "cache", anchor=D, limit=120)
    w.run()
