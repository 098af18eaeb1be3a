"""C31: layout wrappers: obstructions, synchronization elements, tiles."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/obstruction_layout.hpp"
B = "include/fiction/layouts/synchronization_element_layout.hpp"
D = "include/fiction/layouts/tile_based_layout.hpp"
META = dict(
    title="Obstructed, synchronized and tile-based layouts add exactly their own feature",
    statement="A coordinate is obstructed exactly if it was marked and not cleared since or is occupied by a gate or cell of the wrapped layout, and a connection exactly if it was "
              "marked in that direction and not cleared since or already exists as a signal of the wrapped gate-level layout; marking one never affects another. A zone is a "
              "synchronization element exactly while a non-zero extension is assigned to it, the elements are counted, two different zones one of which is an element are "
              "clocked in both directions, all other pairs as in the wrapped layout, and enumerations and in- and out-degrees agree with that. "
              "A tile-based layout's tiles are the coordinates of the layout it wraps; clones of synchronized layouts are independent.",
    forall="all sequences of three markings or assignments and one clearing at arbitrary positions in layouts of any size; every value of synchronization elements",
    why="path finding and routing trust these answers when they search for legal connections",
    files=[A, B, D],
    mechanism=["is_obstructed_coordinate / is_obstructed_connection @ " + A + ":110-165", "is_incoming_clocked / is_outgoing_clocked @ " + B + ":190-225", "tiles @ " + D + ":60-105"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic positions",
    note="phmap's sets and mockturtle's interfaces are replaced by stand-ins of the same interface.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS]
PRE = """#include <hashtable1.inc>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdint>
#include <utility>
#include <vector>
using namespace fiction;
using I = int64_t;
using C = offset::ucoord_t;
using CA = cartesian_layout<C>; using CL = clocked_layout<CA>; using GL = gate_level_layout<CL>; using QL = cell_level_layout<qca_technology, CL>; using SL = synchronization_element_layout<CL>;
static bool where(int e, int x, int y, int u, int v, C* o) { const int d = e % 5, f = e / 5; o[0] = C{x, y, 0}; o[1] = d == 0 ? o[0] : d == 1 ? C{x + 1 + u, y, 0} : d == 2 ? C{u, y + 1 + v, 0} : d == 3 ? C{x, y, 1} : C{x, y + 1 + v, 1}; o[2] = f == 0 ? o[0] : f == 1 ? o[1] : C{u, y + (1 << 28) + v, f & 1}; return f < 4; }
template <class V> static bool holds(const V& v, const C& c) { for (const auto& t : v) { if (t == c) { return true; } } return false; }
template <class V> static bool same(const V& a, const std::vector<C>& b) { if (a.size() != b.size()) { return false; } for (std::size_t i = 0; i < b.size(); ++i) { if (!(a[i] == b[i])) { return false; } } return true; }
"""


def run(c):
    w = Wit(c, "c31", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    M = 1 << 28
    R = {k: (0, M - 2) for k in "xyuv"} | {"e0": (0, 19)}
    S = "int e0, int m0, int x, int y, int u, int v"
    CONC = "int e = 0; while (e < e0) { ++e; } int m = 0; while (m < m0) { ++m; } C o[3]; if (!where(e, x, y, u, v, o)) { return true; } "
    # m: which of the three are marked (bits 0-2) and which one is cleared afterwards (bits 3-4)
    CLR = "for (int i = 0; i < 3; ++i) { if ((m >> i) & 1) { %s } } const int z = m >> 3; "
    w.ob("coordinates", S, CONC + "obstruction_layout<CL> l{CL{C{1 << 30, 1 << 30, 1}}}; bool f[3]{}; " + CLR % "l.obstruct_coordinate(o[i]); for (int j = 0; j < 3; ++j) { f[j] = f[j] || o[j] == o[i]; }"
         + "if (z < 3) { l.clear_obstructed_coordinate(o[z]); for (int j = 0; j < 3; ++j) { f[j] = f[j] && !(o[j] == o[z]); } } for (int j = 0; j < 3; ++j) { if (l.is_obstructed_coordinate(o[j]) != f[j] || l.is_obstructed_connection(o[j], o[0])) { return false; } }"
         " l.clear_obstructed_coordinates(); for (int j = 0; j < 3; ++j) { if (l.is_obstructed_coordinate(o[j])) { return false; } } return true;", R | {"m0": (0, 31)}, "obstructed-coordinates", anchor=A, limit=150)
    w.ob("connections", S, CONC + "obstruction_layout<CL> l{CL{C{1 << 30, 1 << 30, 1}}}; const std::pair<C, C> p[3] = {{o[0], o[1]}, {o[1], o[0]}, {o[1], o[2]}}; bool f[3]{}; "
         + CLR % "l.obstruct_connection(p[i].first, p[i].second); for (int j = 0; j < 3; ++j) { f[j] = f[j] || p[j] == p[i]; }"
         + "if (z < 3) { l.clear_obstructed_connection(p[z].first, p[z].second); for (int j = 0; j < 3; ++j) { f[j] = f[j] && !(p[j] == p[z]); } } for (int j = 0; j < 3; ++j) { if (l.is_obstructed_connection(p[j].first, p[j].second) != f[j] || l.is_obstructed_coordinate(o[j])) { return false; } }"
         " l.clear_obstructed_connections(); for (int j = 0; j < 3; ++j) { if (l.is_obstructed_connection(p[j].first, p[j].second)) { return false; } } return true;", R | {"m0": (0, 31)}, "obstructed-connections", anchor=A, limit=150)
    w.ob("gates", "int m0, int x, int y, int z", "int m = 0; while (m < m0) { ++m; } x = 4 * x + 1; y = 4 * y + 1; const C p{x, y, z}, q{x + 1, y, z}, r{x, y + 1, z}, t{x + 1, y + 1, z}; GL g{C{1 << 30, 1 << 30, 1}, twoddwave_clocking<CL>()}; g.create_pi(\"a\", p); "
         "if (m & 1) { g.create_buf(static_cast<GL::signal>(p), q); } if (m & 2) { g.create_buf(static_cast<GL::signal>(p), r); } obstruction_layout l{g}; if (m & 4) { l.obstruct_coordinate(t); l.obstruct_connection(q, t); } "
         "return l.is_obstructed_coordinate(p) && l.is_obstructed_coordinate(q) == ((m & 1) != 0) && l.is_obstructed_coordinate(r) == ((m & 2) != 0) && l.is_obstructed_coordinate(t) == ((m & 4) != 0) && l.is_obstructed_connection(p, q) == ((m & 1) != 0) && "
         "l.is_obstructed_connection(p, r) == ((m & 2) != 0) && !l.is_obstructed_connection(q, p) && !l.is_obstructed_connection(r, p) && l.is_obstructed_connection(q, t) == ((m & 4) != 0) && !l.is_obstructed_connection(r, t) && !l.is_obstructed_connection(t, q);",
         {"m0": (0, 7), "x": (0, M // 4), "y": (0, M // 4), "z": (0, 1)}, "wrapped-layout", anchor=A)
    w.ob("cells", S, CONC + "QL q{C{1 << 30, 1 << 30, 1}}; if (m & 1) { q.assign_cell_type(o[0], qca_technology::cell_type::NORMAL); } obstruction_layout<QL> l{q}; if (m & 2) { l.obstruct_coordinate(o[1]); } if (m & 4) { l.assign_cell_type(o[2], qca_technology::cell_type::INPUT); } "
         "if (m & 8) { l.clear_obstructed_coordinate(o[0]); } for (int j = 0; j < 3; ++j) { const bool f = ((m & 1) && o[j] == o[0]) || ((m & 2) && o[j] == o[1] && !((m & 8) && o[0] == o[1])) || ((m & 4) && o[j] == o[2]); "
         "if (l.is_obstructed_coordinate(o[j]) != f) { return false; } } return !l.is_obstructed_connection(o[0], o[1]);", R | {"m0": (0, 15)}, "wrapped-layout", anchor=A, limit=150)
    # synchronization elements
    w.ob("elements", "int e0, int k, int x, int y, int u, int v, unsigned char a, unsigned char b, unsigned char d", "int e = 0; while (e < e0) { ++e; } C o[3]; if (!where(e, x, y, u, v, o)) { return true; } SL l{C{1 << 30, 1 << 30, 1}}; if (l.is_synchronization_element(o[0]) || l.num_se() != 0) { return false; } "
         "const unsigned char s[3] = {a, b, d}; for (int i = 0; i < 3; ++i) { l.assign_synchronization_element(o[i], s[i]); } const SL k0 = l.clone(); const unsigned char f2 = d, f1 = o[1] == o[2] ? d : b, f0 = o[0] == o[2] ? d : o[0] == o[1] ? b : a; "
         "uint32_t n = (f2 ? 1 : 0) + (f1 && !(o[1] == o[2]) ? 1 : 0) + (f0 && !(o[0] == o[1]) && !(o[0] == o[2]) ? 1 : 0); const unsigned char f[3] = {f0, f1, f2}; "
         "for (int i = 0; i < 3; ++i) { if (l.get_synchronization_element(o[i]) != f[i] || l.is_synchronization_element(o[i]) != (f[i] != 0)) { return false; } } if (l.num_se() != n) { return false; } l.assign_synchronization_element(o[0], 9); l.assign_synchronization_element(o[2], 0); "
         "for (int i = 0; i < 3; ++i) { if (k0.get_synchronization_element(o[i]) != f[i]) { return false; } } return k0.num_se() == n;", R | {"k": (0, 0)}, "synchronization-elements", anchor=B, limit=150)
    for sch, f in (("twoddwave_clocking<CL>()", "(X + Y) % 4"), ("row_clocking<CL>()", "Y % 4"), ("use_clocking<CL>()", "")):
        nm = sch.split("_")[0]
        w.ob(f"clocked_{nm}", "int m0, int k, int l0", f"int m = 0; while (m < m0) {{ ++m; }} const int x = 4 * k + 5, y = 4 * l0 + 6; const CL b{{C{{1 << 30, 1 << 30, 0}}, {sch}}}; SL l{{b}}; const C t{{x, y}}, nb[4] = {{C{{x, y - 1}}, C{{x + 1, y}}, C{{x, y + 1}}, C{{x - 1, y}}}}, far{{x + 3, y + 2}}; "
             "bool s[5]; for (int i = 0; i < 4; ++i) { s[i] = (m >> i) & 1; if (s[i]) { l.assign_synchronization_element(nb[i], static_cast<uint8_t>(i + 1)); } } s[4] = (m >> 4) & 1; if (s[4]) { l.assign_synchronization_element(t, 7); } "
             "const auto in = l.incoming_clocked_zones(t); const auto out = l.outgoing_clocked_zones(t); std::size_t ni = 0, no = 0; for (int i = 0; i < 4; ++i) { const bool ei = b.is_incoming_clocked(t, nb[i]) || s[i] || s[4], eo = b.is_outgoing_clocked(t, nb[i]) || s[i] || s[4]; "
             "if (l.is_incoming_clocked(t, nb[i]) != ei || l.is_outgoing_clocked(t, nb[i]) != eo || holds(in, nb[i]) != ei || holds(out, nb[i]) != eo) { return false; } ni += ei; no += eo; } if (in.size() != ni || out.size() != no || l.in_degree(t) != ni || l.out_degree(t) != no) { return false; } "
             "return !l.is_incoming_clocked(t, t) && !l.is_outgoing_clocked(t, t) && l.is_incoming_clocked(t, far) == (b.is_incoming_clocked(t, far) || s[4]) && l.is_outgoing_clocked(far, t) == (b.is_outgoing_clocked(far, t) || s[4]) && l.get_clock_number(t) == b.get_clock_number(t);",
             {"m0": (0, 31), "k": (0, M // 4), "l0": (0, M // 4)}, "synchronized-clocking", anchor=B)
    # tiles
    w.ob("adjacent", "int w, int h, int x, int y, int z", "if (x > w || y > h) { return true; } using T = tile_based_layout<CA>; const CA b{C{w, h, 1}}; const T l{C{w, h, 1}}; const T n{b}; const T k = l.clone(); const C t{x, y, z}; std::vector<C> s{}; l.foreach_adjacent_tile(t, [&s](const C& a) { s.push_back(a); }); "
         "const auto p = l.adjacent_opposite_tiles(t); const auto q = b.adjacent_opposite_coordinates(t); if (p.size() != q.size()) { return false; } for (std::size_t i = 0; i < p.size(); ++i) { if (!(p[i] == q[i])) { return false; } } std::vector<std::pair<C, C>> o{}; l.foreach_adjacent_opposite_tiles(t, [&o](const auto& a) { o.push_back(a); }); "
         "if (o.size() != q.size()) { return false; } for (std::size_t i = 0; i < o.size(); ++i) { if (!(o[i] == q[i])) { return false; } } const auto a = b.adjacent_coordinates(t); return same(l.adjacent_tiles(t), std::vector<C>{a.begin(), a.end()}) && same(s, std::vector<C>{a.begin(), a.end()}) && k.x() == static_cast<unsigned>(w) && n.y() == static_cast<unsigned>(h);",
         {"w": (0, M), "h": (0, M), "x": (0, M), "y": (0, M), "z": (0, 1)}, "tiles", anchor=D)
    for W, H, Z in ((0, 0, 0), (1, 2, 1), (2, 1, 0), (2, 1, 1)):
        w.ob(f"tiles_{W}{H}{Z}", "int k", f"using T = tile_based_layout<CA>; const CA b{{C{{{W}, {H}, {Z}}}}}; const T l{{C{{{W}, {H}, {Z}}}}}; std::vector<C> e{{}}, g{{}}, f{{}}, r{{}}; const C lo{{{W} / 2, 0, 0}}, hi{{{W}, {H}, {Z}}}; "
             "b.foreach_coordinate([&e](const C& t) { e.push_back(t); }); b.foreach_ground_coordinate([&g](const C& t) { g.push_back(t); }); l.foreach_tile([&f](const C& t) { f.push_back(t); }); l.foreach_ground_tile([&r](const C& t) { r.push_back(t); }); if (!same(f, e) || !same(r, g)) { return false; } "
             "std::size_t i = 0; for (const auto& t : l.tiles()) { if (i >= e.size() || !(t == e[i])) { return false; } ++i; } if (i != e.size()) { return false; } i = 0; for (const auto& t : l.ground_tiles()) { if (i >= g.size() || !(t == g[i])) { return false; } ++i; } if (i != g.size()) { return false; } "
             "e.clear(); f.clear(); b.foreach_coordinate([&e](const C& t) { e.push_back(t); }, lo, hi); l.foreach_tile([&f](const C& t) { f.push_back(t); }, lo, hi); if (!same(f, e)) { return false; } i = 0; for (const auto& t : l.tiles(lo, hi)) { if (i >= e.size() || !(t == e[i])) { return false; } ++i; } "
             "return i == e.size();", {"k": (0, 0)}, "tiles", anchor=D)
    w.run()
