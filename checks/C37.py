"""C37: path finding: A*, all paths, k shortest paths."""
import os
import vf
from vf import Wit

A = "include/fiction/algorithms/path_finding/a_star.hpp"
E = "include/fiction/algorithms/path_finding/enumerate_all_paths.hpp"
K = "include/fiction/algorithms/path_finding/k_shortest_paths.hpp"
META = dict(
    title="Path finding returns shortest, all, and the k shortest unobstructed paths",
    statement="A* returns a path exactly if one exists; it starts at the source, ends at the target, steps along adjacent coordinates (along the clocking in clocked layouts), avoids obstructed coordinates and connections "
              "(the target itself may be obstructed), and costs no more than any other path under the given cost function. The A* distance is the number of its steps, and the largest value if there is no path. "
              "The enumeration returns every loop-free path exactly once. The k shortest paths are k different loop-free paths (all of them if there are fewer), in ascending order, none longer than one left out. "
              "With crossings enabled, a path may pass an occupied tile only above a wire that it crosses. No call changes the obstructions of the layout given to it.",
    forall="all obstructions, sources and targets of small grids (2 x 3; 3 x 3 with some), unclocked and in two clocking schemes; obstructed connections; step costs",
    why="a path that is longer than necessary, or a missing alternative, still gives a valid layout; it takes particular obstructions to see it",
    files=[A, E, K, "include/fiction/utils/routing_utils.hpp", "include/fiction/layouts/obstruction_layout.hpp"],
    mechanism=["a_star_impl::run, expand @ " + A + ":63-330", "enumerate_all_paths_impl @ " + E + ":45-190", "yen_k_shortest_paths_impl::run @ " + K + ":62-170", "reset_temporary_obstructions @ " + K + ":225"],
    technique="abstract interpretation of LLVM IR over witness units with a reference search",
    note="Grids of up to nine tiles, one of sixteen; phmap's maps and sets are replaced by stand-ins, mockturtle's storage by the interface's. Heuristics are the admissible Manhattan distance.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini")]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <cstdint>
#include <limits>
#include <vector>
using namespace fiction;
using C = offset::ucoord_t; using CL = cartesian_layout<C>; using KL = clocked_layout<CL>; using GL = gate_level_layout<KL>;
using OC = obstruction_layout<CL>; using OK = obstruction_layout<KL>;
template <class L> using PT = layout_coordinate_path<L>;
// reference: what the grid is
struct G
{
    int w, h; unsigned m; int clk;  // mask of obstructed coordinates; 0 no clocking, 1 2DDWave, 2 USE
    int bs, bt;                     // obstructed connection, if any
    static int use(int x, int y) { static const int u[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}}; return u[y & 3][x & 3]; }
    int zone(int i) const { return clk == 1 ? (i % w + i / w) & 3 : use(i % w, i / w); }
    bool step(int a, int b, int t) const
    {
        const int dx = a % w - b % w, dy = a / w - b / w;
        if (dx * dx + dy * dy != 1) { return false; }
        if (clk != 0 && zone(b) != ((zone(a) + 1) & 3)) { return false; }
        if (((m >> b) & 1) != 0 && b != t) { return false; }
        return !(a == bs && b == bt);
    }
    int n() const { return w * h; }
    C at(int i) const { return C{static_cast<uint32_t>(i % w), static_cast<uint32_t>(i / w)}; }
    int id(const C& c) const { return c.z != 0 || static_cast<int>(c.x) >= w || static_cast<int>(c.y) >= h ? -1 : static_cast<int>(c.y) * w + static_cast<int>(c.x); }
};
static int one(int, int) { return 1; }
// cheapest cost from s to t, or -1
static int best(const G& g, int s, int t, int (*c)(int, int) = one)
{
    int d[16]; for (int i = 0; i < g.n(); ++i) { d[i] = -1; } d[s] = 0;
    for (bool ch = true; ch;) { ch = false; for (int a = 0; a < g.n(); ++a) { if (d[a] < 0 || a == t) { continue; } const int nb[4] = {a - 1, a + 1, a - g.w, a + g.w};
      for (const int b : nb) { if (b >= 0 && b < g.n() && g.step(a, b, t) && (d[b] < 0 || d[a] + c(a, b) < d[b])) { d[b] = d[a] + c(a, b); ch = true; } } } }
    return d[t];
}
// number of loop-free paths by length, depth first
static void all(const G& g, int a, int t, unsigned v, int len, int* cnt)
{
    if (a == t) { ++cnt[len]; return; }
    const int nb[4] = {a - 1, a + 1, a - g.w, a + g.w};
    for (const int b : nb) { if (b >= 0 && b < g.n() && ((v >> b) & 1) == 0 && g.step(a, b, t)) { all(g, b, t, v | 1u << b, len + 1, cnt); } }
}
// is p a loop-free path of g?
template <class P> static bool path(const G& g, const P& p, int s, int t)
{
    if (p.empty() || g.id(p.front()) != s || g.id(p.back()) != t) { return false; }
    unsigned v = 1u << s;
    for (std::size_t i = 1; i < p.size(); ++i) { const int a = g.id(p[i - 1]), b = g.id(p[i]); if (b < 0 || ((v >> b) & 1) != 0 || !g.step(a, b, t)) { return false; } v |= 1u << b; }
    return true;
}
template <class P> static bool same(const P& p, const P& q) { if (p.size() != q.size()) { return false; } for (std::size_t i = 0; i < p.size(); ++i) { if (!(p[i] == q[i])) { return false; } } return true; }
template <class L> static L mk(const G& g)
{
    const C e{static_cast<uint32_t>(g.w - 1), static_cast<uint32_t>(g.h - 1)};
    L l = [&] { if constexpr (std::is_same_v<L, OK>) { return L{g.clk == 1 ? KL{e, twoddwave_clocking<KL>()} : KL{e, use_clocking<KL>()}}; } else { return L{CL{e}}; } }();
    for (int i = 0; i < g.n(); ++i) { if ((g.m >> i) & 1) { l.obstruct_coordinate(g.at(i)); } }
    if (g.bs >= 0) { l.obstruct_connection(g.at(g.bs), g.at(g.bt)); }
    return l;
}
template <class L> static bool kept(const L& l, const G& g)
{
    for (int a = 0; a < g.n(); ++a) { if (l.is_obstructed_coordinate(g.at(a)) != (((g.m >> a) & 1) != 0)) { return false; }
      const int nb[4] = {a - 1, a + 1, a - g.w, a + g.w}; for (const int b : nb) { if (b >= 0 && b < g.n() && l.is_obstructed_connection(g.at(a), g.at(b)) != (a == g.bs && b == g.bt)) { return false; } } }
    return true;
}
template <class L> static bool astar(const G& g, int s, int t)
{
    const L l = mk<L>(g); const int d = best(g, s, t);
    const auto p = a_star<PT<L>>(l, {g.at(s), g.at(t)});
    if (d < 0 ? !p.empty() : !path(g, p, s, t) || static_cast<int>(p.size()) != d + 1) { return false; }
    return a_star_distance<L>(l, g.at(s), g.at(t)) == (d < 0 ? std::numeric_limits<uint64_t>::max() : static_cast<uint64_t>(d)) && kept(l, g);
}
template <class L> static bool enumerated(const G& g, int s, int t)
{
    const L l = mk<L>(g); int cnt[16]; for (int& i : cnt) { i = 0; } all(g, s, t, 1u << s, 0, cnt);
    const auto y = enumerate_all_paths<PT<L>>(l, {g.at(s), g.at(t)});
    for (std::size_t i = 0; i < y.size(); ++i) { if (!path(g, y[i], s, t)) { return false; } --cnt[y[i].size() - 1]; for (std::size_t j = 0; j < i; ++j) { if (same(y[i], y[j])) { return false; } } }
    for (const int i : cnt) { if (i != 0) { return false; } }
    return kept(l, g);
}
template <class L> static bool yen(const G& g, int s, int t, int k)
{
    const L l = mk<L>(g); int cnt[16]; for (int& i : cnt) { i = 0; } all(g, s, t, 1u << s, 0, cnt);
    const auto y = yen_k_shortest_paths<PT<L>>(l, {g.at(s), g.at(t)}, static_cast<uint32_t>(k));
    int len = 0, i = 0;
    for (; len < 16; ++len) { for (int c = 0; c < cnt[len] && i < k; ++c, ++i) { if (static_cast<std::size_t>(i) >= y.size() || static_cast<int>(y[i].size()) != len + 1 || !path(g, y[i], s, t)) { return false; } for (int j = 0; j < i; ++j) { if (same(y[i], y[j])) { return false; } } } }
    return y.size() == static_cast<std::size_t>(i) && kept(l, g);
}
template <class P> static int cost_of(const G& g, const P& p, int (*c)(int, int)) { int z = 0; for (std::size_t i = 1; i < p.size(); ++i) { z += c(g.id(p[i - 1]), g.id(p[i])); } return z; }
template <class L> static bool costly(const G& g, int s, int t, int (*c)(int, int))
{
    const L l = mk<L>(g); const int d = best(g, s, t, c);
    const auto p = a_star<PT<L>>(l, {g.at(s), g.at(t)}, manhattan_distance_functor<L, uint64_t>(), cost_functor<L, uint64_t>([&](const C& a, const C& b) -> uint64_t { return c(g.id(a), g.id(b)); }));
    return d < 0 ? p.empty() : path(g, p, s, t) && cost_of(g, p, c) == d;
}
"""


def run(c):
    w = Wit(c, "c37", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    cf = lambda *ks: "".join(f"int {k} = 0; while ({k} < {k}0) {{ ++{k}; }} " for k in ks)
    # all masks of the 3 x 2 grid, one obstructed connection
    for s in (0, 1):
        w.ob(f"astar_open_{s}", "int m0, int t0", cf("m", "t") + f"return astar<OC>(G{{3, 2, unsigned(m), 0, -1, -1}}, {s}, t);", {"m0": (0, 63), "t0": (0, 5)}, "A*", limit=900)
    w.ob("astar_tall", "int m0, int s0", cf("m", "s") + "return astar<OC>(G{2, 4, unsigned(m * 5), 0, -1, -1}, s, 7 - s);", {"m0": (0, 50), "s0": (0, 7)}, "A*", limit=900)
    w.ob("astar_connection", "int m0, int a0, int d0", cf("m", "a", "d") + "const int b = a + (d == 0 ? -1 : d == 1 ? 1 : d == 2 ? -3 : 3); if (b < 0 || b > 8) { return true; } return astar<OC>(G{3, 3, unsigned(m * 37 & 495), 0, a, b}, 0, 8) && astar<OC>(G{3, 3, unsigned(m * 37 & 495), 0, a, b}, 7, 1);", {"m0": (0, 7), "a0": (0, 8), "d0": (0, 3)}, "A*", limit=900)
    for nm, k in (("twoddwave", 1), ("use", 2)):
        w.ob("astar_" + nm, "int m0, int t0", cf("m", "t") + f"return astar<OK>(G{{3, 3, unsigned(m * 73 & 511), {k}, -1, -1}}, {0 if k == 1 else 4}, t) && astar<OK>(G{{3, 3, unsigned(m * 73 & 511), {k}, -1, -1}}, 8 - t, {8 if k == 1 else 2});", {"m0": (0, 31), "t0": (0, 8)}, "A*", limit=900)
    # all paths
    w.ob("enum_open", "int m0, int t0", cf("m", "t") + "return enumerated<OC>(G{3, 2, unsigned(m), 0, -1, -1}, 0, t);", {"m0": (0, 63), "t0": (0, 5)}, "all-paths", limit=900)
    w.ob("enum_square", "int s0, int t0", cf("s", "t") + "return enumerated<OC>(G{3, 3, 0, 0, -1, -1}, s, t);", {"s0": (0, 1), "t0": (0, 8)}, "all-paths", limit=900)
    w.ob("enum_connection", "int a0, int d0, int t0", cf("a", "d", "t") + "const int b = a + (d == 0 ? -1 : d == 1 ? 1 : d == 2 ? -3 : 3); if (b < 0 || b > 5) { return true; } return enumerated<OC>(G{3, 2, 0, 0, a, b}, 0, t);", {"a0": (0, 5), "d0": (0, 3), "t0": (0, 5)}, "all-paths", limit=900)
    for nm, k in (("twoddwave", 1), ("use", 2)):
        w.ob("enum_" + nm, "int m0, int t0", cf("m", "t") + f"return enumerated<OK>(G{{3, 3, unsigned(m * 73 & 511), {k}, -1, -1}}, {0 if k == 1 else 4}, t) && enumerated<OK>(G{{3, 3, unsigned(m * 73 & 511), {k}, -1, -1}}, 8 - t, {8 if k == 1 else 2});", {"m0": (0, 31), "t0": (0, 8)}, "all-paths", limit=900)
    # k shortest paths
    w.ob("yen_open", "int m0, int t0", cf("m", "t") + "return yen<OC>(G{3, 2, unsigned(m), 0, -1, -1}, 0, t, 3);", {"m0": (0, 63), "t0": (0, 5)}, "k-shortest", limit=900)
    w.ob("yen_middle", "int m0, int k0", cf("m", "k") + "return yen<OC>(G{3, 2, unsigned(m), 0, -1, -1}, 4, 0, k);", {"m0": (0, 63), "k0": (1, 4)}, "k-shortest", limit=900)
    for nm, s, t in (("corner", 0, 8), ("centre", 4, 3), ("edge", 1, 7)):
        w.ob("yen_square_" + nm, "int k0", cf("k") + f"return yen<OC>(G{{3, 3, 0, 0, -1, -1}}, {s}, {t}, k);", {"k0": (1, 6)}, "k-shortest", limit=900)
    w.ob("yen_square", "int t0", cf("t") + "return yen<OC>(G{3, 3, 0, 0, -1, -1}, 8, t, 20);" if c.thorough else cf("t") + "return yen<OC>(G{3, 3, 0, 0, -1, -1}, 8, t, 5);", {"t0": (0, 8)}, "k-shortest", limit=900)
    w.ob("yen_connection", "int a0, int d0", cf("a", "d") + "const int b = a + (d == 0 ? -1 : d == 1 ? 1 : d == 2 ? -3 : 3); if (b < 0 || b > 8) { return true; } return yen<OC>(G{3, 3, 18, 0, a, b}, 0, 2, 4) && yen<OC>(G{3, 3, 1, 0, a, b}, 0, 5, 3);", {"a0": (0, 8), "d0": (0, 3)}, "k-shortest", limit=900)
    for nm, k in (("twoddwave", 1), ("use", 2)):
        w.ob("yen_" + nm, "int m0, int t0", cf("m", "t") + f"return yen<OK>(G{{3, 3, unsigned(m * 73 & 511), {k}, -1, -1}}, {0 if k == 1 else 4}, t, 4);", {"m0": (0, 20), "t0": (0, 8)}, "k-shortest", limit=900)
    # step costs
    w.ob("cost_square", "int q0, int t0", cf("q", "t") + "static int q_; q_ = q; return costly<OC>(G{3, 3, unsigned(q * 13 & 164), 0, -1, -1}, 0, t, +[](int a, int b) -> int { return 1 + static_cast<int>(((a * 7919u + b * 104729u + q_ * 31u) >> 3) % 9u); });", {"q0": (0, 20), "t0": (0, 8)}, "costs", limit=900)
    w.ob("cost_heap", "int q0", cf("q") + "static const unsigned its[3] = {95355u, 367005u, 2144445u}; static unsigned q_; q_ = its[q]; return costly<OC>(G{4, 4, q == 0 ? 128u : 0u, 0, -1, -1}, q == 0 ? 6 : 8, q == 0 ? 8 : 2, +[](int a, int b) -> int { return 1 + static_cast<int>(((a * 7919u + b * 104729u + q_ * 31u) >> 3) % 30u); });", {"q0": (0, 2)}, "costs", limit=60)
    # crossings
    CR = ("obstruction_layout<GL> l{GL{KL{C{3, 3, 1}, twoddwave_clocking<KL>()}}}; using P = PT<obstruction_layout<GL>>; const auto sg = [](const C& c) { return static_cast<GL::signal>(c); }; "
          "const auto get = [&](const C& a, const C& b, bool x) { return a_star<P>(l, {a, b}, manhattan_distance_functor<obstruction_layout<GL>, uint64_t>(), unit_cost_functor<obstruction_layout<GL>, uint8_t>(), a_star_params{x}); }; "
          "const auto every = [&](const C& a, const C& b, bool x) { enumerate_all_paths_params p{}; p.crossings = x; return enumerate_all_paths<P>(l, {a, b}, p); }; "
          "const auto kth = [&](const C& a, const C& b, bool x) { yen_k_shortest_paths_params p{}; p.astar_params.crossings = x; return yen_k_shortest_paths<P>(l, {a, b}, 9, p); }; (void)sg; (void)get; (void)every; (void)kth; ")
    COL = "l.create_pi(\"a\", C{1, 0}); l.create_buf(sg(C{1, 0}), C{1, 1}); l.create_buf(sg(C{1, 1}), C{1, 2}); l.create_po(sg(C{1, 2}), \"o\", C{1, 3}); "
    w.ob("cross_once", "int a0, int b0", cf("a", "b") + CR + COL + "const C s{0, uint32_t(a)}, t{2, uint32_t(b)}; int n = 0; for (int y = 1; y <= 2; ++y) { n += a <= y && y <= b; } const auto p = get(s, t, true); const auto v = every(s, t, true); const auto z = kth(s, t, true); if (!get(s, t, false).empty() || !every(s, t, false).empty() || !kth(s, t, false).empty() || v.size() != unsigned(n) || z.size() != unsigned(n)) { return false; } "
         "const auto ok = [&](const P& q) { unsigned k = 0; int y = a; while (k < q.size() && q[k] == C{0, uint32_t(y)}) { ++k; ++y; } --y; if (y < 1 || y > 2 || k >= q.size() || !(q[k] == C{1, uint32_t(y), 1})) { return false; } ++k; for (; y <= b; ++y, ++k) { if (k >= q.size() || !(q[k] == C{2, uint32_t(y)})) { return false; } } return k == q.size(); }; "
         "for (const auto& q : v) { if (!ok(q)) { return false; } } for (const auto& q : z) { if (!ok(q)) { return false; } } for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { if (same(v[i], v[j]) || same(z[i], z[j])) { return false; } } } return n == 0 ? p.empty() : ok(p);", {"a0": (0, 3), "b0": (0, 3)}, "crossings", limit=900)
    w.ob("cross_occupied", "int y0, int k0", cf("y", "k") + CR + COL + "if (k == 0) { l.obstruct_coordinate(C{1, uint32_t(y), 1}); } else if (k == 1) { l.create_buf(sg(C{0, uint32_t(y)}), C{1, uint32_t(y), 1}); } else { l.obstruct_connection(C{0, uint32_t(y)}, C{1, uint32_t(y), 1}); } const C s{0, 0}, t{2, 3}; const auto p = get(s, t, true); const auto v = every(s, t, true); const uint32_t o = y == 1 ? 2 : 1; "
         "bool there = false; for (const auto& c : p) { there = there || c == C{1, o, 1}; } return there && v.size() == 1 && same(v[0], p);", {"y0": (1, 2), "k0": (0, 2)}, "crossings", limit=60)
    w.ob("cross_dangling", "int y0", cf("y") + CR + "for (int i = 0; i < 4; ++i) { l.create_buf(i == y && i > 0 ? sg(C{1, uint32_t(i - 1)}) : GL::signal{}, C{1, uint32_t(i)}); } const C s{0, 0}, t{2, 3}; return get(s, t, true).empty() && every(s, t, true).empty();", {"y0": (0, 0)}, "crossings", limit=60)
    w.ob("cross_gate", "int y0", cf("y") + CR + COL + "l.create_not(sg(C{1, uint32_t(y - 1)}), C{1, uint32_t(y)}); const C s{0, 0}, t{2, 3}; const auto v = every(s, t, true); for (const auto& q : v) { for (const auto& c : q) { if (c == C{1, uint32_t(y), 1}) { return false; } } } return true;", {"y0": (1, 2)}, "crossings", limit=60)
    w.ob("cross_along", "int x0, int y0", cf("x", "y") + CR + "l.create_pi(\"a\", C{0, 1}); l.create_buf(sg(C{0, 1}), C{1, 1}); l.create_buf(sg(C{1, 1}), C{2, 1}); l.create_po(sg(C{2, 1}), \"o\", C{3, 1}); const C s{uint32_t(x), 0}, t{uint32_t(y), 3}; const auto v = every(s, t, true); int n = 0; for (int c = 1; c <= 2; ++c) { if (x <= c && c <= y) { n += y - c + 1; } } if (v.size() != unsigned(n)) { return false; } "
         "for (const auto& q : v) { int up = 0; for (const auto& c : q) { up += c.z == 1; } if (up != 1) { return false; } } const auto p = get(s, t, true); if (n == 0) { return p.empty(); } int up = 0; for (const auto& c : p) { up += c.z == 1; } return up == 1 && p.size() == unsigned(y - x + 4);", {"x0": (0, 3), "y0": (0, 3)}, "crossings", limit=60)
    w.ob("cross_double", "int y0", cf("y") + CR + COL + "l.create_pi(\"b\", C{2, 0}); l.create_buf(sg(C{2, 0}), C{2, 1}); l.create_buf(sg(C{2, 1}), C{2, 2}); l.create_po(sg(C{2, 2}), \"p\", C{2, 3}); const C s{0, uint32_t(y)}, t{3, uint32_t(y)}; const auto p = get(s, t, true); P q{}; q.append(s); q.append(C{1, uint32_t(y), 1}); q.append(C{2, uint32_t(y), 1}); q.append(t); return (y == 1 || y == 2) ? same(p, q) && every(s, t, true).size() == 1 : p.empty() && every(s, t, true).empty();", {"y0": (0, 3)}, "crossings", limit=60)
    # routing along paths
    w.ob("route", "int a0, int b0", cf("a", "b") + CR + COL + "const C s{0, uint32_t(a)}, t{3, uint32_t(b)}; const auto i = l.create_pi(\"b\", s); const auto g = l.create_not(GL::signal{}, t); l.move_node(l.get_node(t), t); (void)g; const uint32_t w0 = l.num_wires(); const auto p = get(s, t, true); if (p.empty()) { return b < a || b < 1 || a > 2; } route_path(l, p); if (l.num_wires() != w0 + p.size() - 2) { return false; } "
         "GL::node n = l.get_node(t); for (unsigned k = p.size() - 1; k-- > 0;) { C f{}; int m = 0; l.foreach_fanin(n, [&](const auto& x) { f = static_cast<C>(x); ++m; }); if (m != 1 || !(f == p[k])) { return false; } n = l.get_node(f); } return n == l.get_node(i) && l.num_crossings() == 1;", {"a0": (0, 3), "b0": (0, 3)}, "routing", limit=60)
    w.ob("route_above", "int y0", cf("y") + CR + COL + "const C s{0, uint32_t(y)}, t{2, uint32_t(y)}; l.create_pi(\"b\", s); l.create_not(GL::signal{}, t); l.move_node(l.get_node(t), t); P p{}; p.append(s); p.append(C{1, uint32_t(y)}); p.append(t); route_path(l, p); C f{}; l.foreach_fanin(l.get_node(t), [&](const auto& x) { f = static_cast<C>(x); }); return f == C{1, uint32_t(y), 1} && !l.is_empty_tile(f) && l.is_incoming_signal(f, sg(s)) && l.num_crossings() == 1;", {"y0": (1, 2)}, "routing", limit=60)
    NET = ("GL l{KL{C{3, 3, 1}, twoddwave_clocking<KL>()}}; const auto sg = [](const C& c) { return static_cast<GL::signal>(c); }; "
           "const auto i = l.create_pi(\"a\", C{0, 0}); const C ft{1, 1}, g1{3, 1}, g2{1, 3}; const auto mkf = [&] { l.create_buf(i, C{1, 0}); l.create_buf(sg(C{1, 0}), ft); }; const auto mkg = [&] { l.create_not(i, g1); l.create_not(i, g2); }; if (o & 1) { mkf(); mkg(); } else { mkg(); mkf(); } "
           "if (o & 2) { l.create_buf(sg(ft), C{2, 1}); l.create_buf(sg(ft), C{1, 2}); l.move_node(l.get_node(g1), g1, {sg(C{2, 1})}); l.move_node(l.get_node(g2), g2, {sg(C{1, 2})}); } else { l.move_node(l.get_node(g1), C{2, 1}, {sg(ft)}); l.move_node(l.get_node(g2), C{1, 2}, {sg(ft)}); } const C h1 = (o & 2) ? g1 : C{2, 1}, h2 = (o & 2) ? g2 : C{1, 2}; "
           "if ((o & 6) == 6) { return true; } if (o & 4) { l.create_and(sg(h1), sg(h2), C{2, 2, 0}); } else { l.create_po(sg(h1), \"o\", C{h1.x, h1.y + 1}); } ")
    w.ob("objectives", "int o0", cf("o") + NET + "const auto r = extract_routing_objectives(l); const C po{h1.x, h1.y + 1}, an{2, 2, 0}; unsigned n = 0; const auto has = [&](const C& a, const C& b) { unsigned k = 0; for (const auto& x : r) { k += x.source == a && x.target == b; } n += 1; return k == 1; }; bool ok = has(C{0, 0}, ft) && has(ft, h1) && has(ft, h2); if (o & 4) { ok = ok && has(h1, an) && has(h2, an); } else { ok = ok && has(h1, po); } return ok && r.size() == n;", {"o0": (0, 7)}, "routing", limit=60)
    w.ob("cleared", "int o0", cf("o") + NET + "const auto pi = l.get_node(i), f = l.get_node(ft), a = l.get_node(h1), b = l.get_node(h2), z = l.get_node(o & 4 ? C{2, 2, 0} : C{h1.x, h1.y + 1}); clear_routing(l); if (l.get_node(C{0, 0}) != pi || l.get_node(ft) != f || l.get_node(h1) != a || l.get_node(h2) != b || l.get_node(o & 4 ? C{2, 2, 0} : C{h1.x, h1.y + 1}) != z) { return false; } "
         "if (!l.is_empty_tile(C{1, 0}) || ((o & 2) && (!l.is_empty_tile(C{2, 1}) || !l.is_empty_tile(C{1, 2}))) || l.num_pis() != 1 || l.num_pos() != ((o & 4) ? 0u : 1u) || l.num_gates() != ((o & 4) ? 3u : 2u) || l.num_wires() != ((o & 4) ? 2u : 3u)) { return false; } bool bare = true; for (const auto n : {pi, f, a, b, z}) { l.foreach_fanin(n, [&](const auto&) { bare = false; }); bare = bare && l.fanout_size(n) == 0; } return bare;", {"o0": (0, 7)}, "routing", limit=60)
    w.run()
