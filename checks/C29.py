"""C29: cell-level layouts."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/cell_level_layout.hpp"
META = dict(
    title="Cell-level layouts hold exactly the cells, modes and names assigned last",
    statement="A position of a cell-level layout holds the cell type, mode and name assigned to it last, and assigning the empty type removes the cell and its mode. "
              "The layout is empty, counts and enumerates cells, cells by type, inputs and outputs exactly according to the positions' current types, whatever they held before. "
              "A cell's clock number is that of the clock zone its position lies in, given the tile size, and a clone is independent of the original.",
    forall="all positions, every sequence of three assignments to arbitrary positions with every type of the technologies, all tile sizes that are powers of two, 3, 5 and 60",
    why="simulators, file writers and area statistics read these maps after arbitrary edits; tests use fixed layouts",
    files=[A],
    mechanism=["assign_cell_type @ " + A + ":190-225", "get_cells_by_type / enumeration @ " + A + ":240-275", "get_clock_number @ " + A + ":445"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic positions",
    note="phmap's maps and sets and mockturtle's iteration helpers are replaced by stand-ins of the same interface.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]
PRE = """#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <cstdint>
#include <string>
#include <vector>
using namespace fiction;
using C = offset::ucoord_t;
using CL = clocked_layout<cartesian_layout<C>>;
template <class Te> using LT = cell_level_layout<Te, CL>;
template <class Te> struct kinds;
template <> struct kinds<qca_technology> { using T = qca_technology::cell_type; static constexpr T k[6] = {T::EMPTY, T::NORMAL, T::INPUT, T::OUTPUT, T::CONST_0, T::CONST_1}; static constexpr int n = 6; };
template <> struct kinds<inml_technology> { using T = inml_technology::cell_type; static constexpr T k[6] = {T::EMPTY, T::NORMAL, T::INPUT, T::OUTPUT, T::INVERTER_MAGNET, T::FANOUT_COUPLER_MAGNET}; static constexpr int n = 6; };
template <> struct kinds<sidb_technology> { using T = sidb_technology::cell_type; static constexpr T k[6] = {T::EMPTY, T::NORMAL, T::INPUT, T::OUTPUT, T::LOGIC, T::NORMAL}; static constexpr int n = 5; };
template <class Te> struct world
{
    using T = typename Te::cell_type;
    C c[4]; T t[4]; int n = 0;
    void set(const C& p, T k) { int j = 0; for (; j < n; ++j) { if (c[j] == p) { break; } } if (j == n) { c[n++] = p; } t[j] = k; }
    int count(T k) const { int r = 0; for (int i = 0; i < n; ++i) { r += t[i] == k ? 1 : 0; } return r; }
    template <class V> bool listed(const V& v, T k) const { for (int i = 0; i < n; ++i) { int f = 0; for (const auto& p : v) { f += p == c[i] ? 1 : 0; } if (f != (t[i] == k ? 1 : 0)) { return false; } } return v.size() == static_cast<std::size_t>(count(k)); }
    bool ok(const LT<Te>& l) const
    {
        int cells = 0; uint32_t in = 0, out = 0;
        for (int i = 0; i < n; ++i)
        {
            if (l.get_cell_type(c[i]) != t[i] || l.is_empty_cell(c[i]) != (t[i] == T::EMPTY) || l.is_pi(c[i]) != (t[i] == T::INPUT) || l.is_po(c[i]) != (t[i] == T::OUTPUT)) { return false; }
            cells += t[i] != T::EMPTY ? 1 : 0;
        }
        if (l.num_cells() != static_cast<uint64_t>(cells) || l.is_empty() != (cells == 0) || l.num_pis() != static_cast<uint32_t>(count(T::INPUT)) || l.num_pos() != static_cast<uint32_t>(count(T::OUTPUT))) { return false; }
        for (int i = 0; i < kinds<Te>::n; ++i)
        {
            const T k = kinds<Te>::k[i]; if (k == T::EMPTY) { continue; }
            if (l.num_cells_of_given_type(k) != static_cast<uint64_t>(count(k)) || !listed(l.get_cells_by_type(k), k)) { return false; }
        }
        std::vector<C> all{}, pi{}, po{}; l.foreach_cell([&all](const C& p) { all.push_back(p); }); l.foreach_pi([&pi](const C& p) { pi.push_back(p); }); l.foreach_po([&po](const C& p) { po.push_back(p); });
        for (int i = 0; i < n; ++i) { int f = 0; for (const auto& p : all) { f += p == c[i] ? 1 : 0; } if (f != (t[i] != T::EMPTY ? 1 : 0)) { return false; } }
        return all.size() == static_cast<std::size_t>(cells) && listed(pi, T::INPUT) && listed(po, T::OUTPUT);
    }
};
// the second and third position relative to the first
static bool where(int e, int x, int y, int u, int v, C* o) { const int d = e % 5, f = e / 5; o[0] = C{x, y, 0}; o[1] = d == 0 ? o[0] : d == 1 ? C{x + 1 + u, y, 0} : d == 2 ? C{u, y + 1 + v, 0} : d == 3 ? C{x, y, 1} : C{x, y + 1 + v, 1}; o[2] = f == 0 ? o[0] : f == 1 ? o[1] : C{u, y + (1 << 28) + v, f & 1}; return f < 4; }
"""


def run(c):
    w = Wit(c, "c29", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    M = 1 << 28
    R = {k: (0, M - 2) for k in "xyuv"}
    for te in ("qca", "inml", "sidb"):
        n = {"qca": 6, "inml": 6, "sidb": 5}[te]
        for k3 in range(n):
            if not c.thorough and k3 not in {"qca": (0, 1, 2, 3), "inml": (0, 3), "sidb": (2,)}[te]:
                continue
            w.ob(f"assign_{te}_{k3}", "int e0, int k1, int k2, int x, int y, int u, int v", f"""using Te = {te}_technology; using K = kinds<Te>; int e = 0; while (e < e0) {{ ++e; }} int a = 0; while (a < k1) {{ ++a; }} int b = 0; while (b < k2) {{ ++b; }} C o[3];
                if (!where(e, x, y, u, v, o)) {{ return true; }} LT<Te> l{{C{{1 << 30, 1 << 30, 1}}}}; world<Te> g; if (!g.ok(l)) {{ return false; }} l.assign_cell_type(o[0], K::k[a]); g.set(o[0], K::k[a]); l.assign_cell_type(o[1], K::k[b]); g.set(o[1], K::k[b]);
                if (!g.ok(l)) {{ return false; }} l.assign_cell_type(o[2], K::k[{k3}]); g.set(o[2], K::k[{k3}]); return g.ok(l);""", R | {"e0": (0, 19), "k1": (0, n - 1), "k2": (0, n - 1)}, "types", anchor=A, limit=150)
    w.add("using Q = qca_technology; using L = LT<Q>; using T = Q::cell_type; using D = Q::cell_mode; static constexpr D MD[4] = {D::NORMAL, D::ROTATED, D::VERTICAL, D::CROSSOVER};")
    w.ob("modes", "int e0, int k1, int k2, int k3, int x, int y, int u, int v", """int e = 0; while (e < e0) { ++e; } int a = 0; while (a < k1) { ++a; } int b = 0; while (b < k2) { ++b; } int d = 0; while (d < k3) { ++d; } C o[3]; if (!where(e, x, y, u, v, o)) { return true; }
        L l{C{1 << 30, 1 << 30, 1}}; for (int i = 0; i < 3; ++i) { l.assign_cell_type(o[i], T::NORMAL); } if (l.get_cell_mode(o[0]) != D::NORMAL) { return false; } l.assign_cell_mode(o[0], MD[a]); l.assign_cell_mode(o[1], MD[b]); l.assign_cell_mode(o[2], MD[d]);
        const D e2 = MD[d], e1 = o[1] == o[2] ? MD[d] : MD[b], f0 = o[0] == o[2] ? MD[d] : o[0] == o[1] ? MD[b] : MD[a]; if (l.get_cell_mode(o[0]) != f0 || l.get_cell_mode(o[1]) != e1 || l.get_cell_mode(o[2]) != e2) { return false; }
        l.assign_cell_type(o[0], T::INPUT); if (l.get_cell_mode(o[0]) != f0) { return false; } l.assign_cell_type(o[2], T::EMPTY); if (l.get_cell_mode(o[2]) != D::NORMAL || l.get_cell_mode(o[0]) != (o[0] == o[2] ? D::NORMAL : f0)) { return false; }
        return l.get_cell_mode(o[1]) == (o[1] == o[2] ? D::NORMAL : e1);""", R | {"e0": (0, 19)} | {k: (0, 3) for k in ("k1", "k2", "k3")}, "modes", anchor=A, limit=150)
    w.ob("names", "int e0, int k1, int k2, int k3, int x, int y, int u, int v", """int e = 0; while (e < e0) { ++e; } int a = 0; while (a < k1) { ++a; } int b = 0; while (b < k2) { ++b; } int d = 0; while (d < k3) { ++d; } C o[3]; if (!where(e, x, y, u, v, o)) { return true; }
        const char* N[3] = {"", "a", "bc"}; L l{C{1 << 30, 1 << 30, 1}, "lyt"}; if (l.get_cell_name(o[0]) != "" || l.get_layout_name() != "lyt") { return false; } l.assign_cell_name(o[0], N[a]); l.assign_cell_name(o[1], N[b]); l.assign_cell_name(o[2], N[d]);
        const int f1 = o[1] == o[2] ? d : b, f0 = o[0] == o[2] ? d : o[0] == o[1] ? b : a; l.set_layout_name("m"); return l.get_cell_name(o[0]) == N[f0] && l.get_cell_name(o[1]) == N[f1] && l.get_cell_name(o[2]) == N[d] && l.get_layout_name() == "m" && l.is_empty();""",
         R | {"e0": (0, 19)} | {k: (0, 2) for k in ("k1", "k2", "k3")}, "names", anchor=A, limit=150)
    for s in (1, 2, 3, 4, 5, 60, 64):
        w.ob(f"clock_{s}", "int k, int i, int m, int j, int z", f"""L l{{C{{1 << 30, 1 << 30, 1}}, twoddwave_clocking<CL>(), "n", {s}, {s + 1}}}; L r{{C{{1 << 30, 1 << 30, 1}}, row_clocking<CL>()}}; r.set_tile_size_x({s}); r.set_tile_size_y({s + 1}); L f{{C{{1 << 30, 1 << 30, 1}}, open_clocking<CL>(), "", {s}, {s + 1}}};
            int64_t a = 0; while (a < k) {{ ++a; }} int64_t b = 0; while (b < m) {{ ++b; }} const int64_t X = 4 * int64_t{{i}} + a, Y = 4 * int64_t{{j}} + b; int64_t dx = 0; while (dx < {s} - 1) {{ ++dx; }} f.assign_clock_number(C{{X, Y, z}}, 3);
            for (const int64_t p : {{int64_t{{0}}, int64_t{{{s - 1}}}}}) {{ for (const int64_t q : {{int64_t{{0}}, int64_t{{{s}}}}}) {{ const C c{{{s} * X + p, {s + 1} * Y + q, z}}; if (l.get_clock_number(c) != (a + b) % 4 || r.get_clock_number(c) != b || f.get_clock_number(c) != 3) {{ return false; }} }} }}
            return l.get_tile_size_x() == {s} && r.get_tile_size_x() == {s} && l.get_tile_size_y() == {s + 1} && r.get_tile_size_y() == {s + 1};""",
             {"k": (0, 3), "m": (0, 3), "i": (0, M // 64 // 4), "j": (0, M // 64 // 4), "z": (0, 1)}, "clock", anchor=A)
    w.ob("clone", "int x, int y, int z", """L l{C{1 << 30, 1 << 30, 1}, "n", 4, 7}; const C t{x, y, z}, u{x + 1, y, z}; l.assign_cell_type(t, T::INPUT); l.assign_cell_type(u, T::OUTPUT); l.assign_cell_name(t, "a"); l.assign_cell_mode(t, D::VERTICAL); const L d = l.clone(); L e = l.clone();
        l.assign_cell_type(t, T::EMPTY); l.assign_cell_name(t, "b"); l.set_layout_name("k"); l.set_tile_size_x(9); e.assign_cell_type(u, T::NORMAL); e.assign_cell_mode(u, D::CROSSOVER); e.set_tile_size_y(5);
        world<Q> g, h, k; g.set(t, T::INPUT); g.set(u, T::OUTPUT); h.set(t, T::EMPTY); h.set(u, T::OUTPUT); k.set(t, T::INPUT); k.set(u, T::NORMAL); return g.ok(d) && h.ok(l) && k.ok(e) && d.get_cell_name(t) == "a" && d.get_cell_mode(t) == D::VERTICAL && d.get_layout_name() == "n" &&
        d.get_tile_size_x() == 4 && d.get_tile_size_y() == 7 && d.get_cell_mode(u) == D::NORMAL && d.x() == 1 << 30 && e.get_cell_name(t) == "a" && L{CL{C{3, 4, 1}}}.get_tile_size_x() == 1 && L{CL{C{3, 4, 1}}}.y() == 4 && L{C{3, 4}}.get_tile_size_y() == 1;""",
         {"x": (0, M), "y": (0, M), "z": (0, 1)}, "clone", anchor=A)
    w.run()
