"""C38: QCA ONE: gates fit their ports; applying a library puts each gate in its place."""
import os
import vf
from vf import Wit

A = "include/fiction/technology/qca_one_library.hpp"
B = "include/fiction/technology/fcn_gate_library.hpp"
D = "include/fiction/algorithms/physical_design/apply_gate_library.hpp"
META = dict(
    title="QCA ONE gates fit their ports; applying a library puts each in its place",
    statement="For every tile of a gate-level layout and every placement of its connections, the QCA ONE gate has cells at exactly the connected sides: wires and fan-outs connect all of them, an inverter separates its input from its "
              "output diagonally with the fork at the input, conjunction and disjunction fix the fourth side to 0 and 1, primary inputs and outputs have one cell of their type. Unsupported gates are refused. Rotations turn a gate "
              "clockwise, merging overlays, marking changes one cell. Applying the library to a Cartesian layout yields a cell layout of tile-size multiples in which each tile holds exactly its gate, on its layer, with names at the I/O cells and the tile's clock "
              "number; the ends of crossings are vertical cells with a vertical cell below, and nothing else is added. For hexagonal and shifted layouts the cell layout ends with the outermost cells.",
    forall="all placements of inputs and outputs around a tile for each kind of gate; all gates of nine cells for the transformations; small layouts with wires, fan-outs, gates and crossings in each clock zone",
    why="a misplaced cell breaks the circuit for one orientation of one gate only; tests compare a few layouts",
    files=[A, B, D],
    mechanism=["set_up_gate, determine_port_routing @ " + A + ":40-165", "rotate_90 .. reverse_rows @ " + B + ":150-300", "run_static_gate_library, assign_gate @ " + D + ":68-130, 190-215"],
    technique="abstract interpretation of LLVM IR over witness units with a reference model of the gates",
    note="phmap's maps are replaced by stand-ins, mockturtle's storage by the interface's. Only the QCA ONE library; square gates.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mockname"), "-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini"), "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <fiction/technology/qca_one_library.hpp>
#include <fiction/algorithms/physical_design/apply_gate_library.hpp>
#include <cstdint>
#include <string>
#include <vector>
using namespace fiction;
using Q = qca_technology; using T = Q::cell_type;
using C = offset::ucoord_t; using KL = clocked_layout<cartesian_layout<C>>; using GL = gate_level_layout<KL>; using QL = cell_level_layout<Q, KL>;
using G5 = qca_one_library::fcn_gate;
static GL::signal sg(const C& c) { return static_cast<GL::signal>(c); }
// the neighbours: north, east, south, west
static const C nb[4] = {C{1, 0}, C{2, 1}, C{1, 2}, C{0, 1}};
static const int py[4] = {0, 2, 4, 2}, px[4] = {2, 4, 2, 0};
// a tile at (1, 1) of kind k whose side i has state d_i: 0 none, 1 input, 2 output
enum { WIRE, INV, AND, OR, MAJ, PI, PO, XOR };
static GL around(int k, const int* d)
{
    GL l{KL{C{2, 2, 1}, open_clocking<KL>()}};
    l.assign_clock_number(C{1, 1}, 1);
    std::vector<GL::signal> in{};
    for (int i = 0; i < 4; ++i) { l.assign_clock_number(nb[i], d[i] == 1 ? 0 : 2); if (d[i] == 1) { in.push_back(l.create_pi("i", nb[i])); } }
    const C t{1, 1};
    const GL::signal z{};
    if (k == PI) { l.create_pi("a", t); }
    else if (k == PO) { l.create_po(in.empty() ? z : in[0], "o", t); }
    else if (k == WIRE) { l.create_buf(in.empty() ? z : in[0], t); }
    else if (k == INV) { l.create_not(in.empty() ? z : in[0], t); }
    else if (in.size() > 1) { if (k == AND) { l.create_and(in[0], in[1], t); } else if (k == OR) { l.create_or(in[0], in[1], t); } else if (k == XOR) { l.create_xor(in[0], in[1], t); } else if (in.size() > 2) { l.create_maj(in[0], in[1], in[2], t); } }
    for (int i = 0; i < 4; ++i) { if (d[i] == 2) { l.create_buf(sg(t), nb[i]); } }
    return l;
}
static bool full(const G5& g, int y, int x) { return g[y][x] != T::EMPTY; }
// cells reachable from a port through direct neighbours (or diagonals)
static int reach(const G5& g, int y, int x, bool (&v)[5][5], bool diag)
{
    if (y < 0 || x < 0 || y > 4 || x > 4 || v[y][x] || !full(g, y, x)) { return 0; }
    v[y][x] = true;
    int n = 1;
    for (int a = -1; a <= 1; ++a) { for (int b = -1; b <= 1; ++b) { if ((a != 0 || b != 0) && (diag || a == 0 || b == 0)) { n += reach(g, y + a, x + b, v, diag); } } }
    return n;
}
static bool fits(int k, const int* d, const G5& g)
{
    int cells = 0, ins = 0, outs = 0, zero = 0, ones = 0, first = -1, o = -1, used = 0;
    for (int y = 0; y < 5; ++y) { for (int x = 0; x < 5; ++x) { const T t = g[y][x]; cells += t != T::EMPTY; ins += t == T::INPUT; outs += t == T::OUTPUT; zero += t == T::CONST_0; ones += t == T::CONST_1;
      if (y == 0 || x == 0 || y == 4 || x == 4) { bool port = false; for (int i = 0; i < 4; ++i) { port = port || (py[i] == y && px[i] == x); } if (!port && t != T::EMPTY) { return false; } } } }
    for (int i = 0; i < 4; ++i)
    {
        const T t = g[py[i]][px[i]];
        if (d[i] != 0) { ++used; if (t != T::NORMAL) { return false; } if (d[i] == 1 && first < 0) { first = i; } if (d[i] == 2) { o = i; } }
        else if (k == AND ? t != T::CONST_0 : k == OR ? t != T::CONST_1 : t != T::EMPTY) { return false; }
    }
    if (ins != (k == PI) || outs != (k == PO) || zero != (k == AND) || ones != (k == OR)) { return false; }
    bool v[5][5]{}; if (first < 0) { first = o; }
    const int n = reach(g, py[first], px[first], v, false);
    if (k != INV) { return n == cells; }
    if (n == cells || v[py[o]][px[o]]) { return false; }
    bool w[5][5]{}; const bool straight = py[o] + py[first] == 4 && px[o] + px[first] == 4;
    return reach(g, py[first], px[first], w, true) == cells && (!straight || n > cells - n);
}
// the gate for this placement, or whether none is expected
static bool gate(int k, const int* d)
{
    int in = 0, out = 0; for (int i = 0; i < 4; ++i) { in += d[i] == 1; out += d[i] == 2; }
    const bool proper = k == WIRE ? in == 1 && out >= 1 : k == INV ? in == 1 && out == 1 : k == AND || k == OR || k == XOR ? in == 2 && out == 1 : k == MAJ ? in == 3 && out == 1 : k == PI ? in == 0 && out == 1 : in == 1 && out == 0;
    if (!proper) { return true; }
    return fits(k, d, qca_one_library::set_up_gate(around(k, d), C{1, 1}));
}
struct L3 : fcn_gate_library<Q, 3, 3> { using B = fcn_gate_library<Q, 3, 3>; using G = B::fcn_gate; static G tr(const G& g) { return B::transpose(g); } static G rc(const G& g) { return B::reverse_columns(g); } static G rr(const G& g) { return B::reverse_rows(g); } };
using G3 = L3::fcn_gate;
// a library whose gates fill their tile but one corner
struct Full : fcn_gate_library<Q, 4, 4>
{
    template <class L> static fcn_gate set_up_gate(const L&, const tile<L>&) { fcn_gate g{}; for (auto& r : g) { for (auto& x : r) { x = T::NORMAL; } } g[3][0] = T::EMPTY; return g; }
};
// the cell layout ends with the outermost cells; Cartesian tiles do not overlap
template <class Topo> static bool covered(int w, int h)
{
    using HK = clocked_layout<Topo>; using HG = gate_level_layout<HK>;
    HG l{HK{C{uint32_t(w - 1), uint32_t(h - 1), 0}, open_clocking<HK>()}};
    for (int y = 0; y < h; ++y) { for (int x = 0; x < w; ++x) { l.create_pi("a", C{uint32_t(x), uint32_t(y)}); } }
    const QL q = apply_gate_library<QL, Full>(l);
    uint32_t mx = 0, my = 0, n = 0;
    q.foreach_cell([&](const C& c) { mx = c.x > mx ? c.x : mx; my = c.y > my ? c.y : my; ++n; });
    return q.x() == mx && q.y() == my && (is_hexagonal_layout_v<Topo> || n == static_cast<uint32_t>(15 * w * h));
}
"""


def run(c):
    w = Wit(c, "c38", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    cf = lambda *ks: "".join(f"int {k} = 0; while ({k} < {k}0) {{ ++{k}; }} " for k in ks)
    DD = "int d[4]; int r = q; for (int& i : d) { i = r % 3; r /= 3; } "
    for k in ("WIRE", "INV", "AND", "OR", "MAJ", "PI", "PO"):
        w.ob("gate_" + k.lower(), "int q0", cf("q") + DD + f"return gate({k}, d);", {"q0": (0, 80)}, "gate", limit=200, init=True)
    G = "G3 g{}; " + "".join(f"g[{i // 3}][{i % 3}] = static_cast<T>(c{i}); " for i in range(9))
    P = ", ".join(f"uint8_t c{i}" for i in range(9))
    for nm, e in (("rotate_90", "g[2 - x][y]"), ("rotate_180", "g[2 - y][2 - x]"), ("rotate_270", "g[x][2 - y]"), ("tr", "g[x][y]"), ("rc", "g[y][2 - x]"), ("rr", "g[2 - y][x]")):
        w.ob("turn_" + nm, P, G + f"const G3 h = L3::{nm}(g); for (int y = 0; y < 3; ++y) {{ for (int x = 0; x < 3; ++x) {{ if (h[y][x] != {e}) {{ return false; }} }} }} return true;", None, "transformations")
    for nm, e in (("rotate_180", "g[4 - y][4 - x]"), ("rotate_90", "g[4 - x][y]"), ("rotate_270", "g[x][4 - y]")):
        w.ob("turn5_" + nm, "uint64_t a, int i0", "int i = 0; while (i < i0) { ++i; } G5 g{}; for (int k = 0; k < 8; ++k) { g[(i + 3 * k) / 5 % 5][(i + 3 * k) % 5] = static_cast<T>(static_cast<uint8_t>(a >> (8 * k))); } const G5 h = qca_one_library::" + nm + f"(g); for (int y = 0; y < 5; ++y) {{ for (int x = 0; x < 5; ++x) {{ if (h[y][x] != {e}) {{ return false; }} }} }} return true;", {"i0": (0, 24)}, "transformations", limit=100)
    w.ob("merge", "uint8_t a, uint8_t b, uint8_t c", "G3 g{}, h{}, k{}; for (auto* q : {&g, &h, &k}) { for (auto& r : *q) { for (auto& x : r) { x = T::EMPTY; } } } g[0][1] = static_cast<T>(a); h[0][1] = static_cast<T>(b); k[2][0] = static_cast<T>(c); const G3 m = L3::merge({g, h, k}); const T e = static_cast<T>(b) != T::EMPTY ? static_cast<T>(b) : static_cast<T>(a); "
         "for (int y = 0; y < 3; ++y) { for (int x = 0; x < 3; ++x) { if (m[y][x] != (y == 0 && x == 1 ? e : y == 2 && x == 0 ? static_cast<T>(c) : T::EMPTY)) { return false; } } } return true;", None, "transformations", limit=60)
    w.ob("mark", "int x0, int y0", cf("x", "y") + "G3 g{}; for (int i = 0; i < 9; ++i) { g[i / 3][i % 3] = i % 2 ? T::NORMAL : T::EMPTY; } const G3 h = L3::mark_cell(g, port_position(static_cast<uint16_t>(x), static_cast<uint16_t>(y)), Q::cell_mark::OUTPUT); for (int b = 0; b < 3; ++b) { for (int a = 0; a < 3; ++a) { if (h[b][a] != (a == x && b == y ? T::OUTPUT : g[b][a])) { return false; } } } return L3::gate_x_size() == 3 && L3::gate_y_size() == 3;", {"x0": (0, 2), "y0": (0, 2)}, "transformations", limit=60)
    w.ob("refused_gate", "int q0", cf("q") + DD + "int in = 0, out = 0; for (int i = 0; i < 4; ++i) { in += d[i] == 1; out += d[i] == 2; } if (in != 2 || out != 1) { return true; } try { (void)qca_one_library::set_up_gate(around(XOR, d), C{1, 1}); } catch (const unsupported_gate_type_exception<C>& e) { return e.where() == C{1, 1}; } return false;", {"q0": (0, 80)}, "gate", limit=200, init=True)
    w.ob("refused_orientation", "int q0", cf("q") + "int d[4] = {0, 0, 0, 0}; d[q] = 1; d[(q + 1) % 4] = 1; for (const int k : {AND, OR}) { bool ok = false; try { int e[4] = {d[0], d[1], d[2], d[3]}; e[(q + 2) % 4] = 2; e[(q + 3) % 4] = 2; (void)qca_one_library::set_up_gate(around(k, e), C{1, 1}); } catch (const unsupported_gate_orientation_exception<C, port_position>& e) { ok = e.where() == C{1, 1} && e.which_ports().inp.size() == 2 && e.which_ports().out.size() == 2; } if (!ok) { return false; } } return true;", {"q0": (0, 3)}, "gate", limit=200, init=True)
    # applying the library
    AP = ("const auto holds = [](const GL& l, const QL& q, int vias) { if (q.x() != 5 * l.x() + 4 || q.y() != 5 * l.y() + 4 || q.z() != l.z() || q.get_tile_size_x() != 5 || q.get_tile_size_y() != 5) { return false; } int found = 0; "
          "for (uint32_t z = 0; z <= l.z(); ++z) { for (uint32_t y = 0; y <= q.y(); ++y) { for (uint32_t x = 0; x <= q.x(); ++x) { const C c{x, y, z}, t{x / 5, y / 5, z}; "
          "const bool via = q.get_cell_mode(c) == Q::cell_mode::VERTICAL; found += via; T e = T::EMPTY; if (!l.is_empty_tile(t)) { e = qca_one_library::set_up_gate(l, t)[y % 5][x % 5]; } "
          "if (via && z == 0) { if (q.get_cell_mode(C{x, y, 1}) != Q::cell_mode::VERTICAL) { return false; } e = T::NORMAL; } if (via && z == 1) { int n = 0; for (const C& o : {C{x - 1, y, 1}, C{x + 1, y, 1}, C{x, y - 1, 1}, C{x, y + 1, 1}}) { n += o.x <= q.x() && o.y <= q.y() && !q.is_empty_cell(o); } if (n > 1 || q.get_cell_mode(C{x, y, 0}) != Q::cell_mode::VERTICAL) { return false; } } "
          "if (q.get_cell_type(c) != e) { return false; } if (e != T::EMPTY && q.get_clock_number(c) != l.get_clock_number(t)) { return false; } "
          "if (q.get_cell_name(c) != (e == T::INPUT || e == T::OUTPUT ? l.get_name(l.get_node(t)) : std::string{})) { return false; } } } } return found == vias && q.num_pis() == l.num_pis() && q.num_pos() == l.num_pos(); }; ")
    w.ob("apply_wire", "int o0, int n0", cf("o", "n") + AP + "GL l{KL{C{uint32_t(n - 1), 1, 0}, twoddwave_clocking<KL>()}}; auto s = l.create_pi(\"a\", C{0, uint32_t(o)}); for (int i = 1; i < n - 1; ++i) { s = i == 1 && o == 1 ? l.create_not(s, C{uint32_t(i), uint32_t(o)}) : l.create_buf(s, C{uint32_t(i), uint32_t(o)}); } l.create_po(s, \"f\", C{uint32_t(n - 1), uint32_t(o)}); return holds(l, apply_gate_library<QL, qca_one_library>(l), 0);", {"o0": (0, 1), "n0": (2, 3)}, "apply", limit=100, init=True)
    w.ob("apply_gate", "int k0", cf("k") + AP + "GL l{KL{C{2, 1, 0}, twoddwave_clocking<KL>()}}; const auto a = l.create_pi(\"a\", C{0, 1}), b = l.create_pi(\"b\", C{1, 0}); const C t{1, 1}; const auto g = k == 0 ? l.create_and(a, b, t) : l.create_or(a, b, t); l.create_po(g, \"f\", C{2, 1}); return holds(l, apply_gate_library<QL, qca_one_library>(l), 0);", {"k0": (0, 1)}, "apply", limit=100, init=True)
    w.ob("apply_fanout", "int k0", cf("k") + AP + "GL l{KL{C{2, 1, 0}, twoddwave_clocking<KL>()}}; const auto a = l.create_pi(\"a\", C{0, 0}); const auto f = l.create_buf(a, C{1, 0}); l.create_po(f, \"x\", C{2, 0}); l.create_po(f, \"y\", C{1, 1}); (void)k; return holds(l, apply_gate_library<QL, qca_one_library>(l), 0);", {"k0": (0, 0)}, "apply", limit=100, init=True)
    w.ob("apply_crossing", "int k0", cf("k") + AP + "GL l{KL{C{2, 2, 1}, twoddwave_clocking<KL>()}}; const auto a = l.create_pi(\"a\", C{1, 0}), b = l.create_pi(\"b\", C{0, 1}); const auto g = l.create_buf(a, C{1, 1, uint32_t(k)}), u = l.create_buf(b, C{1, 1, uint32_t(1 - k)}); l.create_po(g, \"x\", C{1, 2}); l.create_po(u, \"y\", C{2, 1}); return holds(l, apply_gate_library<QL, qca_one_library>(l), 4);", {"k0": (0, 1)}, "apply", limit=100, init=True)
    for t in ("even_row_hex", "odd_row_hex", "even_column_hex", "odd_column_hex"):
        w.ob("apply_" + t, "int w0, int h0", cf("w", "h") + f"return covered<hexagonal_layout<C, {t}>>(w, h);", {"w0": (1, 3), "h0": (1, 3)}, "apply", limit=100)
    for t in ("horizontally_shifted_cartesian", "vertically_shifted_cartesian"):
        for o in ("odd_row", "even_row") if t[0] == "h" else ("odd_column", "even_column"):
            w.ob(f"apply_{o}_cartesian", "int w0, int h0", cf("w", "h") + f"return covered<shifted_cartesian_layout<C, {o}_cartesian>>(w, h);", {"w0": (1, 3), "h0": (1, 3)}, "apply", limit=100)
    w.run()
