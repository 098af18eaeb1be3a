"""C39: analyses of gate-level layouts: design rules, critical path and throughput, gate counts."""
import os
import stdmodels
import vf
from vf import Wit

A = "include/fiction/algorithms/verification/design_rule_violations.hpp"
B = "include/fiction/algorithms/properties/critical_path_length_and_throughput.hpp"
D = "include/fiction/algorithms/properties/count_gate_types.hpp"
META = dict(
    title="Layout analyses: design rules, critical path, throughput, gate counts",
    statement="The design rule check counts exactly the violations and warnings of the rules that are switched on: a violation per connection between tiles that are not neighbours, per connection against the clocking, per tile without "
              "inputs that is no primary input or without outputs that is no primary output, per wire above a gate, for missing inputs and for missing outputs, and per primary input or output without a place; a warning per node without "
              "a place and per primary input or output inside the layout. A layout without flaws has none. The critical path is the longest path to a primary output in tiles; the throughput is one over one plus the largest difference, in "
              "whole clock cycles, between the arrival at a gate over its longest and its shortest path. Each node is counted once, as what it is; wires with several readers as fan-outs.",
    forall="all placements of two connected tiles, of wires over gates and of inputs and outputs in a small layout, all clock numbers; paths of every pair of lengths up to eight and three tiles, in parallel, in sequence and reconverging",
    why="an analysis that overlooks a flaw lets a broken layout pass every later step; tests look at a few layouts of which most are legal",
    files=[A, B, D],
    mechanism=["gate_level_drvs_impl @ " + A + ":110-640", "signal_delay @ " + B + ":80-150", "count_gate_types_impl::run @ " + D + ":80-290"],
    technique="abstract interpretation of LLVM IR over witness units with a reference model of the layouts",
    note="phmap's maps, nlohmann's document and fmt are replaced by stand-ins; the text of the report is not judged. Cartesian layouts with offset coordinates.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini"), "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <iostream>
#include <fmt/format.h>
namespace mockturtle { template <class T> inline constexpr bool has_is_buf_v = true; }
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <cstdint>
#include <sstream>
using namespace fiction;
using C = offset::ucoord_t; using KL = clocked_layout<tile_based_layout<cartesian_layout<C>>>; using GL = gate_level_layout<KL>; using SG = GL::signal;
static C at(int x, int y, int z = 0) { return C{uint32_t(x), uint32_t(y), uint32_t(z)}; }
static GL grid(int x, int y, bool dd) { return GL{KL{at(x, y, 1), dd ? twoddwave_clocking<KL>() : open_clocking<KL>()}}; }
enum { UNPLACED, DEAD, NONADJ, MISSING, CROSSING, FLOW, HASIO, EMPTYIO, PINS, BORDER, N };
// the rules of this mask alone
static gate_level_drv_stats drc(const GL& l, int mask)
{
    std::ostringstream o{};
    gate_level_drv_params p{};
    bool* const f[N] = {&p.unplaced_nodes, &p.placed_dead_nodes, &p.non_adjacent_connections, &p.missing_connections, &p.crossing_gates, &p.clocked_data_flow, &p.has_io, &p.empty_io, &p.io_pins, &p.border_io};
    for (int i = 0; i < N; ++i) { *f[i] = mask >> i & 1; }
    p.out = &o;
    gate_level_drv_stats st{};
    gate_level_drvs(l, p, &st);
    return st;
}
static bool only(const GL& l, int rule, int drvs, int warnings)
{
    const auto s = drc(l, 1 << rule);
    return s.drvs == static_cast<std::size_t>(drvs) && s.warnings == static_cast<std::size_t>(warnings);
}
static int dist(const C& a, const C& b) { const int x = int(a.x) - int(b.x), y = int(a.y) - int(b.y); return (x < 0 ? -x : x) + (y < 0 ? -y : y); }
static bool cptp(const GL& l, int cp, int tp) { const auto r = critical_path_length_and_throughput(l); return r.critical_path_length == static_cast<uint64_t>(cp) && r.throughput == static_cast<uint64_t>(tp); }
static SG chain(GL& l, SG s, int y, int from, int to) { for (int x = from; x <= to; ++x) { s = l.create_buf(s, at(x, y)); } return s; }
"""


def _text(m, s, fr, ins, name, args):
    """the text of a report is not judged: empty"""
    if ins["t"][0] != "v" or len(args) != 2:
        return NotImplemented
    stdmodels.write_string(m, s, args[0], [])
    return m.finish(s, fr, ins, None)


def run(c):
    w = Wit(c, "c39", PRE, A, flags=FLAGS, passes="function(sroa,early-cse)", models=[(stdmodels._SS + r"str\(\)", _text)] + stdmodels.STREAMS)
    cf = lambda *ks: "".join(f"int {k} = 0; while ({k} < {k}0) {{ ++{k}; }} " for k in ks)
    K = dict(limit=200, init=True)
    LEGAL = "GL l = grid(3, 2, true); const auto a = l.create_pi(\"a\", at(1, 0)), b = l.create_pi(\"b\", at(0, 1)), d = l.create_pi(\"d\", at(2, 0)); const auto g = l.create_and(a, b, at(1, 1)); const auto u = l.create_buf(g, at(2, 1)); l.create_po(u, \"f\", at(3, 1)); const auto v = l.create_buf(d, at(2, 1, 1)); l.create_po(v, \"h\", at(2, 2)); "
    w.ob("legal", "int m0", cf("m") + LEGAL + "const auto s = drc(l, m == N ? (1 << N) - 1 : 1 << m); return s.drvs == 0 && s.warnings == 0;", {"m0": (0, 10)}, "design rules", **K)
    w.ob("none", "", "GL l = grid(2, 2, false); l.create_po(l.create_pi(\"a\", at(1, 1)), \"f\", at(0, 0)); const auto s = drc(l, 0); const GL e = grid(1, 1, true); const auto t = drc(e, (1 << N) - 1); return s.drvs == 0 && s.warnings == 0 && t.drvs == 0 && t.warnings == 0;", None, "design rules", **K)
    w.ob("adjacent", "int p0, int q0", cf("p", "q") + "if (p == q) { return true; } GL l = grid(2, 2, false); const C s = at(p % 3, p / 3 % 3, p / 9), t = at(q % 3, q / 3 % 3, q / 9); const auto a = l.create_pi(\"a\", s); l.create_buf(a, t); return only(l, NONADJ, dist(s, t) != 1, 0);", {"p0": (0, 8), "q0": (0, 17)}, "design rules", **K)
    w.ob("adjacent_two", "int p0, int q0", cf("p", "q") + "GL l = grid(2, 2, false); const C s = at(p % 3, p / 3), t = at(q % 3, q / 3), u = at(1, 1); if (p == q || p == 4 || q == 4) { return true; } const auto a = l.create_pi(\"a\", s), b = l.create_pi(\"b\", t); l.create_and(a, b, u); return only(l, NONADJ, (dist(s, u) != 1) + (dist(t, u) != 1), 0);", {"p0": (0, 8), "q0": (0, 8)}, "design rules", **K)
    w.ob("clocked", "int p0, int q0, int r0", cf("p", "q", "r") + "GL l = grid(2, 0, false); l.assign_clock_number(at(0, 0), p); l.assign_clock_number(at(1, 0), q); l.assign_clock_number(at(2, 0), r); const auto a = l.create_pi(\"a\", at(0, 0)), b = l.create_pi(\"b\", at(2, 0)); l.create_or(a, b, at(1, 0)); return only(l, FLOW, ((p + 1) % 4 != q) + ((r + 1) % 4 != q), 0);", {"p0": (0, 3), "q0": (0, 3), "r0": (0, 3)}, "design rules", **K)
    w.ob("missing", "int k0", cf("k") + "GL l = grid(3, 1, true); const auto a = l.create_pi(\"a\", at(0, 0)), s = l.create_buf(a, at(1, 0)), t = l.create_not(s, at(2, 0)); if (k & 1) { l.move_node(l.get_node(s), at(1, 0), {}); } if (k & 4) { l.move_node(l.get_node(t), at(2, 0), {}); } if (!(k & 2)) { l.create_po(t, \"f\", at(3, 0)); } "
         "const bool ain = false, aout = k & 1, sin = k & 1, sout = k & 4, tin = k & 4, tout = k & 2; return only(l, MISSING, (ain || aout) + (sin || sout) + (tin || tout), 0);", {"k0": (0, 7)}, "design rules", **K)
    w.ob("crossing", "int k0, int n0", cf("k", "n") + "GL l = grid(2, 2, true); const auto a = l.create_pi(\"a\", at(1, 0)), b = l.create_pi(\"b\", at(0, 1)); const C t = at(1, 1); if (k == 0) { l.create_buf(a, t); } else if (k == 1) { l.create_not(a, t); } else if (k == 2) { l.create_and(a, b, t); } else if (k == 3) { l.create_pi(\"e\", t); } else { l.create_po(a, \"e\", t); } "
         "if (n & 1) { l.create_buf(b, at(1, 1, 1)); } if (n & 2) { l.create_not(a, at(2, 0)); l.create_buf(b, at(2, 0, 1)); } return only(l, CROSSING, (n & 1 ? k == 1 || k == 2 : 0) + (n & 2 ? 1 : 0), 0);", {"k0": (0, 4), "n0": (0, 3)}, "design rules", **K)
    w.ob("has_io", "int k0", cf("k") + "GL l = grid(2, 2, true); SG s{}; if (k & 1) { s = l.create_pi(\"a\", at(0, 0)); } s = l.create_buf(s, at(1, 0)); if (k & 2) { l.create_po(s, \"f\", at(2, 0)); } return only(l, HASIO, !(k & 1) + !(k & 2), 0);", {"k0": (0, 3)}, "design rules", **K)
    w.ob("unplaced", "int k0", cf("k") + "GL l = grid(2, 2, true); const auto a = l.create_pi(\"a\", at(0, 0)); if (k & 1) { l.create_pi(\"b\"); } if (k & 2) { l.create_not(a); } if (k & 4) { l.create_po(a, \"g\"); } const auto s = l.create_buf(a, at(1, 0)); l.create_po(s, \"f\", at(2, 0)); return only(l, UNPLACED, 0, (k & 1) + (k >> 1 & 1) + (k >> 2)) && only(l, EMPTYIO, (k & 1) + (k >> 2), 0);", {"k0": (0, 7)}, "design rules", **K)
    w.ob("border", "int p0, int q0", cf("p", "q") + "if (p == q) { return true; } GL l = grid(3, 3, true); const C s = at(p % 4, p / 4), t = at(q % 4, q / 4); const auto in = [](const C& c) { return c.x > 0 && c.x < 3 && c.y > 0 && c.y < 3 ? 1 : 0; }; const auto a = l.create_pi(\"a\", s); l.create_po(a, \"f\", t); return only(l, BORDER, 0, in(s) + in(t)) && only(l, PINS, 0, 0);", {"p0": (0, 15), "q0": (0, 15)}, "design rules", **K)
    # paths
    w.ob("path_wire", "int n0, int k0", cf("n", "k") + "GL l = grid(10, 1, true); auto s = l.create_pi(\"a\", at(k, 0)); s = chain(l, s, 0, k + 1, k + n); l.create_po(s, \"f\", at(k + n + 1, 0)); return cptp(l, n + 2, 1);", {"n0": (0, 5), "k0": (0, 4)}, "paths", **K)
    w.ob("path_gate", "int n0, int m0", cf("n", "m") + "if (m > n + 1) { return true; } GL l = grid(10, 2, true); auto a = chain(l, l.create_pi(\"a\", at(0, 1)), 1, 1, n - 1), b = chain(l, l.create_pi(\"b\", at(n - m + 1, 0)), 0, n - m + 2, n); const auto g = l.create_and(a, b, at(n, 1)); l.create_po(g, \"f\", at(n + 1, 1)); "
         "const int ta = 1 + n - 1, tb = (n - m + 1) % 4 + m - 1, d = ta > tb ? ta - tb : tb - ta; return cptp(l, (n > m ? n : m) + 2, 1 + d / 4);", {"n0": (1, 8), "m0": (1, 3)}, "paths", **K)
    w.ob("path_gates", "int n0, int m0", cf("n", "m") + "GL l = grid(11, 2, true); auto a = chain(l, l.create_pi(\"a\", at(0, 1)), 1, 1, n - 1); a = l.create_or(a, l.create_pi(\"b\", at(n, 0)), at(n, 1)); a = chain(l, a, 1, n + 1, n + m - 1); a = l.create_and(a, l.create_pi(\"d\", at(n + m, 0)), at(n + m, 1)); const auto i = l.create_not(a, at(n + m + 1, 1)); l.create_po(i, \"f\", at(n + m + 2, 1)); "
         "const int d = n - n % 4, e = n + m - (n + m) % 4; return cptp(l, n + m + 3, 1 + (d > e ? d : e) / 4);", {"n0": (1, 5), "m0": (1, 4)}, "paths", **K)
    w.ob("path_outputs", "int n0, int m0, int k0", cf("n", "m", "k") + "GL l = grid(6, 2, true); auto a = chain(l, l.create_pi(\"a\", at(0, 0)), 0, 1, n), b = chain(l, l.create_pi(\"b\", at(0, 1)), 1, 1, m); if (k == 0) { l.create_po(a, \"f\", at(n + 1, 0)); l.create_po(b, \"g\", at(m + 1, 1)); } else { l.create_po(b, \"g\", at(m + 1, 1)); l.create_po(a, \"f\", at(n + 1, 0)); } return cptp(l, (n > m ? n : m) + 2, 1);", {"n0": (0, 4), "m0": (0, 4), "k0": (0, 1)}, "paths", **K)
    w.ob("path_reconverge", "int k0, int o0", cf("k", "o") + "GL l = grid(4, 6, false); for (int y = 0; y <= 6; ++y) { for (int x = 0; x <= 4; ++x) { l.assign_clock_number(at(x, y), 3); } } const int n = 1 + 4 * k; l.assign_clock_number(at(0, 1), 0); l.assign_clock_number(at(1, 1), 1); l.assign_clock_number(at(2, 1), 2); l.assign_clock_number(at(3, 1), 3); "
         "const auto f = l.create_pi(\"a\", at(0, 1)); const auto s = l.create_buf(f, at(1, 1)); SG t = f; const int h = 2 * k; int c = 0; for (int i = 0; i < h; ++i) { ++c; l.assign_clock_number(at(0, 2 + i), c % 4); t = l.create_buf(t, at(0, 2 + i)); } if (k > 0) { ++c; l.assign_clock_number(at(1, 1 + h), c % 4); t = l.create_buf(t, at(1, 1 + h)); for (int i = 0; i < h; ++i) { ++c; l.assign_clock_number(at(2, 1 + h - i), c % 4); t = l.create_buf(t, at(2, 1 + h - i)); } } "
         "if (k == 0) { const auto g = l.create_not(s, at(2, 1)); l.create_po(g, \"f\", at(3, 1)); return cptp(l, 4, 1); } const auto g = o == 0 ? l.create_and(s, t, at(2, 1)) : l.create_and(t, s, at(2, 1)); l.create_po(g, \"f\", at(3, 1)); return c == n && cptp(l, n + 3, 1 + k);", {"k0": (0, 2), "o0": (0, 1)}, "paths", **K)
    w.ob("path_far", "int n0", cf("n") + "GL l = grid(14, 1, true); const auto a = chain(l, l.create_pi(\"a\", at(0, 1)), 1, 1, n - 1), g = l.create_and(a, l.create_pi(\"b\", at(n, 0)), at(n, 1)); l.create_po(g, \"f\", at(n + 1, 1)); return cptp(l, n + 2, 1 + n / 4);", {"n0": (11, 13)}, "paths", **K)
    w.ob("path_phases", "int n0", cf("n") + "GL l{KL{at(14, 1, 1), twoddwave_clocking<KL>(num_clks::THREE)}}; const auto a = chain(l, l.create_pi(\"a\", at(0, 1)), 1, 1, n - 1), g = l.create_and(a, l.create_pi(\"b\", at(n, 0)), at(n, 1)); l.create_po(g, \"f\", at(n + 1, 1)); return cptp(l, n + 2, 1 + n / 3);", {"n0": (1, 13)}, "paths", **K)
    w.ob("path_none", "int k0", cf("k") + "GL l = grid(2, 2, true); if (k > 0) { l.create_buf(l.create_pi(\"a\", at(0, 0)), at(1, 0)); } return cptp(l, 0, 1);", {"k0": (0, 1)}, "paths", **K)
    # counts
    ONE = " + ".join("s.num_" + f for f in ("fanout", "buf", "inv", "and2", "or2", "nand2", "nor2", "xor2", "xnor2", "lt2", "gt2", "le2", "ge2", "and3", "xor_and", "or_and", "onehot", "maj3", "gamble", "dot", "mux", "and_xor", "other"))
    CNT = "count_gate_types_stats s{}; count_gate_types(l, &s); const uint64_t all = " + ONE + "; "
    for nm, e in (("and2", "create_and(a, b, t)"), ("or2", "create_or(a, b, t)"), ("nand2", "create_nand(a, b, t)"), ("nor2", "create_nor(a, b, t)"), ("xor2", "create_xor(a, b, t)"), ("xnor2", "create_xnor(a, b, t)"), ("inv", "create_not(a, t)"), ("maj3", "create_maj(a, b, d, t)"), ("buf", "create_buf(a, t)"),
                  ("lt2", "create_lt(a, b, t)"), ("gt2", "create_gt(a, b, t)"), ("le2", "create_le(a, b, t)"), ("ge2", "create_ge(a, b, t)")):
        n = {"maj3": 3, "inv": 1, "buf": 1}.get(nm, 2)
        w.ob("count_" + nm, "int k0", cf("k") + "GL l = grid(3, 2, true); const C t = at(1, 1); const auto a = l.create_pi(\"a\", at(1, 0)), b = l.create_pi(\"b\", at(0, 1)), d = l.create_pi(\"d\", at(2, 1)); (void)b; (void)d; const auto g = l." + e + "; int w = 3; if (k > 0) { l.create_po(g, \"f\", at(1, 2)); ++w; } "
             + CNT + f"const uint64_t bufs = s.num_buf + s.num_fanout, e = {'0' if nm == 'buf' else '1'}; "
             + ("return bufs == static_cast<uint64_t>(w + 1) && all == bufs;" if nm == "buf" else f"return s.num_{nm} == 1 && bufs == static_cast<uint64_t>(w) && all == bufs + e;"), {"k0": (0, 1)}, "counts", **K)
    w.ob("count_fanout", "int k0", cf("k") + "GL l = grid(3, 2, true); const auto a = l.create_pi(\"a\", at(0, 0)), u = l.create_buf(a, at(1, 0)); if (k > 0) { l.create_not(a, at(0, 1)); } if (k > 1) { l.create_not(u, at(2, 0)); l.create_po(u, \"f\", at(1, 1)); } " + CNT + "return s.num_fanout == (k > 0) + (k > 1) && s.num_buf == 2 + (k > 1) - (k > 0) - (k > 1) && s.num_inv == (k > 0) + (k > 1) && all == static_cast<uint64_t>(2 + (k > 0) + 2 * (k > 1));", {"k0": (0, 2)}, "counts", **K)
    w.run()
