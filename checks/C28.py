"""C28: gate-level layouts."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/gate_level_layout.hpp"
META = dict(
    title="Gate-level layouts keep tiles, nodes, counters and connections consistent",
    statement="Placing, overwriting, moving and clearing gates keeps the layout consistent: a tile holds the node that was placed there last and that node knows its tile, "
              "a node is dead exactly while it has been cleared or overwritten, the numbers of gates, wires and crossings (stacks of a wire and another node) are those of the nodes in place, "
              "and primary outputs follow their nodes. Fanins are the connected nodes in the order of connection that are adjacent (in any layer) and, unless clocking is ignored, "
              "incoming clocked; a node is among the fanouts of another exactly if that is among its fanins, and the data-flow and direction queries agree with that. "
              "Every gate has the function it was created with, and a clone is independent of the original.",
    forall="all positions of up to four nodes in two-layer layouts of any size with the 2DDWave, ROW and open clockings, every gate type, any single placement, move, "
           "connection or clearing following any placements",
    why="physical design and verification read connectivity and counts from these structures after arbitrary edit sequences; tests use fixed layouts",
    files=[A],
    mechanism=["create_node_from_literal @ " + A + ":1810", "assign_node / clear_tile / move_node @ " + A + ":731-842", "foreach_fanin / foreach_fanout @ " + A + ":1030-1180"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic tiles",
    note="mockturtle's storage, truth table cache and iteration helpers, kitty's truth tables and phmap's maps are replaced by stand-ins of the same interface.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]
PRE = """#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <cstdint>
#include <string>
#include <vector>
using namespace fiction;
using C = offset::ucoord_t;
using CL = clocked_layout<cartesian_layout<C>>;
using GL = gate_level_layout<CL>;
using S = GL::signal; using N = GL::node;
static S sg(const C& c) { return static_cast<S>(c); }
struct bits { using value_type = bool; int k; int i; bool operator*() const { return ((k >> i) & 1) != 0; } bits operator++(int) { auto r = *this; ++i; return r; } bits& operator++() { ++i; return *this; } bool operator!=(const bits& o) const { return i != o.i; } bool operator==(const bits& o) const { return i == o.i; } };
static S mk(GL& l, int k, const C& t, S a, S b) { switch (k) { case 0: return l.create_pi("i", t); case 1: return l.create_buf(a, t); case 2: return l.create_and(a, b, t); default: return l.create_po(a, "o", t); } }
// what the layout should look like: nodes 2.. with their tile, kind and state
struct world
{
    C t[4]; int k[4]; bool in[4]{}; int n = 0;
    void clear(const C& c) { for (int i = 0; i < n; ++i) { if (in[i] && t[i] == c) { in[i] = false; } } }
    void add(int kind, const C& c) { clear(c); t[n] = c; k[n] = kind; in[n] = true; ++n; }
    void move(int i, const C& c) { if (!(in[i] && t[i] == c)) { in[i] = false; clear(c); t[i] = c; in[i] = true; } }
    bool wire(int i) const { return k[i] != 2; }
    bool ok(const GL& l) const
    {
        uint32_t w = 0, g = 0, x = 0, o = 0, ins = 0;
        for (int i = 0; i < n; ++i)
        {
            const auto v = static_cast<N>(i + 2);
            if (k[i] == 0) { if (l.pi_at(ins) != v || !l.is_pi(v)) { return false; } ++ins; } else if (l.is_pi(v)) { return false; }
            if (l.is_dead(v) == in[i] || l.is_wire(v) != wire(i)) { return false; }
            if (!in[i]) { if (!l.get_tile(v).is_dead()) { return false; } continue; }
            if (l.get_tile(v) != t[i] || l.get_node(t[i]) != v || l.get_node(sg(t[i])) != v || l.make_signal(v) != sg(t[i]) || l.is_empty_tile(t[i])) { return false; }
            (wire(i) ? w : g) += 1;
            for (int j = 0; j < i; ++j) { if (in[j] && t[j].x == t[i].x && t[j].y == t[i].y && (wire(i) || wire(j))) { ++x; } }
            if (k[i] == 3) { ++o; bool f = false; for (uint32_t j = 0; j < l.num_pos(); ++j) { f |= l.po_at(j) == sg(t[i]); } if (!f || !l.is_po(v)) { return false; } }
            else if (l.is_po(v)) { return false; }
        }
        return l.num_wires() == w && l.num_gates() == g && l.num_crossings() == x && l.num_pos() == o && l.num_pis() == ins && l.size() == static_cast<uint32_t>(n + 2) &&
            l.is_empty() == (w + g == 0) && !l.is_dead(0) && !l.is_dead(1);
    }
};
static bool same(const std::vector<C>& a, const C* b, int n) { if (a.size() != static_cast<std::size_t>(n)) { return false; } for (int i = 0; i < n; ++i) { if (!(a[i] == b[i])) { return false; } } return true; }
static bool adj(const C& a, const C& b) { const int64_t dx = static_cast<int64_t>(a.x) - static_cast<int64_t>(b.x), dy = static_cast<int64_t>(a.y) - static_cast<int64_t>(b.y); return (dx == 0 && (dy == 1 || dy == -1)) || (dy == 0 && (dx == 1 || dx == -1)); }
"""
FNS = [("buf", 1, 2, "0x2"), ("not", 1, 3, "0x1"), ("and", 2, 4, "0x8"), ("nand", 2, 5, "0x7"), ("or", 2, 6, "0xe"), ("nor", 2, 7, "0x1"), ("lt", 2, 8, "0x2"), ("ge", 2, 9, "0xd"),
       ("gt", 2, 10, "0x4"), ("le", 2, 11, "0xb"), ("xor", 2, 12, "0x6"), ("xnor", 2, 13, "0x9"), ("maj", 3, 14, "0xe8")]


def run(c):
    w = Wit(c, "c28", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    M = 1 << 30
    R = {k: (0, M) for k in ("w", "h", "x", "y", "u", "v", "i", "j", "a", "b")} | {k: (0, 1) for k in ("z", "zu", "zi", "za")}
    for f, n, lit, tt in FNS:
        args = ", ".join(["p", "q", "r"][:n])
        others = " && ".join(f"l.is_{g}(n) == {'true' if g == f or (g, f) == ('x', 'y') else 'false'}" for g, *_ in [(x[0],) for x in FNS if x[0] != "not"])
        inv = "l.is_inv(n) == " + ("true" if f == "not" else "false")
        w.ob(f"create_{f}", "int x, int y, int z", f"""GL l{{C{{{M}, {M}, 1}}, "n"}}; const C t{{x, y, z}}; const auto p = l.create_pi("p", C{{{M}, 0}}), q = l.create_pi("q", C{{{M}, 1}}), r = l.create_pi("r", C{{{M}, 2}});
            const auto s = l.create_{f}({args}, t); const N n = l.get_node(s); const auto fn = l.node_function(n); return s == sg(t) && n == 5 && {others} && {inv} && fn.num_vars() == {n} && fn.bits == {tt} &&
            l.is_gate(n) && l.is_gate_tile(t) && !l.is_pi(n) && !l.is_pi_tile(t) && !l.is_po(n) && l.is_wire_tile(t) == {'true' if f == 'buf' else 'false'} && l.is_pi(2) && l.is_pi(3) && l.is_pi(4) &&
            l.get_name(N{{3}}) == "q" && l.has_name(N{{2}}) && !l.has_name(n) && l.num_pis() == 3 && l.pi_at(1) == 3 && l.get_input_name(2) == "r" && l.value(n) == 0 && l.visited(n) == 0 &&
            l.is_function(n) && !l.is_constant(n) && l.is_wire(2) && l.get_layout_name() == "n" && l.num_gates() == {'0' if f == 'buf' else '1'} && l.num_wires() == {'4' if f == 'buf' else '3'};""",
             R | {"x": (0, M - 1)}, "create", anchor=A)
        tts = ["0xaa", "0xcc", "0xf0"][:n]
        w.ob(f"compute_{f}", "int x, int y", f"""GL l{{C{{{M}, {M}, 1}}, row_clocking<CL>()}}; const S p[3] = {{sg(C{{x, y}}), sg(C{{x + 1, y}}), sg(C{{x + 2, y}})}}; l.create_pi("p", C{{x + 1, y}}); l.create_pi("q", C{{x, y + 1}}); l.create_pi("r", C{{x + 1, y + 2}});
            l.replace_clocking_scheme(open_clocking<CL>()); l.assign_clock_number(C{{x + 1, y + 1}}, 1); const S ch[3] = {{sg(C{{x + 1, y}}), sg(C{{x, y + 1}}), sg(C{{x + 1, y + 2}})}};
            const auto s = l.create_{f}({", ".join(f"ch[{k}]" for k in range(n))}, C{{x + 1, y + 1}}); std::vector<kitty::dynamic_truth_table> in{{}};
            for (const auto m : {{{", ".join(tts)}}}) {{ kitty::dynamic_truth_table t{{3}}; t.bits = m; in.push_back(t); }} const auto r = l.compute(l.get_node(s), in.begin(), in.end());
            for (int k = 0; k < 8; ++k) {{ const bool e = (({tt} >> (k & {(1 << n) - 1})) & 1) != 0; if (kitty::get_bit(r, k) != e || l.compute(l.get_node(s), bits{{k, 0}}, bits{{k, {n}}}) != e) {{ return false; }} }} return r.num_vars() == 3 && l.fanin_size(l.get_node(s)) == {n};""",
             R | {"x": (0, M - 3), "y": (0, M - 3)}, "compute", anchor=A)
    w.ob("clone", "int x, int y, int z, int zi, int k", f"""x = 4 * x + 1; y = 4 * y + 2; GL l{{C{{{M}, {M}, 1}}, row_clocking<CL>(), "n"}}; const C t{{x, y, z}}, u{{x + 1, y, zi}}, v{{x, y + 1, z}}; l.create_pi("a", t); l.create_and(sg(t), sg(t), u); l.create_po(sg(u), "f", v);
        const GL d = l.clone(); GL e = l.clone(); world k0; k0.add(0, t); k0.add(2, u); k0.add(3, v); if (!k0.ok(l) || !k0.ok(d) || !k0.ok(e) || d.get_layout_name() != "n" || d.get_name(N{{2}}) != "a" || d.get_output_name(0) != "f") {{ return false; }}
        l.clear_tile(u); l.set_layout_name("m"); e.create_buf(sg(v), C{{x + 5, y, zi}}); e.move_node(2, C{{x + 7, y, z}}, {{}}); l.set_value(4, 3); e.set_visited(4, 5); l.assign_clock_number(t, 3); l.incr_trav_id();
        world k1 = k0; k1.clear(u); world k2 = k0; k2.add(1, C{{x + 5, y, zi}}); k2.move(0, C{{x + 7, y, z}});
        return k0.ok(d) && k1.ok(l) && k2.ok(e) && d.get_layout_name() == "n" && e.get_layout_name() == "n" && l.get_layout_name() == "m" && d.value(4) == 0 && l.value(4) == 3 && e.visited(4) == 5 && l.visited(4) == 0 &&
            d.get_clock_number(t) == 2 && l.get_clock_number(t) == 3 && d.trav_id() == 0 && l.trav_id() == 1 && d.is_and(3) && e.is_and(3) && d.x() == {M};""", R | {"x": (0, M // 4 - 9), "y": (0, M // 4 - 3)}, "clone", anchor=A)
    w.ob("made_from_clocked", "int x, int y, int z", f"""x = 4 * x + 1; y = 4 * y + 2; CL c{{C{{{M}, {M}, 1}}, row_clocking<CL>()}}; GL l{{c}}; const C t{{x, y, z}}; l.create_pi("a", t); l.create_pi("b", C{{x + 1, y, z}}); const auto s = l.create_ge(sg(t), sg(C{{x + 1, y, z}}), C{{x, y + 1, z}});
        return l.get_node(t) == 2 && l.is_pi(2) && l.is_wire(2) && s == sg(C{{x, y + 1, z}}) && l.is_ge(4) && !l.is_wire(4) && l.is_gate(4) && l.num_gates() == 1 && l.num_wires() == 2 && l.node_function(4).bits == 0xd && l.get_clock_number(t) == 2;""",
         R | {"x": (0, M // 4 - 9), "y": (0, M // 4 - 3)}, "clone", anchor=A)
    # positions: q relative to p, r relative to both; z by enumeration
    w.add("""struct pos { C p, q, r; };
static bool where(int e, int x, int y, int u, int v, int i, int j, pos& o)
{
    const int z = e & 1, zu = (e >> 1) & 1, zi = (e >> 2) & 1, c = (e >> 3) % 5, d = (e >> 3) / 5; const int M = 1 << 28;
    const int px = c == 2 ? x + 1 + u : x, qx = c == 0 || c == 2 ? x : c == 1 ? x + 1 + u : u, py = c == 4 ? y + 1 + v : y, qy = c == 3 ? y + 1 + v : y;
    o.p = C{px, M + py, z}; o.q = C{qx, M + qy, zu}; o.r = d == 0 ? C{px, M + py, zi} : d == 1 ? C{qx, M + qy, zi} : d == 2 ? C{i, 3 * M + 3 + j, zi} : C{i, j, zi}; return d <= 3;
}
static constexpr int CASES = 8 * 5 * 4; static constexpr S NONE = 0x8000000000000000ull;
""")
    Q = {k: (0, 1 << 27) for k in ("x", "y", "u", "v", "i", "j")} | {"e0": (0, 159)}
    G = "GL l{C{1 << 30, 1 << 30, 1}}; world k; "
    SIG = "int e0, int x, int y, int u, int v, int i, int j"
    for a in range(4):
        for b in range(4):
            L = G + "int e = 0; while (e < e0) { ++e; } pos o; if (!where(e, x, y, u, v, i, j, o)) { return true; } " + f"mk(l, {a}, o.p, NONE, NONE); k.add({a}, o.p); mk(l, {b}, o.q, sg(o.p), sg(o.p)); k.add({b}, o.q); "
            if not c.thorough and (a, b) not in ((0, 0), (0, 2), (1, 1), (1, 3), (2, 0), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)):
                continue
            w.ob(f"clear_{a}{b}", SIG, L + "if (!k.ok(l)) { return false; } l.clear_tile(o.r); k.clear(o.r); if (!k.ok(l)) { return false; } return true;", Q, "clear", anchor=A, limit=150)
            w.ob(f"move_{a}{b}", SIG, L + "if (!k.in[0]) { return true; } const auto s = l.move_node(2, o.r, {}); k.move(0, o.r); if (s != sg(o.r) || !k.ok(l)) { return false; } return true;", Q, "move", anchor=A,
                 limit=150)
            for d in range(4) if c.thorough or (a, b) in ((1, 1), (2, 2), (3, 2), (2, 3)) else ():
                w.ob(f"third_{a}{b}{d}", SIG, L + f"mk(l, {d}, o.r, sg(o.q), sg(o.p)); k.add({d}, o.r); if (!k.ok(l)) {{ return false; }} return true;", Q, "place", anchor=A, limit=150)
    # connections: a node at (x + 1, y + 1, zc) with two children next to it or farther away
    w.add("""static bool at(int d, int x, int y, int z, C& o) { const int64_t X = int64_t{x} + 1, Y = int64_t{y} + 1; switch (d) { case 0: o = C{X, Y - 1, z}; return true; case 1: o = C{X + 1, Y, z}; return true;
    case 2: o = C{X, Y + 1, z}; return true; case 3: o = C{X - 1, Y, z}; return true; default: o = C{X + 1, Y + 1, z}; return true; } }
struct net { C n, p, q; int dp, dq; };
static bool net_of(int e, int x, int y, net& o)
{
    o.dp = (e >> 3) % 5; o.dq = (e >> 3) / 5; at(o.dp, x, y, (e >> 1) & 1, o.p); at(o.dq, x, y, (e >> 2) & 1, o.q); o.n = C{int64_t{x} + 1, int64_t{y} + 1, e & 1}; return !(o.dp == o.dq && ((e >> 1) & 1) == ((e >> 2) & 1));
}
static bool inc(int sch, int d) { return sch == 0 ? d == 0 || d == 3 : d == 0; }
static bool outg(int sch, int d) { return sch == 0 ? d == 1 || d == 2 : d == 2; }
template <bool RC> static bool dirs(const GL& l, const C& t, const bool* in, const bool* out)
{
    return l.has_northern_incoming_signal<RC>(t) == in[0] && l.has_eastern_incoming_signal<RC>(t) == in[1] && l.has_southern_incoming_signal<RC>(t) == in[2] && l.has_western_incoming_signal<RC>(t) == in[3] &&
        l.has_northern_outgoing_signal<RC>(t) == out[0] && l.has_eastern_outgoing_signal<RC>(t) == out[1] && l.has_southern_outgoing_signal<RC>(t) == out[2] && l.has_western_outgoing_signal<RC>(t) == out[3] &&
        l.has_no_incoming_signal<RC>(t) == !(in[0] || in[1] || in[2] || in[3]) && l.has_no_outgoing_signal<RC>(t) == !(out[0] || out[1] || out[2] || out[3]) &&
        l.has_opposite_incoming_and_outgoing_signals<RC>(t) == ((in[0] && out[2]) || (in[2] && out[0]) || (in[1] && out[3]) || (in[3] && out[1]));
}
template <bool RC> static bool fans(const GL& l, N n, const S* e, int k) { std::vector<S> g{}; auto f = [&g](const S& s) { g.push_back(s); }; l.foreach_fanin<decltype(f), RC>(n, std::move(f)); if (g.size() != static_cast<std::size_t>(k) || l.fanin_size<RC>(n) != static_cast<uint32_t>(k)) { return false; } const auto df = l.incoming_data_flow<RC>(l.get_tile(n)); if (df.size() != g.size()) { return false; } for (int i = 0; i < k; ++i) { if (g[i] != e[i] || sg(df[i]) != e[i]) { return false; } } return true; }
template <bool RC> static bool outs(const GL& l, N n, N m, bool yes) { std::vector<N> g{}; auto f = [&g](const N& s) { g.push_back(s); }; l.foreach_fanout<decltype(f), RC>(n, std::move(f)); const auto df = l.outgoing_data_flow<RC>(l.get_tile(n)); return g.size() == (yes ? 1u : 0u) && l.fanout_size<RC>(n) == g.size() && df.size() == g.size() && (!yes || (g[0] == m && df[0] == l.get_tile(m))); }
static bool wired(const GL& l, int sch, const net& o, N n, N p, N q, bool cp, bool cq)
{
    S e[2]; int k = 0; S u[2]; int m = 0;
    if (cp && inc(sch, o.dp)) { e[k++] = sg(o.p); } if (cq && inc(sch, o.dq)) { e[k++] = sg(o.q); }
    if (cp && o.dp < 4) { u[m++] = sg(o.p); } if (cq && o.dq < 4) { u[m++] = sg(o.q); }
    return fans<true>(l, n, e, k) && fans<false>(l, n, u, m) && outs<true>(l, p, n, cp && inc(sch, o.dp)) && outs<true>(l, q, n, cq && inc(sch, o.dq)) && outs<false>(l, p, n, cp && o.dp < 4) && outs<false>(l, q, n, cq && o.dq < 4) && !l.is_dead(n) && !l.is_dead(p) && !l.is_dead(q) && !l.is_dead(0) && !l.is_dead(1);
}
""")
    K = {"k": (0, M // 4), "l0": (0, M // 4), "e0": (0, 199)}
    for sch, f in ((0, "twoddwave_clocking<CL>()"), (1, "row_clocking<CL>()")):
        L = f"GL l{{C{{(1 << 30) + 9, (1 << 30) + 9, 1}}, {f}}}; const int x = 4 * k + 1, y = 4 * l0 + 2; int e = 0; while (e < e0) {{ ++e; }} net o; if (!net_of(e, x, y, o)) {{ return true; }} l.create_pi(\"p\", o.p); l.create_pi(\"q\", o.q); "
        for nm, mkn, cp, cq in (("and", "l.create_and(sg(o.p), sg(o.q), o.n); ", 1, 1), ("rev", "l.create_and(sg(o.q), sg(o.p), o.n); ", 2, 2), ("connect", "l.create_buf(sg(o.p), o.n); l.connect(sg(o.q), 4); ", 1, 1),
                                ("moved", "l.create_and(sg(o.q), sg(o.p), C{o.n.x, o.n.y + 2, 0}); if (l.move_node(4, o.n, {sg(o.p)}) != sg(o.n)) { return false; } ", 1, 0),
                                ("reconnected", "l.create_buf(sg(o.q), C{o.n.x, o.n.y + 2, 0}); l.connect(sg(o.p), 4); l.move_node(4, o.n, {sg(o.p), sg(o.q)}); ", 1, 1),
                                ("refreshed", "l.create_buf(sg(o.q), o.n); l.connect(sg(o.p), 4); l.move_node(4, o.n, {sg(o.q)}); ", 0, 1)):
            if not c.thorough and nm not in (("and", "connect", "refreshed") if sch == 0 else ("rev", "moved", "reconnected")):
                continue
            if nm == "rev":
                body = L + mkn + "net r{o.n, o.q, o.p, o.dq, o.dp}; return wired(l, %d, r, 4, 3, 2, true, true);" % sch
            else:
                body = L + mkn + f"return wired(l, {sch}, o, 4, 2, 3, {str(bool(cp)).lower()}, {str(bool(cq)).lower()});"
            w.ob(f"{nm}_{sch}", "int e0, int k, int l0", body, K, "fanin", anchor=A, limit=150)
        if c.thorough or sch:
          w.ob(f"stale_{sch}", "int e0, int k, int l0", L + "l.create_buf(sg(o.p), o.n); const C far{o.n.x + 3, o.n.y + 3, 0}; l.move_node(2, far, {}); l.create_pi(\"r\", o.p); l.move_node(4, C{o.n.x + 5, o.n.y, 0}, {}); "
             "l.move_node(4, o.n, {sg(o.p), sg(o.q)}); return !l.is_dead(2) && l.get_tile(2) == far && wired(l, %d, o, 4, 5, 3, true, true);" % sch, K, "fanin", anchor=A, limit=200)
          w.ob(f"dangling_{sch}", "int e0, int k, int l0", L + "l.create_buf(sg(o.p), o.n); l.connect(sg(o.q), 4); l.clear_tile(o.p); const S g[1] = {sg(o.q)}; if (!fans<true>(l, 4, g, inc(%d, o.dq)) || "
             "!fans<false>(l, 4, g, o.dq < 4)) { return false; } l.move_node(4, o.n, {sg(o.q)}); return l.is_dead(2) && !l.is_dead(0) && !l.is_dead(3) && !l.is_dead(4) && fans<false>(l, 4, g, o.dq < 4);" % sch, K, "fanin", anchor=A, limit=200)
        # one node in, one node out
        w.ob(f"directions_{sch}", "int e0, int k, int l0", L.replace('l.create_pi("q", o.q); ', "") + f"l.create_buf(sg(o.p), o.n); l.create_buf(sg(o.n), o.q); bool in[5]{{}}, out[5]{{}}, ia[5]{{}}, oa[5]{{}}; in[o.dp] = inc({sch}, o.dp); "
             f"ia[o.dp] = o.dp < 4; out[o.dq] = outg({sch}, o.dq); oa[o.dq] = o.dq < 4; return dirs<true>(l, o.n, in, out) && dirs<false>(l, o.n, ia, oa);", K, "directions", anchor=A, limit=200)
    w.run()
