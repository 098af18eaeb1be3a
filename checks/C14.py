"""C14: ports."""
from vf import Wit

A = "include/fiction/technology/cell_ports.hpp"
META = dict(
    title="Port order, equality and list merging look at the right components",
    statement="Port positions are equal exactly when both coordinates agree and are ordered by x, then y; port directions are equal "
              "exactly when their cardinal directions agree and are ordered by them; the pi and po flags take no part in either. A port "
              "keeps the components and flags it is constructed with (default flags false), and the nine cardinal directions are "
              "numbered 0 (north) to 8 (none) clockwise. Two port lists are equal exactly when their input ports and their output ports "
              "are equal, and adding a list to another leaves the first with exactly the input ports of both as inputs and the "
              "output ports of both as outputs.",
    forall="all 16-bit positions, all directions, all flags; lists of up to two inputs and two outputs",
    why="gate libraries are looked up by port lists; a mixed-up component shows only for particular pairs of ports",
    files=[A],
    mechanism=["port_position, port_direction, port_list @ " + A + ":25-165"],
    technique="abstract interpretation of LLVM IR over witness units (ordered sets included)",
    note="Proved for all positions, directions and flags; lists are bounded to two inputs and two outputs; trusts clang and lib/.",
)


def run(c):
    w = Wit(c, "c14", "#include \"rbtree.inc\"\n#include <fiction/technology/cell_ports.hpp>\n#include <cstdint>\n"
            "using PP = fiction::port_position; using PD = fiction::port_direction; using L = fiction::port_list<PP>; using LD = "
            "fiction::port_list<PD>;\nstatic inline PD d(uint8_t v, bool i, bool o) { return PD{static_cast<PD::cardinal>(v), i, o}; }", A)
    p4 = "uint16_t x, uint16_t y, uint16_t u, uint16_t v, bool i, bool o, bool j, bool q"
    pre = "const PP a{x, y, i, o}; const PP b{u, v, j, q}; "
    w.ob("pos_eq", p4, pre + "return (a == b) == (x == u && y == v) && (a != b) == !(x == u && y == v);", {}, "equality")
    w.ob("pos_lt", p4, pre + "return (a < b) == (x < u || (x == u && y < v));", {}, "order")
    w.ob("pos_ctor", "uint16_t x, uint16_t y, bool i, bool o", "const PP a{x, y, i, o}; const PP b{x, y}; const PP e{x, y, i}; const PP f{}; "
         "return a.x == x && a.y == y && a.pi == i && a.po == o && b.x == x && b.y == y && !b.pi && !b.po && e.pi == i && !e.po && e.x == x "
         "&& e.y == y && f.x == 0 && f.y == 0 && !f.pi && !f.po;", {}, "fields-kept")
    d4 = "uint8_t a, uint8_t b, bool i, bool o, bool j, bool q"
    w.ob("dir_eq", d4, "return (d(a, i, o) == d(b, j, q)) == (a == b) && (d(a, i, o) != d(b, j, q)) == (a != b);", {}, "equality")
    w.ob("dir_lt", d4, "return (d(a, i, o) < d(b, j, q)) == (a < b);", {}, "order")
    w.ob("dir_ctor", "uint8_t a, bool i, bool o", "const PD p{static_cast<PD::cardinal>(a), i, o}; const PD r{static_cast<PD::cardinal>(a)}; "
         "const PD t{static_cast<PD::cardinal>(a), i}; return p.dir == a && p.pi == i && p.po == o && r.dir == a && !r.pi && !r.po && t.pi "
         "== i && !t.po && t.dir == a;", {}, "fields-kept")
    w.ob("dir_enum", "", "return PD::NORTH == 0 && PD::NORTH_EAST == 1 && PD::EAST == 2 && PD::SOUTH_EAST == 3 && PD::SOUTH == 4 && "
         "PD::SOUTH_WEST == 5 && PD::WEST == 6 && PD::NORTH_WEST == 7 && PD::NONE == 8;", {}, "enumerators")
    b2 = "uint16_t a, uint16_t b, uint16_t e, uint16_t f"
    w.ob("list_eq", b2, "const L l{{PP{a, 1}}, {PP{b, 2}}}; const L m{{PP{e, 1}}, {PP{f, 2}}}; return (l == m) == (a == e && b == f);", {},
         "list-equality")
    w.ob("list_eq_size", "uint16_t a, uint16_t b", "const L l{{PP{a, 1}}, {PP{b, 2}}}; const L m{{PP{a, 1}}, {}}; const L n{{}, {PP{b, 2}}}; "
         "const L o{{PP{b, 2}}, {PP{a, 1}}}; return !(l == m) && !(l == n) && !(l == o) && !(m == n) && !(m == L{}) && L{} == L{};", {},
         "list-equality")
    w.ob("list_ctor", "uint16_t a, uint16_t b", "const L l{{PP{a, 1}}, {PP{b, 2}}}; return l.inp.size() == 1 && l.out.size() == 1 && "
         "*l.inp.begin() == PP{a, 1} && *l.out.begin() == PP{b, 2};", {}, "list-fields")
    for t, mk, nm in (("L", "PP{%s, 1}", "pos"), ("LD", "d(static_cast<uint8_t>(%s), false, false)", "dir")):
        ty = "uint16_t" if t == "L" else "uint8_t"
        A_, B_, E_, F_ = (mk % x for x in "abef")
        w.ob("merge_" + nm, f"{ty} a, {ty} b, {ty} e, {ty} f",
             f"{t} l{{{{{A_}}}, {{{B_}}}}}; {t} m{{{{{E_}}}, {{{F_}}}}}; {t}& r = (l += m); return &r == &l && l.inp.size() == (a == e ? 1u : "
             f"2u) && l.out.size() == (b == f ? 1u : 2u) && l.inp.count({A_}) == 1 && l.inp.count({E_}) == 1 && l.out.count({B_}) == 1 && "
             f"l.out.count({F_}) == 1;", {}, "merge-is-union")
    w.ob("merge_2", b2, "L l{{PP{a, 1}, PP{b, 1}}, {}}; L m{{PP{e, 1}}, {PP{f, 2}}}; l += m; const unsigned n = a == b ? (e == a ? 1u : 2u) "
         ": ((e == a || e == b) ? 2u : 3u); return l.inp.size() == n && l.out.size() == 1 && l.inp.count(PP{a, 1}) == 1 && "
         "l.inp.count(PP{b, 1}) == 1 && l.inp.count(PP{e, 1}) == 1 && l.out.count(PP{f, 2}) == 1;", {}, "merge-is-union")
    w.ob("merge_empty", "uint16_t a, uint16_t b", "L l{}; L m{{PP{a, 1}}, {PP{b, 2}}}; const L k{m}; l += m; L e{}; L g{k}; g += e; return l == "
         "k && g == k;", {}, "merge-is-union")
    w.run()
