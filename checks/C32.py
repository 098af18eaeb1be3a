"""C32: textual form of coordinates and ports."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/coordinates.hpp"
P = "include/fiction/technology/cell_ports.hpp"
META = dict(
    title="Coordinates and ports print their components in order",
    statement="The textual form of a coordinate, from str() and from the formatter alike, is its x, y and z component in this order in decimal, separated by "
              "commas and enclosed in parentheses. A port position prints as its x and y component in the same style, a port direction as the abbreviation of its "
              "cardinal direction (N, NE, E, SE, S, SW, W, NW; ? for none), and a port list prints its input ports, then its output ports.",
    forall="all coordinates with one-digit components (negative ones included) and all two-component choices of a set of long values up to the type's limits; all port "
           "positions of one-digit components; all directions; lists of up to two ports",
    why="file writers and messages rely on the form; a swapped component shows only in output nobody compares",
    files=[A, P],
    mechanism=["str() @ " + A + ":298,547,784", "formatter of ucoord_t, coord_t (cube, SiQAD) @ " + A + ":1092-1144", "formatters of ports @ " + P + ":273-375"],
    technique="abstract interpretation of LLVM IR over witness units (symbolic digits), with a stand-in for the formatting library",
    note="The formatting library is replaced by stubs/fmtmini (replacement fields without options, decimal integers); components are symbolic digits or chosen constants.",
)
PRE = r"""
#include "rbtree.inc"
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_ports.hpp>
#include <cstdint>
#include <string>
using U = fiction::offset::ucoord_t; using K = fiction::cube::coord_t; using S = fiction::siqad::coord_t;
using PP = fiction::port_position; using PD = fiction::port_direction; using L = fiction::port_list<PP>; using LD = fiction::port_list<PD>;
template <class T> static std::string text(const T& t) { std::string s; fmt::mini_ctx c{&s}; fmt::formatter<T> f; fmt::mini_parse p{"}"}; if (f.parse(p) != p.b) { return "!"; } f.format(t, c); return s; }
static bool is(const std::string& s, const char* t, unsigned n)
{
    if (s.size() != n) { return false; }
    for (unsigned i = 0; i < n; ++i) { if (s[i] != t[i]) { return false; } }
    return true;
}
// a digit with an optional sign, written to b
static unsigned num(char* b, int v) { unsigned n = 0; if (v < 0) { b[n++] = '-'; v = -v; } b[n++] = static_cast<char>('0' + v); return n; }
static unsigned lit(char* b, const char* t) { unsigned n = 0; while (t[n]) { b[n] = t[n]; ++n; } return n; }
template <class C> static bool both(const C& c, int x, int y, int z)
{
    char b[16]; unsigned n = 0; b[n++] = '('; n += num(b + n, x); b[n++] = ','; n += num(b + n, y); b[n++] = ','; n += num(b + n, z); b[n++] = ')';
    return is(c.str(), b, n) && is(text(c), b, n);
}
template <class C> static bool both(const C& c, const char* t) { unsigned n = 0; while (t[n]) { ++n; } return is(c.str(), t, n) && is(text(c), t, n); }
static unsigned pos(char* b, int x, int y) { unsigned n = 0; b[n++] = '('; n += num(b + n, x); b[n++] = ','; n += num(b + n, y); b[n++] = ')'; return n; }
"""


def run(c):
    w = Wit(c, "c32", PRE, A, flags=["-I", os.path.join(vf.STUBS, "fmtmini"), "-D_GLIBCXX_EXTERN_TEMPLATE=0"])
    D9 = (0, 9)
    w.ob("offset", "uint32_t x, uint32_t y, uint32_t z", "return both(U{x, y, z}, int(x), int(y), int(z));", {"x": D9, "y": D9, "z": (0, 1)}, "components-in-order")
    w.ob("offset_dead", "uint32_t x, uint32_t y, uint32_t z", "return both(U{x, y, z}.get_dead(), int(x), int(y), int(z));", {"x": D9, "y": D9, "z": (0, 1)}, "components-in-order")
    for nm, neg in (("pos", False), ("neg", True)):
        r = (-9, -1) if neg else D9
        w.ob("cube_" + nm, "int32_t x, int32_t y, int32_t z", "return both(K{x, y, z}, x, y, z);", {"x": r, "y": r, "z": r}, "components-in-order")
        w.ob("cube_mixed_" + nm, "int32_t x, int32_t y, int32_t z", "return both(K{x, y, z}, x, y, z);", {"x": r, "y": D9 if neg else (-9, -1), "z": r}, "components-in-order")
        w.ob("siqad_" + nm, "int32_t x, int32_t y, int32_t z", "return both(S{x, y, z}, x, y, z);", {"x": r, "y": r, "z": (0, 1)}, "components-in-order")
        w.ob("siqad_mixed_" + nm, "int32_t x, int32_t y, int32_t z", "return both(S{x, y, z}, x, y, z);", {"x": r, "y": D9 if neg else (-9, -1), "z": (0, 1)}, "components-in-order")
    for i, (x, y) in enumerate([(10, 7), (7, 10), (123, 40), (2147483647, 1000000000), (99, 2147483647)]):
        w.ob(f"offset_long_{i}", "bool z", f"return both(U{{{x}u, {y}u, z}}, z ? \"({x},{y},1)\" : \"({x},{y},0)\");", {}, "components-in-order")
        w.ob(f"siqad_long_{i}", "bool z", f"return both(S{{{x}, {-y}, z}}, z ? \"({x},{-y},1)\" : \"({x},{-y},0)\");", {}, "components-in-order")
        w.ob(f"cube_long_{i}", "", f"return both(K{{{-x}, {y}, {x - 50}}}, \"({-x},{y},{x - 50})\");", {}, "components-in-order")
    w.ob("port_position", "uint16_t x, uint16_t y, bool i, bool o", "char b[16]; const unsigned n = pos(b, x, y); return is(text(PP{x, y, i, o}), b, n);",
         {"x": D9, "y": D9}, "components-in-order", anchor=P)
    for i, n in enumerate(["N", "NE", "E", "SE", "S", "SW", "W", "NW", "?"]):
        w.ob(f"port_direction_{i}", "bool i, bool o", f"return is(text(PD{{static_cast<PD::cardinal>({i}), i, o}}), \"{n}\", {len(n)});", {}, "direction-abbreviation", anchor=P)
    w.ob("port_list", "uint16_t x, uint16_t y, uint16_t u, uint16_t v", "const L l{{PP{x, y}}, {PP{u, v}}}; char b[40]; unsigned n = lit(b, \"inp: \"); n += pos(b + n, x, y); n += "
         "lit(b + n, \", out: \"); n += pos(b + n, u, v); return is(text(l), b, n);", {"x": D9, "y": D9, "u": D9, "v": D9}, "inputs-then-outputs", anchor=P)
    w.ob("port_list_2", "uint16_t x, uint16_t y", "const L l{{PP{1, x}, PP{2, y}}, {}}; char b[40]; unsigned n = lit(b, \"inp: \"); n += pos(b + n, 1, x); n += lit(b + n, \", \"); n += "
         "pos(b + n, 2, y); n += lit(b + n, \", out: \"); return is(text(l), b, n);", {"x": D9, "y": D9}, "inputs-then-outputs", anchor=P)
    w.ob("port_list_dir", "", "const LD l{{PD{PD::NORTH}, PD{PD::WEST}}, {PD{PD::SOUTH_EAST}}}; return is(text(l), \"inp: N, W, out: SE\", 18);", {}, "inputs-then-outputs", anchor=P)
    w.run()
