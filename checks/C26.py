"""C26: hexagonal and shifted Cartesian layout topology."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/hexagonal_layout.hpp"
B = "include/fiction/layouts/shifted_cartesian_layout.hpp"
META = dict(
    title="Hexagonal and shifted Cartesian layouts have their drawn topology",
    statement="In hexagonal and shifted Cartesian layouts the tiles are arranged as drawn in the documentation (in the odd (even) row systems each odd"
              " (even) row is shifted to the right by half a tile, in the odd (even) column systems each such column is shifted downwards), and the "
              "diagonal, horizontal and vertical neighbours of a tile are the tiles this arrangement puts there, or the tile itself if there is none "
              "in the layout. Tiles are adjacent exactly if they touch in this arrangement and lie in the same layer (across elevation, layers may "
              "differ by one), the adjacent tiles enumerated are exactly these, once each, and the opposite pairs enumerated are those on a straight "
              "line through the tile. Cube coordinates sum to zero and convert back to the same tile; borders, border projections, bounds, layers, row"
              " and column parity, size, and iteration agree with the coordinates.",
    forall="all tiles and tile pairs of all layouts with up to 2^30 columns and rows and two layers, in each of the four arrangements of both layout kinds; "
           "iteration: all layouts of up to 3 x 3 x 2 tiles",
    why="routing, the hexagonalization of layouts, and SiDB gate placement rely on this at borders and for both parities, which no test enumerates",
    files=[A, B],
    mechanism=["cardinal operations @ " + A + ":300-470", "enumeration @ " + A + ":840-1000", "cube conversion @ " + A + ":1005-1080",
               "arrangements @ " + B + ":95-150"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic layout size and tiles",
    note="Tiles are within bounds. mockturtle's iteration helper is replaced by a stand-in.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]
PRE = """#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <cstdint>
#include <vector>
using namespace fiction;
using I = int64_t;
using C = offset::ucoord_t;
using Q = cube::coord_t;
static bool is(const C& c, I x, I y, I z) { return !c.is_dead() && static_cast<I>(c.x) == x && static_cast<I>(c.y) == y && static_cast<I>(c.z) == z; }
static bool step(const C& r, I x, I y, I z, I dx, I dy, I dz, I w, I h, I d)
{
    const I u = x + dx, v = y + dy, t = z + dz;
    return u >= 0 && u <= w && v >= 0 && v <= h && t >= 0 && t <= d ? is(r, u, v, t) : is(r, x, y, z);
}
"""


def run(c):
    w = Wit(c, "c26", PRE, A, flags=FLAGS)
    M = 1 << 30
    R = {k: (0, 1) if k in "dztb" else (0, M) for k in "whdxyzuvtkb"} | {"k": (0, M // 2 - 1)}
    kinds = []
    for row in (1, 0):
        for par in (1, 0):
            n = f"{'odd' if par else 'even'}_{'row' if row else 'column'}"
            kinds.append((n + "_hex", f"hexagonal_layout<C, {n}_hex>", row, par, A))
            kinds.append((n + "_cartesian", f"shifted_cartesian_layout<C, {n}_cartesian>", row, par, B))
    for t, L, row, par, f in kinds:
        hexa = f == A
        # the row or column index whose parity matters is given as 2k + b
        sg = f"int w, int h, int d, int {'x' if row else 'y'}, int k, int b, int z"
        sg2 = sg + ", int u, int v, int t"
        pre0 = f"const int {'y' if row else 'x'} = 2 * k + b; "
        pre = pre0 + "if (x > w || y > h || z > d) return true; "
        pre2 = pre + "if (u > w || v > h || t > d) return true; "
        mk = f"const {L} l{{C{{w, h, d}}}}; const C c{{x, y, z}}; const I s = ({'y' if row else 'x'} % 2) == {par} ? 1 : 0; "
        if row:
            diag = {"north_east": ("s", "-1"), "north_west": ("s - 1", "-1"), "south_east": ("s", "1"), "south_west": ("s - 1", "1")}
            six = dict(diag, east=("1", "0"), west=("-1", "0"))
            straight = [("east", "west"), ("north_east", "south_west"), ("north_west", "south_east")]
        else:
            diag = {"north_east": ("1", "s - 1"), "south_east": ("1", "s"), "north_west": ("-1", "s - 1"), "south_west": ("-1", "s")}
            six = dict(diag, north=("0", "-1"), south=("0", "1"))
            straight = [("north", "south"), ("north_east", "south_west"), ("north_west", "south_east")]
        alld = dict(diag, east=("1", "0"), west=("-1", "0"), north=("0", "-1"), south=("0", "1"))
        for n, (dx, dy) in alld.items():
            w.ob(f"{t}_{n}", sg, pre + mk + f"return step(l.{n}(c), x, y, z, {dx}, {dy}, 0, w, h, d);", R, "step", anchor=f)
        inb = lambda n: "(x + ({0}) >= 0 && x + ({0}) <= w && y + ({1}) >= 0 && y + ({1}) <= h)".format(*six[n])
        at = lambda n, q: "is({2}, x + ({0}), y + ({1}), z)".format(*six[n], q)
        adj = "(" + " || ".join("(dx == ({}) && dy == ({}))".format(*v) for v in six.values()) + ")"
        mk2 = mk + "const C e{u, v, t}; const I dx = I{u} - x, dy = I{v} - y, dz = I{t} - z; "
        w.ob(f"{t}_is_adjacent_of", sg2, pre2 + mk2 + f"return l.is_adjacent_of(c, e) == (dz == 0 && {adj});", R, "relation", anchor=f)
        w.ob(f"{t}_is_adjacent_elevation_of", sg2, pre2 + mk2 + f"return l.is_adjacent_elevation_of(c, e) == (dz >= -1 && dz <= 1 && {adj});", R,
             "relation", anchor=f, limit=150)
        w.ob(f"{t}_adjacent", sg, pre + mk + "const auto a = l.adjacent_coordinates(c); std::vector<C> f{}; "
             "l.foreach_adjacent_coordinate(c, [&f](const auto& n) { f.push_back(n); }); bool f6[6] = {}; std::size_t i = 0; for (const auto& q : a) { "
             "if (i >= f.size() || !(q == f[i])) { return false; } ++i; bool* m = " + "".join(f"{at(n, 'q')} ? f6 + {i} : " for i, n in enumerate(six)) +
             "nullptr; if (m == nullptr || *m) { return false; } *m = true; } return i == f.size() && " +
             " && ".join(f"f6[{i}] == {inb(n)}" for i, n in enumerate(six)) + ";", R, "adjacency-list", anchor=f, limit=150)
        w.ob(f"{t}_opposite", sg, pre + mk + "const auto a = l.adjacent_opposite_coordinates(c); std::vector<std::pair<C, C>> f{}; "
             "l.foreach_adjacent_opposite_coordinates(c, [&f](const auto& n) { f.push_back(n); }); bool f3[3] = {}; if (a.size() != f.size()) { return false; } "
             "for (const auto& q : a) { bool* m = " +
             "".join(f"(({at(p, 'q.first')} && {at(o, 'q.second')}) || ({at(o, 'q.first')} && {at(p, 'q.second')})) ? f3 + {i} : "
                     for i, (p, o) in enumerate(straight)) +
             "nullptr; if (m == nullptr || *m) { return false; } *m = true; } return " +
             " && ".join(f"f3[{i}] == ({inb(p)} && {inb(o)})" for i, (p, o) in enumerate(straight)) + ";", R, "opposites", anchor=f, limit=150)
        if hexa:
            w.ob(f"{t}_cube", f"int {'x' if row else 'y'}, int k, int b", pre0 + f"const {L} l{{}}; const auto q = l.to_cube_coordinate(C{{x, y}}); return I{{q.x}} + q.y + q.z == 0 && "
                 "is(l.to_offset_coordinate(q), x, y, 0);", R, "cube", anchor=f)
        if t not in ("odd_row_hex", "even_column_cartesian"):
            continue
        # independent of the arrangement
        for n, dz in (("above", 1), ("below", -1)):
            w.ob(f"{t}_{n}", sg, pre + mk + f"return step(l.{n}(c), x, y, z, 0, 0, {dz}, w, h, d);", R, "step", anchor=f)
        for n, e in (("is_north_of", "dx == 0 && dy == -1 && dz == 0"), ("is_east_of", "dx == 1 && dy == 0 && dz == 0"),
                     ("is_south_of", "dx == 0 && dy == 1 && dz == 0"), ("is_west_of", "dx == -1 && dy == 0 && dz == 0"),
                     ("is_above", "dx == 0 && dy == 0 && dz == 1"), ("is_below", "dx == 0 && dy == 0 && dz == -1"),
                     ("is_northwards_of", "dx == 0 && dy < 0 && dz == 0"), ("is_eastwards_of", "dx > 0 && dy == 0 && dz == 0"),
                     ("is_southwards_of", "dx == 0 && dy > 0 && dz == 0"), ("is_westwards_of", "dx < 0 && dy == 0 && dz == 0")):
            w.ob(f"{t}_{n}", sg2, pre2 + mk2 + f"return l.{n}(c, e) == ({e});", R, "relation", anchor=f)
        w.ob(f"{t}_parity", sg, pre + mk + "return l.is_in_odd_row(c) == (y % 2 == 1) && l.is_in_even_row(c) == (y % 2 == 0) && l.is_in_odd_column(c) == "
             "(x % 2 == 1) && l.is_in_even_column(c) == (x % 2 == 0);", R, "parity", anchor=f)
        w.ob(f"{t}_borders", sg, pre + mk + "return l.is_at_northern_border(c) == (y == 0) && l.is_at_southern_border(c) == (y == h) && "
             "l.is_at_western_border(c) == (x == 0) && l.is_at_eastern_border(c) == (x == w) && l.is_at_any_border(c) == (x == 0 || x == w || y == 0 || y == h);",
             R, "border", anchor=f)
        w.ob(f"{t}_border_of", sg, pre + mk + "return is(l.northern_border_of(c), x, 0, z) && is(l.southern_border_of(c), x, h, z) && "
             "is(l.western_border_of(c), 0, y, z) && is(l.eastern_border_of(c), w, y, z);", R, "border", anchor=f)
        w.ob(f"{t}_layers", sg, pre0 + mk + "return l.is_ground_layer(c) == (z == 0) && l.is_crossing_layer(c) == (z > 0) && l.is_within_bounds(c) == "
             "(x <= w && y <= h && z <= d);", R, "bounds", anchor=f)
        w.ob(f"{t}_coord", "int x, int y, int z", f"const {L} l{{}}; return is(l.coord(x, y, z), x, y, z) && is(l.coord(x, y), x, y, 0);", R, "size", anchor=f)
        w.ob(f"{t}_size", "int w, int h, int d, int a, int b", f"{L} l{{C{{w, h, d}}}}; if (static_cast<I>(l.x()) != w || static_cast<I>(l.y()) != h || "
             "static_cast<I>(l.z()) != d || (w <= 1048576 && h <= 1048576 && l.area() != (static_cast<uint64_t>(w) + 1) * (static_cast<uint64_t>(h) + 1))) "
             f"return false; const {L} k = l.clone(), s = l; l.resize(C{{a, b, 0}}); return static_cast<I>(l.x()) == a && "
             "static_cast<I>(l.y()) == b && static_cast<I>(l.z()) == 0 && static_cast<I>(k.x()) == w && static_cast<I>(k.y()) == h && static_cast<I>(k.z()) == d && "
             "static_cast<I>(s.x()) == a && static_cast<I>(s.y()) == b;", dict(R, a=(0, M), b=(0, M)), "size", anchor=f)
        S = {k: (0, 1) for k in "dzt"} | {k: (0, 2) for k in "whxyuv"}
        S2 = {k: (0, 1) for k in "whdxyzuvtb"} | {"k": (0, 0)}
        body = """I A = x, B = y, G = z; bool ok = true; std::size_t n = 0; const auto nxt = [&]() { ++n; if (++A > w) { A = 0; if (++B > h) { B = 0; ++G; } } };
            const auto at = [&](const auto& q) { ok = ok && is(q, A, B, G); nxt(); }; %s
            if (!ok || A != u || B != v || G != t) { return false; } A = x; B = y; G = z; const auto m = n; n = 0;
            for (const auto& q : %s) { at(q); } return ok && n == m && A == u && B == v && G == t;"""
        sz = "int w, int h, int d"
        w.ob(f"{t}_all", sz, f"{L} l{{C{{0, 0, 0}}}}; l.resize(C{{w, h, d}}); const I x = 0, y = 0, z = 0, u = 0, v = 0, t = I{{d}} + 1; " +
             body % ("l.foreach_coordinate(at);", "l.coordinates()"), S, "iteration", limit=200, anchor=f)
        w.ob(f"{t}_ground", sz, f"const {L} l{{C{{w, h, d}}}}; const I x = 0, y = 0, z = 0, u = 0, v = 0, t = 1; " +
             body % ("l.foreach_ground_coordinate(at);", "l.ground_coordinates()"), S, "iteration", limit=200, anchor=f)
        dead = "if (z > t || (z == t && (y > v || (y == v && x > u)))) return true; "
        w.ob(f"{t}_range", sg2, pre2 + dead + mk + "const C e{u, v, t}; " + body % ("l.foreach_coordinate(at, c, e);", "l.coordinates(c, e)"), S2,
             "iteration", limit=200, anchor=f)
        w.ob(f"{t}_ground_range", "int w, int h, int d, int x, int y, int u, int v", "if (x > w || y > h || u > w || v > h) return true; const int z = 0, t = 0; " +
             dead + mk + "const C e{u, v, 0}; " + body % ("l.foreach_ground_coordinate(at, c, e);", "l.ground_coordinates(c, e)"), S2, "iteration",
             limit=200, anchor=f)
    w.run()
