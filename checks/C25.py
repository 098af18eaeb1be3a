"""C25: Cartesian layout topology."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/cartesian_layout.hpp"
META = dict(
    title="Cartesian layouts have the topology of a bounded grid",
    statement="In a Cartesian layout the neighbour of a tile in any of the eight directions, above, or below is the tile one step away in exactly that"
              " direction, or the tile itself if that step leaves the layout; tiles are adjacent exactly if they lie one orthogonal step apart in the "
              "same layer, and adjacent across elevation if the layers differ by at most one. The adjacent tiles enumerated are exactly these, once "
              "each, the opposite pairs enumerated are exactly the two axes on which both neighbours exist, and border tests, border projections, the "
              "bounds test, direction and layer predicates agree with the coordinates. Iterating a layout, also from and to a given tile or after "
              "resizing, visits each tile exactly once in order; a clone does not share its size, a copy does.",
    forall="all tiles and tile pairs of all layouts with up to 2^30 columns and rows and two layers (offset), or several (cube); iteration: all layouts of "
           "up to 3 x 3 x 2 tiles",
    why="every placement, routing, simulation and file format step relies on this topology at borders and corners of layouts no test enumerates",
    files=[A],
    mechanism=["cardinal operations @ " + A + ":190-560", "iteration @ " + A + ":590-810", "constructor, clone, resize @ " + A + ":65-180"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic layout size and tiles",
    note="Tiles are within bounds; the answers for tiles outside a layout are not specified. mockturtle's iteration helper is replaced by a stand-in.",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]


def run(c):
    w = Wit(c, "c25", """#include <fiction/layouts/cartesian_layout.hpp>
#include <cstdint>
#include <vector>
using namespace fiction;
using I = int64_t;
template <class C> using L = cartesian_layout<C>;
template <class C> static bool is(const C& c, I x, I y, I z) { return !c.is_dead() && static_cast<I>(c.x) == x && static_cast<I>(c.y) == y && static_cast<I>(c.z) == z; }
template <class C> static bool step(const C& r, I x, I y, I z, I dx, I dy, I dz, I w, I h, I d)
{
    const I u = x + dx, v = y + dy, t = z + dz;
    return u >= 0 && u <= w && v >= 0 && v <= h && t >= 0 && t <= d ? is(r, u, v, t) : is(r, x, y, z);
}
""", A, flags=FLAGS)
    DIRS = [("north", 0, -1, 0), ("north_east", 1, -1, 0), ("east", 1, 0, 0), ("south_east", 1, 1, 0), ("south", 0, 1, 0), ("south_west", -1, 1, 0),
            ("west", -1, 0, 0), ("north_west", -1, -1, 0), ("above", 0, 0, 1), ("below", 0, 0, -1)]
    M = 1 << 30
    for t, C, zt in (("offset", "offset::ucoord_t", 1), ("cube", "cube::coord_t", 5)):
        sg = "int w, int h, int d, int x, int y, int z"
        R = {"w": (0, M), "h": (0, M), "d": (0, zt), "x": (0, M), "y": (0, M), "z": (0, zt), "u": (0, M), "v": (0, M), "t": (0, zt)}
        pre = "if (x > w || y > h || z > d) return true; "
        mk = f"const L<{C}> l{{{C}{{w, h, d}}}}; const {C} c{{x, y, z}}; "
        for n, dx, dy, dz in DIRS:
            w.ob(f"{t}_{n}", sg, pre + mk + f"return step<{C}>(l.{n}(c), x, y, z, {dx}, {dy}, {dz}, w, h, d);", R, "step", anchor=A)
        w.ob(f"{t}_size", "int w, int h, int d, int a, int b", f"L<{C}> l{{{C}{{w, h, d}}}}; if (static_cast<I>(l.x()) != w || static_cast<I>(l.y()) != h || "
             f"static_cast<I>(l.z()) != d) return false; const L<{C}> k = l.clone(), s = l; l.resize({C}{{a, b, 0}}); return static_cast<I>(l.x()) == a && "
             "static_cast<I>(l.y()) == b && static_cast<I>(l.z()) == 0 && static_cast<I>(k.x()) == w && static_cast<I>(k.y()) == h && static_cast<I>(k.z()) == d && "
             "static_cast<I>(s.x()) == a && static_cast<I>(s.y()) == b;", dict(R, a=(0, M), b=(0, M)), "size")
        w.ob(f"{t}_area", "int w, int h, int d", f"const L<{C}> l{{{C}{{w, h, d}}}}; return static_cast<uint64_t>(l.area()) == (static_cast<uint64_t>(w) + 1) * "
             "(static_cast<uint64_t>(h) + 1);", dict(R, w=(0, 1 << 20), h=(0, 1 << 20)), "size")
        w.ob(f"{t}_coord", "int x, int y, int z", f"const L<{C}> l{{}}; return is(l.coord(x, y, z), x, y, z) && is(l.coord(x, y), x, y, 0) && is({C}{{l.x(), l.y(), "
             "l.z()}, 0, 0, 0);", R, "size")
        sg2 = sg + ", int u, int v, int t"
        pre2 = pre + "if (u > w || v > h || t > d) return true; "
        mk2 = mk + f"const {C} e{{u, v, t}}; const I dx = I{{u}} - x, dy = I{{v}} - y, dz = I{{t}} - z; "
        adj = "((dx == 0 && (dy == 1 || dy == -1)) || (dy == 0 && (dx == 1 || dx == -1)))"
        for n, e in (("is_north_of", "dx == 0 && dy == -1 && dz == 0"), ("is_east_of", "dx == 1 && dy == 0 && dz == 0"),
                     ("is_south_of", "dx == 0 && dy == 1 && dz == 0"), ("is_west_of", "dx == -1 && dy == 0 && dz == 0"),
                     ("is_above", "dx == 0 && dy == 0 && dz == 1"), ("is_below", "dx == 0 && dy == 0 && dz == -1"),
                     ("is_adjacent_of", f"dz == 0 && {adj}"), ("is_adjacent_elevation_of", f"dz >= -1 && dz <= 1 && {adj}"),
                     ("is_northwards_of", "dx == 0 && dy < 0 && dz == 0"), ("is_eastwards_of", "dx > 0 && dy == 0 && dz == 0"),
                     ("is_southwards_of", "dx == 0 && dy > 0 && dz == 0"), ("is_westwards_of", "dx < 0 && dy == 0 && dz == 0")):
            w.ob(f"{t}_{n}", sg2, pre2 + mk2 + f"return l.{n}(c, e) == ({e});", R, "relation")
        w.ob(f"{t}_borders", sg, pre + mk + "return l.is_at_northern_border(c) == (y == 0) && l.is_at_southern_border(c) == (y == h) && l.is_at_western_border(c) "
             "== (x == 0) && l.is_at_eastern_border(c) == (x == w) && l.is_at_any_border(c) == (x == 0 || x == w || y == 0 || y == h);", R, "border")
        w.ob(f"{t}_border_of", sg, pre + mk + "return is(l.northern_border_of(c), x, 0, z) && is(l.southern_border_of(c), x, h, z) && "
             "is(l.western_border_of(c), 0, y, z) && is(l.eastern_border_of(c), w, y, z);", R, "border")
        w.ob(f"{t}_layers", sg, pre + mk + "return l.is_ground_layer(c) == (z == 0) && l.is_crossing_layer(c) == (z > 0);", R, "layer")
        w.ob(f"{t}_bounds", sg, mk + "return l.is_within_bounds(c) == (x <= w && y <= h && z <= d);", R, "bounds")
        w.ob(f"{t}_adjacent", sg, pre + mk + f"""const auto a = l.adjacent_coordinates(c); std::vector<{C}> f{{}};
            l.foreach_adjacent_coordinate(c, [&f](const auto& n) {{ f.push_back(n); }}); bool n = false, e = false, s = false, o = false; std::size_t k = 0;
            for (const auto& q : a)
            {{
                if (!(q == f[k++])) {{ return false; }}
                bool* m = is(q, x, I{{y}} - 1, z) ? &n : is(q, I{{x}} + 1, y, z) ? &e : is(q, x, I{{y}} + 1, z) ? &s : is(q, I{{x}} - 1, y, z) ? &o : nullptr;
                if (m == nullptr || *m) {{ return false; }}
                *m = true;
            }}
            return k == f.size() && n == (y > 0) && e == (x < w) && s == (y < h) && o == (x > 0);""", R, "adjacency-list", limit=120)
        w.ob(f"{t}_opposite", sg, pre + mk + f"""const auto a = l.adjacent_opposite_coordinates(c); std::vector<std::pair<{C}, {C}>> f{{}};
            l.foreach_adjacent_opposite_coordinates(c, [&f](const auto& n) {{ f.push_back(n); }}); bool p = false, r = false; if (a.size() != f.size()) return false;
            for (const auto& q : a)
            {{
                const bool ns = (is(q.first, x, I{{y}} - 1, z) && is(q.second, x, I{{y}} + 1, z)) || (is(q.second, x, I{{y}} - 1, z) && is(q.first, x, I{{y}} + 1, z));
                const bool ew = (is(q.first, I{{x}} - 1, y, z) && is(q.second, I{{x}} + 1, y, z)) || (is(q.second, I{{x}} - 1, y, z) && is(q.first, I{{x}} + 1, y, z));
                if (ns) {{ if (p) {{ return false; }} p = true; }} else if (ew) {{ if (r) {{ return false; }} r = true; }} else {{ return false; }}
            }}
            return p == (y > 0 && y < h) && r == (x > 0 && x < w);""", R, "opposites", limit=120)
        S = {"w": (0, 2), "h": (0, 2), "d": (0, 1), "x": (0, 2), "y": (0, 2), "z": (0, 1)}
        S = {k: (0, 1) for k in "dzt"} | {k: (0, 2) for k in "whxyuv"}
        body = """I a = x, b = y, g = z; bool ok = true; std::size_t n = 0; const auto nxt = [&]() { ++n; if (++a > w) { a = 0; if (++b > h) { b = 0; ++g; } } };
            const auto at = [&](const auto& q) { ok = ok && is(q, a, b, g); nxt(); }; %s
            if (!ok || a != u || b != v || g != t) { return false; } a = x; b = y; g = z; const auto m = n; n = 0;
            for (const auto& q : %s) { at(q); } return ok && n == m && a == u && b == v && g == t;"""
        sz = "int w, int h, int d"
        w.ob(f"{t}_all", sz, f"L<{C}> l{{{C}{{0, 0, 0}}}}; l.resize({C}{{w, h, d}}); const I x = 0, y = 0, z = 0, u = 0, v = 0, t = I{{d}} + 1; " +
             body % ("l.foreach_coordinate(at);", "l.coordinates()"), S, "iteration", limit=200)
        w.ob(f"{t}_ground", sz, f"const L<{C}> l{{{C}{{w, h, d}}}}; const I x = 0, y = 0, z = 0, u = 0, v = 0, t = 1; " +
             body % ("l.foreach_ground_coordinate(at);", "l.ground_coordinates()"), S, "iteration", limit=200)
        S2 = {k: (0, 1) for k in "whdxyzuvt"}
        dead = "if (z > t || (z == t && (y > v || (y == v && x > u)))) return true; "
        w.ob(f"{t}_range", sg2, pre2 + dead + mk + f"const {C} e{{u, v, t}}; " + body % ("l.foreach_coordinate(at, c, e);", "l.coordinates(c, e)"), S2,
             "iteration", limit=200)
        w.ob(f"{t}_ground_range", "int w, int h, int d, int x, int y, int u, int v", "if (x > w || y > h || u > w || v > h) return true; const int z = 0, t = 0; " +
             dead + mk + f"const {C} e{{u, v, 0}}; " + body % ("l.foreach_ground_coordinate(at, c, e);", "l.ground_coordinates(c, e)"), S2, "iteration", limit=200)
    w.run()
