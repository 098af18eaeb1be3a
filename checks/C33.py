"""C33: layout utilities: absolute positions, normalization, conversions, bounding boxes, areas."""
import os
import vf
import stdmodels
from vf import Wit

A = "include/fiction/utils/layout_utils.hpp"
B = "include/fiction/layouts/bounding_box.hpp"
D = "include/fiction/technology/area.hpp"
META = dict(
    title="Layout utilities preserve positions; bounding boxes are the smallest enclosing",
    statement="The absolute position of a cell in a tile is the tile's position times the tile size (three quarters of it between rows of pointy-top and columns of flat-top hexagons), "
              "plus half a tile in shifted rows or columns, plus the relative position. A port direction leads to the neighbor of that direction. Normalizing a cell-level layout moves all "
              "cells by the same offset, keeping their layer, type and name, such that the smallest x and y become 0. Converting a layout to SiQAD coordinates and back keeps every cell "
              "where it is, with type, name, defects and charges. A random coordinate lies within the box its corners span, the coordinates of a spanned area are exactly those of the box, each once, row by row, "
              "whichever corner is given first. Two layouts are identical exactly if they have the same cells of the same types, defects and charges, and identical layouts have the same digest. "
              "The bounding box of a layout is the smallest box enclosing its cells, gates and defects, and the area is that of the cells and the spacing between them.",
    forall="all positions with up to three cells and defects, negative coordinates included where the coordinate system has them; all tile positions for tiles of 5 x 5, 4 x 7 and 60 x 46 cells; areas of up to 3 x 3 positions anywhere",
    why="writers, gate libraries and SiDB simulation work on the results, and tests use a few positions on layer 0",
    files=[A, B, D],
    mechanism=["relative_to_absolute_cell_position @ " + A + ":66-190", "normalize_layout_coordinates @ " + A + ":255-300", "conversions @ " + A + ":310-600",
               "random_coordinate @ " + A + ":585-620", "update_bounding_box @ " + B + ":50-165", "area @ " + D + ":75-130"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic positions",
    note="phmap's maps and the interfaces of mockturtle and kitty are replaced by stand-ins; random numbers are arbitrary values of the range the distribution was asked for.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini")]
PRE = """#include <hashtable1.inc>
#include <fiction/types.hpp>
#include <fiction/utils/layout_utils.hpp>
#include <fiction/layouts/bounding_box.hpp>
#include <fiction/technology/area.hpp>
#include <fiction/technology/magcad_magnet_count.hpp>
#include <cstdint>
#include <string>
#include <vector>
using namespace fiction;
using I = int64_t;
using T = sidb_technology::cell_type;
using OC = offset::ucoord_t; using QC = siqad::coord_t; using UC = cube::coord_t;
using LO = sidb_100_cell_clk_lyt; using LU = sidb_100_cell_clk_lyt_cube; using LQ = sidb_100_cell_clk_lyt_siqad;
static I mn(I a, I b) { return a < b ? a : b; }
static I mx(I a, I b) { return a < b ? b : a; }
"""


def run(c):
    w = Wit(c, "c33", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)", models=stdmodels.RANDOM)
    M = 1 << 24
    for nm, L, C, lo in (("offset", "LO", "OC", 0), ("cube", "LU", "UC", -M), ("siqad", "LQ", "QC", -M)):
        zr = (0, 1) if nm != "cube" else (-5, 5)
        R = {k: (lo, M) for k in ("x0", "y0", "x1", "y1", "x2", "y2")} | {k: zr for k in ("z0", "z1", "z2")}
        S = "int x0, int y0, int z0, int x1, int y1, int z1, int x2, int y2, int z2"
        PTS = f"using L = {L}; using C = {C}; const C p[3] = {{C{{x0, y0, z0}}, C{{x1, y1, z1}}, C{{x2, y2, z2}}}}; if (p[0] == p[1] || p[0] == p[2] || p[1] == p[2]) {{ return true; }} L l{{}}; "
        yy = (lambda i: f"(I{{2}} * y{i} + z{i})") if nm == "siqad" else (lambda i: f"I{{y{i}}}")
        for n in (1, 2):
            put = "".join(f"l.assign_cell_type(p[{i}], T::{'NORMAL' if i else 'INPUT'}); " for i in range(n))
            mm = lambda f, v: f"{f}({v(0)}, {v(1)})" if n == 2 else v(0)
            box = f"const I ax = {mm('mn', lambda i: f'I{{x{i}}}')}, bx = {mm('mx', lambda i: f'I{{x{i}}}')}, ay = {mm('mn', yy)}, by = {mm('mx', yy)}; "
            chk = "const auto a = b.get_min(), d = b.get_max(); "
            if nm == "siqad":
                chk += "return a.x == ax && d.x == bx && 2 * I{a.y} + a.z == ay && 2 * I{d.y} + d.z == by && a.z >= 0 && a.z <= 1 && d.z >= 0 && d.z <= 1 && b.get_x_size() == bx - ax && b.get_y_size() == I{d.y} - I{a.y};"
            else:
                chk += "return static_cast<I>(a.x) == ax && static_cast<I>(d.x) == bx && static_cast<I>(a.y) == ay && static_cast<I>(d.y) == by && static_cast<I>(b.get_x_size()) == bx - ax && static_cast<I>(b.get_y_size()) == by - ay;"
            w.ob(f"box_{nm}{n}", S, PTS + put + box + "const bounding_box_2d<L> b{l}; " + chk, R, "bounding-box", anchor=B, limit=150)
            if n == 2:
                w.ob(f"box_defects_{nm}", S, PTS + box + "sidb_defect_surface<L> s{l}; s.assign_sidb_defect(p[1], sidb_defect{sidb_defect_type::SI_VACANCY, -1}); s.assign_cell_type(p[0], T::NORMAL); const bounding_box_2d<sidb_defect_surface<L>> b{s}; " + chk, R, "bounding-box", anchor=B, limit=150)
        nz = "z0" if True else "0"
        w.ob(f"normalize_{nm}", S, PTS.replace("L l{};", "L l{C{%s, %s, 1}};" % (M, M)) + "l.assign_cell_type(p[0], T::INPUT); l.assign_cell_name(p[0], \"a\"); l.assign_cell_type(p[1], T::NORMAL); const I ax = mn(x0, x1), ay = mn(y0, y1); const L k = normalize_layout_coordinates(l); "
             "const C q0{I{x0} - ax, I{y0} - ay, z0}, q1{I{x1} - ax, I{y1} - ay, z1}; return k.num_cells() == 2 && k.get_cell_type(q0) == T::INPUT && k.get_cell_type(q1) == T::NORMAL && k.get_cell_name(q0) == \"a\" && k.get_cell_name(q1).empty();", R, "normalize", anchor=A, limit=150)
        w.ob(f"random_{nm}", S, f"using C = {C}; const C a{{x0, y0, z0}}, b{{x1, y1, z1}}; const C r = random_coordinate(a, b); const auto in = [](I v, I s, I t) {{ return v >= mn(s, t) && v <= mx(s, t); }}; return in(r.x, x0, x1) && in(r.y, y0, y1) && "
             + ("r.z >= 0 && r.z <= 1;" if nm == "siqad" else "in(r.z, z0, z1);"), R, "random", anchor=A, limit=100)
    # absolute positions
    K = 1 << 20
    for nm, G in (("cart", "cart_gate_clk_lyt"), ("oddrow", "cart_odd_row_gate_clk_lyt"), ("evenrow", "cart_even_row_gate_clk_lyt"), ("oddcol", "cart_odd_col_gate_clk_lyt"), ("evencol", "cart_even_col_gate_clk_lyt"),
                  ("hoddrow", "hex_odd_row_gate_clk_lyt"), ("hevenrow", "hex_even_row_gate_clk_lyt"), ("hoddcol", "hex_odd_col_gate_clk_lyt"), ("hevencol", "hex_even_col_gate_clk_lyt")):
        for gx, gy in ((5, 5), (4, 7), (60, 46)):
            hx = "row" in nm
            sh = "0" if nm == "cart" else ("(%s %% 2 == %d)" % ("ty" if hx else "tx", "odd" in nm))
            px, py = gx, gy
            if nm[0] == "h":
                px, py = (gx, gy * 3 // 4) if hx else (gx * 3 // 4, gy)
            w.ob(f"absolute_{nm}_{gx}_{gy}", "int tx, int ty, int tz, int rx, int ry",
                 f"const {G} g{{}}; const tile<{G}> t{{tx, ty, tz}}; const auto a = relative_to_absolute_cell_position<{gx}, {gy}, {G}, qca_cell_clk_lyt>(g, t, cell<qca_cell_clk_lyt>{{rx, ry}}); "
                 f"return static_cast<I>(a.x) == I{{tx}} * {px} + rx" + (f" + ({sh} ? {gx} / 2 : 0)" if hx and sh != "0" else "") + f" && static_cast<I>(a.y) == I{{ty}} * {py} + ry" + (f" + ({sh} ? {gy} / 2 : 0)" if not hx and sh != "0" else "")
                 + " && static_cast<I>(a.z) == tz && !a.is_dead();", {"tx": (0, K), "ty": (0, K), "tz": (0, 1), "rx": (0, gx - 1), "ry": (0, gy - 1)}, "absolute-position", anchor=A, limit=60)
    # port directions
    for nm, G in (("cart", "cart_gate_clk_lyt"), ("shift", "cart_odd_col_gate_clk_lyt"), ("hex", "hex_even_row_gate_clk_lyt")):
        if nm == "cart":
            pos, R = f"const {G} g{{{{mx, my}}}}; const tile<{G}> t{{x, y}}; if (x > mx || y > my) {{ return true; }} ", {k: (0, K) for k in ("x", "y", "mx", "my")}
        else:
            pos, R = f"(void)mx; (void)my; const {G} g{{{{3, 3}}}}; int x1 = 0; while (x1 < x) {{ ++x1; }} int y1 = 0; while (y1 < y) {{ ++y1; }} const tile<{G}> t{{x1, y1}}; ", {k: (0, 3) for k in ("x", "y", "mx", "my")}
        for d in ("north", "north_east", "east", "south_east", "south", "south_west", "west", "north_west"):
            w.ob(f"port_{nm}_{d}", "int x, int y, int mx, int my", pos + f"return port_direction_to_coordinate(g, t, port_direction{{port_direction::cardinal::{d.upper()}}}) == g.{d}(t);", R, "port-direction", anchor=A, limit=60)
        w.ob(f"adjacent_{nm}", "int x, int y, int mx, int my", pos +
             ("const int n = (x > 0) + (y > 0) + (x < mx) + (y < my); return num_adjacent_coordinates(g, t) == n;" if nm == "cart" else "return num_adjacent_coordinates(g, t) == g.adjacent_coordinates(t).size();"), R, "adjacent", anchor=A, limit=60)
    # areas spanned by two corners
    for nm, C, lo in (("offset", "OC", 0), ("cube", "UC", -M), ("siqad", "QC", -M)):
        for corner in range(4):
            w.ob(f"spanned_{nm}_{corner}", "int x, int y, int p0, int w0, int h0", "int w = 0; while (w < w0) { ++w; } int h = 0; while (h < h0) { ++h; } int p = 0; while (p < p0) { ++p; } " + (
                f"using C = {C}; const auto at = [&](I i, I j) {{ " + ("return C{x + i, y + (p + j) / 2, (p + j) % 2};" if nm == "siqad" else "return C{x + i, y + j, 0};") + " }; "
                f"const auto r = all_coordinates_in_spanned_area(at({'w' if corner & 1 else '0'}, {'h' if corner & 2 else '0'}), at({'0' if corner & 1 else 'w'}, {'0' if corner & 2 else 'h'})); "
                "if (r.size() != (w + 1) * (h + 1)) { return false; } for (int j = 0; j <= h; ++j) { for (int i = 0; i <= w; ++i) { if (!(r[j * (w + 1) + i] == at(i, j))) { return false; } } } return true;"),
                {"x": (lo, M), "y": (lo, M), "p0": (0, 1), "w0": (0, 2), "h0": (0, 2)}, "spanned-area", anchor=A, limit=100)
    # conversions
    for nm, L, C in (("offset", "LO", "OC"), ("cube", "LU", "UC")):
        lo = 0
        R = {"x0": (lo, M), "y0": (lo, M), "a0": (0, 1), "x1": (lo, M), "y1": (lo, M), "a1": (0, 1), "dx": (lo, M), "dy": (lo, M), "b0": (0, 1)}
        S = "int x0, int y0, int a0, int x1, int y1, int a1, int dx, int dy, int b0"
        PTS = (f"using L = {L}; using C = {C}; using S = sidb_defect_surface<L>; using SQ = sidb_defect_surface<LQ>; int p0 = 0; while (p0 < a0) {{ ++p0; }} int p1 = 0; while (p1 < a1) {{ ++p1; }} int e = 0; while (e < b0) {{ ++e; }} "
               "if (x0 == x1 && y0 == y1 && p0 == p1) { return true; } const C c0{x0, 2 * y0 + p0, 0}, c1{x1, 2 * y1 + p1, 0}, d{dx, 2 * dy + e, 0}; const QC q0{x0, y0, p0}, q1{x1, y1, p1}, qd{dx, dy, e}; const sidb_defect df{sidb_defect_type::SI_VACANCY, -1, 7, 3}; "
               "L l{}; l.set_layout_name(\"n\"); l.set_tile_size_x(7); l.set_tile_size_y(9); LQ k{}; k.set_layout_name(\"n\"); k.set_tile_size_x(7); k.set_tile_size_y(9); "
               "const auto ok = [](const auto& r, const auto& s, const auto& t) { return r.num_cells() == 2 && r.get_cell_type(s) == T::INPUT && r.get_cell_type(t) == T::NORMAL && r.get_cell_name(s) == \"a\" && r.get_cell_name(t).empty() && r.get_layout_name() == \"n\" && r.get_tile_size_x() == 7 && r.get_tile_size_y() == 9; }; ")
        fill = lambda v, s, t: f'{v}.assign_cell_type({s}, T::INPUT); {v}.assign_cell_name({s}, "a"); {v}.assign_cell_type({t}, T::NORMAL); '
        w.ob(f"to_siqad_{nm}", S, PTS + fill("l", "c0", "c1") + "const auto r = convert_layout_to_siqad_coordinates(l); return ok(r, q0, q1);", R, "conversion", anchor=A, limit=150)
        w.ob(f"to_siqad_defect_{nm}", S, PTS + "S s{l}; s.assign_sidb_defect(d, df); " + fill("s", "c0", "c1") + "const auto r = convert_layout_to_siqad_coordinates(s); return ok(r, q0, q1) && r.num_defects() == 1 && r.get_sidb_defect(qd) == df;", R, "conversion", anchor=A, limit=150)
        w.ob(f"from_siqad_{nm}", S, PTS + fill("k", "q0", "q1") + "const auto r = convert_layout_to_fiction_coordinates<L>(k); return ok(r, c0, c1);", R, "conversion", anchor=A, limit=150)
        w.ob(f"from_siqad_defect_{nm}", S, PTS + "SQ s{k}; s.assign_sidb_defect(qd, df); " + fill("s", "q0", "q1") + "const auto r = convert_layout_to_fiction_coordinates<S>(s); return ok(r, c0, c1) && r.num_defects() == 1 && r.get_sidb_defect(d) == df;", R, "conversion", anchor=A, limit=150)
    w.ob("from_siqad_negative", "int x0, int y0, int a0, int x1, int y1, int a1",
         'int p0 = 0; while (p0 < a0) { ++p0; } int p1 = 0; while (p1 < a1) { ++p1; } if (x0 == x1 && y0 == y1 && p0 == p1) { return true; } const QC q0{x0, y0, p0}, q1{x1, y1, p1}; LQ k{QC{%d, %d, 1}}; k.assign_cell_type(q0, T::INPUT); k.assign_cell_type(q1, T::NORMAL); '.replace('%d', str(M)) +
         "const bool neg = x0 < 0 || x1 < 0 || y0 < 0 || y1 < 0; const I ox = neg ? mn(x0, x1) : I{0}, oy = neg ? mn(y0, y1) : I{0}; const auto r = convert_layout_to_fiction_coordinates<LO>(k); return r.num_cells() == 2 && r.get_cell_type(OC{x0 - ox, 2 * (y0 - oy) + p0, 0}) == T::INPUT && r.get_cell_type(OC{x1 - ox, 2 * (y1 - oy) + p1, 0}) == T::NORMAL;".replace('%d', str(M)),
         {"x0": (-M, M), "y0": (-M, M), "a0": (0, 1), "x1": (-M, M), "y1": (-M, M), "a1": (0, 1)}, "conversion", anchor=A, limit=150)
    # equality and digest
    for nm, L, C, lo in (("offset", "LO", "OC", 0), ("cube", "LU", "UC", -M), ("siqad", "LQ", "QC", -M)):
        R = {"x0": (lo, M), "y0": (lo, M), "x1": (lo, M), "y1": (lo, M), "t0": (0, 1), "t1": (0, 1), "n0": (0, 1), "n1": (0, 1)}
        S = "int x0, int y0, int x1, int y1, int t0, int t1, int n0, int n1"
        D = f"using L = {L}; using C = {C}; using SS = sidb_defect_surface<L>; const C a{{x0, y0, 1}}, b{{x1, y1, 1}}; "
        one = f"l.assign_cell_type(a, t0 ? T::INPUT : T::NORMAL); k.assign_cell_type(b, t1 ? T::INPUT : T::NORMAL); "
        w.ob(f"identical_{nm}", S, D + "(void)n0; (void)n1; L l{}; L k{}; " + one + "return are_cell_layouts_identical(l, k) == (a == b && t0 == t1);", R, "identical", anchor=A, limit=100)
        w.ob(f"identical2_{nm}", S, D + "(void)t0; (void)t1; (void)n1; if (a == b) { return true; } L l{}; L k{}; l.assign_cell_type(a, T::NORMAL); l.assign_cell_type(b, T::INPUT); k.assign_cell_type(b, T::INPUT); if (n0) { k.assign_cell_type(a, T::NORMAL); } return are_cell_layouts_identical(l, k) == (n0 != 0) && are_cell_layouts_identical(k, l) == (n0 != 0);", R, "identical", anchor=A, limit=150)
        w.ob(f"identical_defects_{nm}", S, D + "SS l{}; SS k{}; if (n0) { l.assign_sidb_defect(a, sidb_defect{t0 ? sidb_defect_type::DB : sidb_defect_type::SI_VACANCY}); } if (n1) { k.assign_sidb_defect(b, sidb_defect{t1 ? sidb_defect_type::DB : sidb_defect_type::SI_VACANCY}); } return are_cell_layouts_identical(l, k) == (n0 == n1 && (!n0 || (a == b && t0 == t1)));", R, "identical", anchor=A, limit=150)
        w.ob(f"digest_order_{nm}", "int x0, int x1, int y0, int y1, int q", f"int i = {-(lo < 0)}; while (i < x0) {{ ++i; }} int j = {-(lo < 0)}; while (j < x1) {{ ++j; }} int u = 0; while (u < y0) {{ ++u; }} int v = 0; while (v < y1) {{ ++v; }} const bool sw = q != 0; using L = {L}; using C = {C}; using SS = sidb_defect_surface<L>; const C a{{i, u, 1}}, b{{j, v, 1}}; "
             "SS l{}; SS k{}; const sidb_defect d0{sidb_defect_type::DB}, d1{sidb_defect_type::SI_VACANCY}; if (a == b) { return true; } l.assign_cell_type(a, T::NORMAL); l.assign_cell_type(b, T::INPUT); k.assign_cell_type(b, T::INPUT); k.assign_cell_type(a, T::NORMAL); l.assign_sidb_defect(a, d0); l.assign_sidb_defect(b, d1); "
             "if (sw) { k.assign_sidb_defect(b, d1); k.assign_sidb_defect(a, d0); } else { k.assign_sidb_defect(a, d0); k.assign_sidb_defect(b, d1); } return are_cell_layouts_identical(l, k) && cell_layout_digest(l) == cell_layout_digest(k);", {"x0": (-(lo < 0), 1), "x1": (-(lo < 0), 1), "y0": (0, 1), "y1": (0, 1), "q": (0, 1)}, "identical", anchor=A, limit=150)
    # areas
    w.ob("area_layout", "int x, int y", "const qca_cell_clk_lyt l{{x, y}}; area_params<qca_technology> p{}; p.width = 3; p.height = 5; p.hspace = 7; p.vspace = 11; area_stats st{}; const double v = area(l, p, &st); const double ww = (x + 1.0) * 3 + x * 7.0, hh = (y + 1.0) * 5 + y * 11.0; return st.width == ww && st.height == hh && st.area == ww * hh && v == st.area;", {"x": (0, K), "y": (0, K)}, "area", anchor=D, limit=60)
    w.ob("area_box", "int x0, int y0, int x1, int y1", "qca_cell_clk_lyt l{}; l.assign_cell_type({x0, y0}, qca_technology::cell_type::NORMAL); l.assign_cell_type({x1, y1}, qca_technology::cell_type::NORMAL); const bounding_box_2d<qca_cell_clk_lyt> b{l}; area_params<qca_technology> p{}; p.width = 3; p.height = 5; p.hspace = 7; p.vspace = 11; area_stats st{}; const double v = area(b, p, &st); "
         "const I dx = x0 < x1 ? x1 - x0 : x0 - x1, dy = y0 < y1 ? y1 - y0 : y0 - y1; const double ww = static_cast<double>(dx + 1) * 3 + static_cast<double>(dx) * 7, hh = static_cast<double>(dy + 1) * 5 + static_cast<double>(dy) * 11; return st.width == ww && st.height == hh && st.area == ww * hh && v == st.area;", {k: (0, K) for k in ("x0", "y0", "x1", "y1")}, "area", anchor=D, limit=100)
    w.run()
