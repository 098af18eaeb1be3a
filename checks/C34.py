"""C34: positions of SiDBs in nanometers, distances, and the defects of a surface."""
import os
import vf
from vf import Wit

A = "include/fiction/technology/sidb_nm_position.hpp"
B = "include/fiction/technology/sidb_nm_distance.hpp"
D = "include/fiction/technology/sidb_defect_surface.hpp"
META = dict(
    title="SiDBs lie where the lattice puts them; a surface keeps the defects it is given",
    statement="The position of an SiDB in nanometers is the one its lattice orientation prescribes (a dimer per 3.84 x 7.68 Angstrom with 2.25 between its atoms on H-Si(100), the default; 6.65 x 3.84 with "
              "an offset of 3.3255 and 1.92 on H-Si(111)), whatever coordinate system the layout uses. Distances are symmetric, Euclidean, and 0 between a position and itself. "
              "A defect surface returns for every position the defect last assigned to it, none after it was removed or moved away, and never one of an ignored type; it counts and visits each defect once. "
              "A clone is independent of its original. The SiDBs affected by a defect are exactly the positions in the layout within its extents, and those affected by any defect are the union.",
    forall="all positions within 2^20 of the origin; all histories of up to four assignments and moves of three positions; all extents up to 2 x 2 in layouts of 4 x 4 positions",
    why="every simulation of SiDBs starts from these distances, and defects are compared, moved and cloned where tests only assign them",
    files=[A, B, D],
    mechanism=["sidb_nm_position @ " + A + ":30-75", "sidb_nm_distance @ " + B + ":25-45", "assign_sidb_defect, move_sidb_defect @ " + D + ":134-165", "affected_sidbs @ " + D + ":270-340"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic positions",
    note="Floating point is exact rational arithmetic compared with a tolerance of 1e-6 nm; phmap's maps and the interfaces of mockturtle and kitty are replaced by stand-ins.",
)
FLAGS = ["-iquote", os.path.join(vf.STUBS, "mocktec"), "-I", os.path.join(vf.STUBS, "mock"), "-I", vf.STUBS, "-I", os.path.join(vf.STUBS, "fmtmini")]
PRE = """#include <hashtable1.inc>
#include <rbtree.inc>
#include <fiction/types.hpp>
#include <fiction/technology/sidb_nm_position.hpp>
#include <fiction/technology/sidb_nm_distance.hpp>
#include <cstdint>
#include <optional>
#include <unordered_set>
#include <utility>
using namespace fiction;
using I = int64_t;
using T = sidb_technology::cell_type;
using DT = sidb_defect_type;
static bool near(double a, double b) { const double d = a - b; return d < 1e-6 && d > -1e-6; }
"""
LAT = {"100": (3.84, 7.68, 0.0, 2.25), "111": (6.65, 3.84, 3.3255, 1.92)}


def run(c):
    w = Wit(c, "c34", PRE, A, flags=FLAGS, passes="cgscc(inline),function(sroa,early-cse)")
    M = 1 << 20
    for lat, (la, lb, cx, cy) in LAT.items():
        for nm, suf, lo in (("offset", "", 0), ("cube", "_cube", -M), ("siqad", "_siqad", -M)):
            ls = [f"sidb_{lat}_cell_clk_lyt{suf}"] + ([f"sidb_cell_clk_lyt{suf}"] if lat == "100" else []) + ([f"sidb_defect_surface<sidb_{lat}_cell_clk_lyt{suf}>"] if nm == "offset" else [])
            for k, L in enumerate(ls):
                if nm == "cube":
                    lo = 0
                mk = (lambda x, y, p: f"cell<L>{{{x}, {y}, {p}}}") if nm == "siqad" else (lambda x, y, p: f"cell<L>{{{x}, 2 * {y} + {p}, 0}}")
                R = {"x": (lo, M), "y": (lo, M), "z": (0, 1), "x1": (lo, M), "y1": (lo, M), "z1": (0, 1)}
                S = "int x, int y, int z, int x1, int y1, int z1"
                pre = f"using L = {L}; int p = 0; while (p < z) {{ ++p; }} int q = 0; while (q < z1) {{ ++q; }} const L l{{}}; "
                w.ob(f"position_{lat}_{nm}{k}", S, pre + f"(void)x1; (void)y1; const auto r = sidb_nm_position<L>(l, {mk('x', 'y', 'p')}); return near(r.first, ({la} * x + {cx} * p) / 10) && near(r.second, ({lb} * y + {cy} * p) / 10);", R, "position", limit=60)
                if k == 0:
                    R = {n: ((lo and -1000, 1000) if n[0] != "z" else r) for n, r in R.items()}
                    w.ob(f"distance_{lat}_{nm}", S, pre + f"const auto a = {mk('x', 'y', 'p')}, b = {mk('x1', 'y1', 'q')}; const double d = sidb_nm_distance<L>(l, a, b), e = sidb_nm_distance<L>(l, b, a); "
                         f"const double dx = ({la} * (x - x1) + {cx} * (p - q)) / 10, dy = ({lb} * (y - y1) + {cy} * (p - q)) / 10; const bool same = x == x1 && y == y1 && p == q; return near(d * d, dx * dx + dy * dy) && near(e * e, d * d) && d >= 0 && (!same || d == 0);", R, "distance", anchor=B, limit=60)
    # histories of a defect surface
    P = "using L = sidb_100_cell_clk_lyt; using S = sidb_defect_surface<L>; using C = cell<L>; (void)sizeof(C); "
    X = {k: (0, 1 << 20) for k in ("x0", "x1")}
    two = P + "const C a{4 * x0 + 1, x1, 0}, b{4 * x0 + 2, x1, 0}, e{4 * x0 + 3, x1, 0}; const sidb_defect d1{DT::SI_VACANCY, -1, 7, 3}, d2{DT::DB, 1, 9, 5}, d3{DT::SINGLE_DIHYDRIDE}; (void)e; (void)d3; "
    N = "DT::NONE"
    hist = {
        "assign": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); return s.num_defects() == 2 && s.get_sidb_defect(a) == d1 && s.get_sidb_defect(b) == d2 && s.get_sidb_defect(e).type == DT::NONE && s.num_positively_charged_defects() == 1 && s.num_negatively_charged_defects() == 1 && s.num_charged_defects() == 2 && s.num_neutral_defects() == 0;",
        "neutral": "S s{}; s.assign_sidb_defect(a, d3); return s.num_defects() == 1 && s.num_charged_defects() == 0 && s.num_neutral_defects() == 1;",
        "overwrite": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(a, d2); return s.num_defects() == 1 && s.get_sidb_defect(a) == d2;",
        "remove": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); s.assign_sidb_defect(a, sidb_defect{DT::NONE}); return s.num_defects() == 1 && s.get_sidb_defect(a).type == DT::NONE && s.get_sidb_defect(b) == d2;",
        "ignore": "sidb_defect_surface_params ps{}; ps.ignore.insert(DT::DB); S s{ps}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); s.assign_sidb_defect(a, d2); return s.num_defects() == 0 && s.get_sidb_defect(a).type == DT::NONE && s.get_sidb_defect(b).type == DT::NONE;",
        "move": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); s.move_sidb_defect(a, e); return s.num_defects() == 2 && s.get_sidb_defect(a).type == DT::NONE && s.get_sidb_defect(b) == d2 && s.get_sidb_defect(e) == d1;",
        "move_onto": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); s.move_sidb_defect(a, b); return s.num_defects() == 1 && s.get_sidb_defect(a).type == DT::NONE && s.get_sidb_defect(b) == d1;",
        "move_self": "S s{}; s.assign_sidb_defect(a, d1); s.move_sidb_defect(a, a); return s.num_defects() == 1 && s.get_sidb_defect(a) == d1;",
        "move_nothing": "S s{}; s.assign_sidb_defect(b, d2); s.move_sidb_defect(a, b); return s.num_defects() == 1 && s.get_sidb_defect(b) == d2;",
        "clone": "S s{}; s.assign_cell_type(a, T::NORMAL); s.assign_sidb_defect(a, d1); S t = s.clone(); t.assign_sidb_defect(b, d2); t.assign_sidb_defect(a, sidb_defect{DT::NONE}); t.assign_cell_type(b, T::INPUT); s.assign_sidb_defect(e, d3); "
                 "return s.num_defects() == 2 && s.get_sidb_defect(a) == d1 && s.get_sidb_defect(e) == d3 && t.num_defects() == 1 && t.get_sidb_defect(b) == d2 && s.num_cells() == 1 && t.num_cells() == 2 && t.get_cell_type(a) == T::NORMAL;",
        "layered": "S s{}; s.assign_sidb_defect(a, d1); sidb_defect_surface<S> t{s}; t.assign_sidb_defect(b, d2); return t.num_defects() == 2 && t.get_sidb_defect(a) == d1 && s.get_sidb_defect(b) == d2;",
        "foreach": "S s{}; s.assign_sidb_defect(a, d1); s.assign_sidb_defect(b, d2); int na = 0, nb = 0, n = 0; s.foreach_sidb_defect([&](const auto& x) { ++n; na += x.first == a && x.second == d1; nb += x.first == b && x.second == d2; }); return n == 2 && na == 1 && nb == 1;",
    }
    for nm, code in hist.items():
        w.ob("defects_" + nm, "int x0, int x1", two + code, X, "defects", anchor=D, limit=60)
    # affected positions
    conc = "".join(f"int {a} = 0; while ({a} < {a}0) {{ ++{a}; }} " for a in ("x", "y", "h", "v"))
    R = {"x0": (0, 3), "y0": (0, 3), "h0": (0, 2), "v0": (0, 2)}
    for nm, df, n in (("charged", "sidb_defect{DT::SI_VACANCY, -1, 7, 3}", 0), ("neutral", "sidb_defect{DT::SINGLE_DIHYDRIDE}", 1), ("siloxane", "sidb_defect{DT::SILOXANE}", 1)):
        ov = "std::optional<std::pair<uint16_t, uint16_t>>{{static_cast<uint16_t>(h), static_cast<uint16_t>(v)}}"
        big = "std::optional<std::pair<uint16_t, uint16_t>>{{4, 4}}"
        a1, a2 = (ov, big) if n == 0 else (big, ov)
        w.ob("affected_" + nm, "int x0, int y0, int h0, int v0", P + conc + f"S s{{C{{3, 3, 0}}}}; s.assign_sidb_defect(C{{x, y, 0}}, {df}); const auto r = s.affected_sidbs(C{{x, y, 0}}, {a1}, {a2}); std::size_t n = 0; "
             "for (int j = 0; j < 4; ++j) { for (int i = 0; i < 4; ++i) { const bool in = i >= x - h && i <= x + h && j >= y - v && j <= y + v; n += in; if ((r.count(C{i, j, 0}) != 0) != in) { return false; } } } return r.size() == n;", R, "affected", anchor=D, limit=120)
    w.ob("affected_none", "int x0, int y0, int h0, int v0", P + conc + "S s{C{3, 3, 0}}; s.assign_sidb_defect(C{h, v, 0}, sidb_defect{DT::SI_VACANCY, -1, 7, 3}); if (x == h && y == v) { return true; } return s.affected_sidbs(C{x, y, 0}).empty();", R, "affected", anchor=D, limit=120)
    w.ob("affected_all", "int x0, int y0, int h0, int v0", P + conc + "S s{C{3, 3, 0}}; if (x == h && y == v) { return true; } s.assign_sidb_defect(C{x, y, 0}, sidb_defect{DT::SI_VACANCY, -1, 7, 3}); s.assign_sidb_defect(C{h, v, 0}, sidb_defect{DT::SINGLE_DIHYDRIDE}); "
         "const auto r = s.all_affected_sidbs(std::optional<std::pair<uint64_t, uint64_t>>{{1, 0}}, std::optional<std::pair<uint64_t, uint64_t>>{{0, 1}}); std::size_t n = 0; for (int j = 0; j < 4; ++j) { for (int i = 0; i < 4; ++i) { "
         "const bool in = (j == y && i >= x - 1 && i <= x + 1) || (i == h && j >= v - 1 && j <= v + 1); n += in; if ((r.count(C{i, j, 0}) != 0) != in) { return false; } } } return r.size() == n;", R, "affected", anchor=D, limit=120)
    w.run()
