"""C27: clocking schemes and clocked layouts."""
import os
import vf
from vf import Wit

A = "include/fiction/layouts/clocking_scheme.hpp"
B = "include/fiction/layouts/clocked_layout.hpp"
META = dict(
    title="Clocking schemes assign their published clock numbers; overrides stay local",
    statement="Every predefined clocking scheme assigns to each tile the clock number of its published cutout, repeated in both directions, and always one "
              "of its 3 or 4 clock numbers: columnar, row and 2DDWave clocking number tiles by column, row, and their sum, the hexagonal 2DDWave by column "
              "plus half the row (with rounding by arrangement; row plus half the column for column systems), so that every tile has an incoming and an outgoing "
              "neighbour away from the border and never more of them than the scheme's in- and out-degree. Overriding a tile's clock number changes that tile only (modulo "
              "the number of clocks) and makes the scheme irregular, a scheme is found by its name in any case and by no other name, and exactly columnar, row "
              "and the two 2DDWave schemes are linear. A tile is incoming to (outgoing from) another exactly if its clock number is one less (more) modulo the number of "
              "clocks; enumerations and degrees of clocked layouts agree with that, and a clone's clocking is independent of the original's.",
    forall="all tiles of layouts with up to 2^30 columns and rows, for every scheme with 3 and 4 clocks; overrides of any two tiles with any number; "
           "scheme names in every combination of cases",
    why="a single wrong entry of one cutout makes layouts designed with that scheme non-functional, and only some tiles of some schemes are tested",
    files=[A, B],
    mechanism=["cutouts @ " + A + ":170-740", "override_clock_number @ " + A + ":100-112", "get_clocking_scheme @ " + A + ":790-840",
               "clocked_layout @ " + B + ":37-346"],
    technique="abstract interpretation of LLVM IR over witness units with symbolic layout size and tiles",
    note="mockturtle's traits and phmap's hash maps are replaced by stand-ins (the latter by a sequence with the same observable behaviour).",
)
FLAGS = ["-I", os.path.join(vf.STUBS, "mock")]
PRE = """#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <cstdint>
#include <string>
#include <vector>
using namespace fiction;
using I = int64_t;
using C = offset::ucoord_t;
using CL = clocked_layout<cartesian_layout<C>>;
template <class A> using HL = clocked_layout<hexagonal_layout<C, A>>;
template <class S> static bool named(const S& s, const char* n, int k) { return s == std::string{n} && s.name == n && s.num_clocks == k; }
template <class A> static bool same(const A& a, const std::vector<C>& b) { if (a.size() != b.size()) { return false; } for (std::size_t i = 0; i < b.size(); ++i) { if (!(a[i] == b[i])) { return false; } } return true; }
"""
TAB = {"use": ("USE", 4, ["0123", "3210", "2301", "1032"]), "res": ("RES", 4, ["3012", "0103", "1230", "0321"]),
       "esr": ("ESR", 4, ["3012", "0123", "1230", "0321"]), "cfe": ("CFE", 4, ["0101", "3232"] * 2), "ripple": ("RIPPLE", 4, ["0123", "3210"] * 2),
       "srs": ("SRS", 4, ["1032", "2301", "3230", "0121"]), "bancs": ("BANCS", 3, ["012", "210", "201", "102", "120", "021"])}


def run(c):
    w = Wit(c, "c27", PRE, A, flags=FLAGS)
    M = 1 << 30
    R = {k: (0, M) for k in "whxyuv"} | {"r": (0, 1)}
    sch = []  # (id, layout, factory expression, name, clocks, formula or table)
    for n in (3, 4):
        e = "num_clks::THREE" if n == 3 else "num_clks::FOUR"
        for f, N, fo in (("columnar", "COLUMNAR", "x"), ("row", "ROW", "y"), ("twoddwave", "2DDWAVE", "x + y")):
            sch.append((f"{f}{n}", "CL", f"{f}_clocking<CL>({e})", N, n, fo))
        for arr, fo in (("odd_row", "x + (y + 1) / 2"), ("even_row", "x + y / 2"), ("odd_column", "y + (x + 1) / 2"), ("even_column", "y + x / 2")):
            L = f"HL<{arr}_hex>"
            sch.append((f"hex_{arr}{n}", L, f"twoddwave_hex_clocking<{L}>({e})", "2DDWAVEHEX", n, fo))
    for f, (N, n, t) in TAB.items():
        sch.append((f, "CL", f"{f}_clocking<CL>()", N, n, t))
    sch += [("dflt_columnar", "CL", "columnar_clocking<CL>()", "COLUMNAR", 4, "x"), ("dflt_row", "CL", "row_clocking<CL>()", "ROW", 4, "y"),
            ("dflt_2dd", "CL", "twoddwave_clocking<CL>()", "2DDWAVE", 4, "x + y"),
            ("dflt_2ddhex", "HL<even_row_hex>", "twoddwave_hex_clocking<HL<even_row_hex>>()", "2DDWAVEHEX", 4, "x + y / 2"),
            ("hex_on_cartesian", "CL", "twoddwave_hex_clocking<CL>()", "2DDWAVE", 4, "x + y")]
    for i, L, f, N, n, fo in sch:
        # clock number of the tile (x, y); tiles are given as period * k + residue
        if isinstance(fo, str):
            ph = pw = 4 * n // (2 if "hex" not in i else 1)
            if fo in ("x", "y", "x + y"):
                ph = pw = n
            else:
                ph, pw = (2 * n, n) if fo.startswith("x") else (n, 2 * n)
            val = f"static_cast<int>(({fo}) % {n})"
            tab = ""
        else:
            ph, pw = len(fo), len(fo[0])
            tab = f"static constexpr int T[{ph}][{pw}] = {{" + ",".join("{" + ",".join(r) + "}" for r in fo) + "}; "
            val = "T[q][p]"
        RR = {"k": (0, M // pw), "p": (0, pw - 1), "l": (0, M // ph), "q": (0, ph - 1), "z": (0, 1)}
        xy = f"const I x = I{{k}} * {pw} + p, y = I{{l}} * {ph} + q; "
        w.ob(f"{i}_number", "int k, int p, int l, int q, int z", tab + xy + f"const auto s = {f}; return named(s, \"{N}\", {n}) && s.is_regular() && "
             f"static_cast<int>(s(C{{x, y, z}})) == {val};", RR, "cutout", anchor=A)
        w.ob(f"{i}_degree", "int k, int p, int l, int q", xy + f"if (x == 0 || y == 0) return true; const auto s = {f}; const {L} t{{C{{x + 1, y + 1}}, s}}; "
             f"const C a{{x, y}}; const auto in = t.in_degree(a), out = t.out_degree(a); return in >= 1 && out >= 1 && in <= s.max_in_degree && "
             f"out <= s.max_out_degree && s.max_in_degree <= {L}::max_fanin_size && s.max_in_degree >= 1 && is_linear_scheme<{L}>(s) == "
             + ("true" if N in ("COLUMNAR", "ROW", "2DDWAVE", "2DDWAVEHEX") else "false") + ";", RR, "degree", anchor=A, limit=150, split_mod=8)
    # declared degrees: those of the publications, capped by the layout's fan-in
    deg = dict(COLUMNAR=(3, 2), ROW=(3, 2), USE=(2, 2), RES=(3, 3), ESR=(3, 3), CFE=(3, 3), RIPPLE=(3, 3), SRS=(3, 3), BANCS=(2, 2)) | {"2DDWAVE": (2, 2), "2DDWAVEHEX": (2, 2)}
    for i, L, f, N, n, fo in sch:
        for L2 in {L, "HL<odd_row_hex>"} if "hex" not in f else {L}:
            a, b = deg[N] if "hex_on" not in i else (2, 2)
            w.ob(f"{i}_declared_{'hex' if L2 != 'CL' else 'cart'}", "bool b", f"const auto s = {f.replace('CL', L2)}; return s.max_in_degree == std::min(int{{{a}}}, static_cast<int>({L2}::max_fanin_size)) && "
                 f"s.max_out_degree == {b} && b == b;", {}, "declared degree", anchor=A)
    w.ob("ctor", "int x, int y, unsigned char i, unsigned char o, unsigned char v, int n, bool r", """const clocking_scheme<C>::clock_function f = [v](const C& c) { return static_cast<unsigned char>(c.x == 3 ? 2 : v); };
        const clocking_scheme<C> s{"A", f, i, o}, t{"B", f, i, o, static_cast<unsigned char>(n)}; clocking_scheme<C> q{"Q", f, i, o, static_cast<unsigned char>(n), r}; const C c{x, y}; const int e = x == 3 ? 2 : v;
        return named(s, "A", 4) && s.is_regular() && named(t, "B", n) && t.is_regular() && named(q, "Q", n) && q.is_regular() == r && !(s == std::string{"B"}) && s(c) == e && t(c) == e && q(c) == e &&
        s.max_in_degree == i && s.max_out_degree == o && q.max_in_degree == i && q.max_out_degree == o;""", R | {"n": (1, 9)}, "constructor", anchor=A)
    for e, n in (("num_clks::THREE", 3), ("num_clks::FOUR", 4), ("", 4)):
        w.ob(f"open{n}{'d' if not e else ''}", "int x, int y", f"const auto s = open_clocking<CL>({e}); return named(s, \"OPEN\", {n}) && !s.is_regular() && "
             "s(C{x, y}) == 0 && s.max_in_degree == CL::max_fanin_size && s.max_out_degree == CL::max_fanin_size && !is_linear_scheme<CL>(s);", R, "cutout", anchor=A)
    ov = "int x, int y, int u, int v, unsigned char a, unsigned char b, unsigned char r"
    for t, f, n, base in (("open", "open_clocking<CL>(num_clks::THREE)", 3, lambda x, y: "0"), ("row", "row_clocking<CL>()", 4, lambda x, y: f"static_cast<int>({y} % 4)")):
        w.ob(f"override_{t}", ov + ", int i, int j", f"auto s = {f}; s.override_clock_number(C{{x, y}}, a); s.override_clock_number(C{{u, v}}, b); const auto "
             "k = s; const int e = i == u && j == v ? b % " + str(n) + " : i == x && j == y ? a % " + str(n) + " : " + base("i", "j") +
             "; return !s.is_regular() && static_cast<int>(s(C{i, j})) == e && static_cast<int>(k(C{i, j})) == e;", R | {"i": (0, M), "j": (0, M)}, "override", anchor=A,
             limit=120, split_mod=4)
    names = [("OPEN", "OPEN", 4), ("OPEN3", "OPEN", 3), ("OPEN4", "OPEN", 4), ("COLUMNAR", "COLUMNAR", 4), ("COLUMNAR3", "COLUMNAR", 3), ("COLUMNAR4", "COLUMNAR", 4),
             ("ROW", "ROW", 4), ("ROW3", "ROW", 3), ("ROW4", "ROW", 4), ("2DDWAVE", "2DDWAVE", 4), ("2DDWAVE3", "2DDWAVE", 3), ("2DDWAVE4", "2DDWAVE", 4),
             ("2DDWAVEHEX", "2DDWAVEHEX", 4), ("2DDWAVEHEX3", "2DDWAVEHEX", 3), ("2DDWAVEHEX4", "2DDWAVEHEX", 4), ("USE", "USE", 4), ("RES", "RES", 4),
             ("ESR", "ESR", 4), ("CFE", "CFE", 4), ("RIPPLE", "RIPPLE", 4), ("SRS", "SRS", 4), ("BANCS", "BANCS", 3), ("", None, 0), ("USE4", None, 0),
             ("2DDWAVE5", None, 0), ("OPE", None, 0), ("BANCSX", None, 0)]
    G = "HL<odd_row_hex>"
    for nm, N, n in names:
        alpha = [i for i, ch in enumerate(nm) if ch.isalpha()]
        sig = ", ".join(f"bool b{i}" for i in alpha) or "int n"
        body = f'char t[] = "{nm}"; ' + "".join(f"t[{i}] = static_cast<char>(t[{i}] + 32 * b{i}); " for i in alpha) + f"const auto s = get_clocking_scheme<{G}>(std::string_view{{t, {len(nm)}}}); "
        body += f'return s.has_value() && named(*s, "{N}", {n});' if N else "return !s.has_value();"
        w.ob(f"name_{nm}", sig, body, {}, "name", anchor=A, limit=250)
    # clocked layouts
    T = "static constexpr int T[4][4] = {{3,0,1,2},{0,1,0,3},{1,2,3,0},{0,3,2,1}}; "
    RL = {"k": (0, M // 4), "p": (0, 3), "l": (0, M // 4), "q": (0, 3), "w": (0, M), "h": (0, M)}
    w.ob("zones", "int w, int h, int k, int p, int l, int q", T + """const I x = I{k} * 4 + p, y = I{l} * 4 + q; if (x > w || y > h) { return true; }
        const CL t{C{w, h}, res_clocking<CL>()}; const C c{x, y}; std::vector<C> in{}, out{}, fi{}, fo{}; const int z = T[q][p]; int ni = 0, no = 0;
        const int nb[4] = {y > 0 ? T[(q + 3) % 4][p] : -9, x < w ? T[q][(p + 1) % 4] : -9, y < h ? T[(q + 1) % 4][p] : -9, x > 0 ? T[q][(p + 3) % 4] : -9};
        const C nc[4] = {t.north(c), t.east(c), t.south(c), t.west(c)};
        for (int i = 0; i < 4; ++i) { if (nb[i] >= 0 && (nb[i] + 1) % 4 == z) { in.push_back(nc[i]); } if (nb[i] >= 0 && (z + 1) % 4 == nb[i]) { out.push_back(nc[i]); } }
        t.foreach_incoming_clocked_zone(c, [&](const auto& a) { fi.push_back(a); }); t.foreach_outgoing_clocked_zone(c, [&](const auto& a) { fo.push_back(a); });
        const auto perm = [](const auto& a, const auto& b) { if (a.size() != b.size()) { return false; } for (const auto& e : a) { int n = 0; for (const auto& f : b) { n += e == f; } if (n != 1) { return false; } } return true; };
        return perm(t.incoming_clocked_zones(c), in) && perm(t.outgoing_clocked_zones(c), out) && perm(fi, in) && perm(fo, out) && t.in_degree(c) == in.size() &&
            t.out_degree(c) == out.size() && t.degree(c) == in.size() + out.size();""", RL, "zones", anchor=B, limit=250)
    w.ob("clocked", "int x, int y, int u, int v, unsigned char a, unsigned char b, int n3", """CL t{C{M, M}, n3 ? open_clocking<CL>(num_clks::THREE) : open_clocking<CL>()};
        const int n = n3 ? 3 : 4; const C c{x, y}, d{u, v}; t.assign_clock_number(c, a); t.assign_clock_number(d, b); const bool eq = x == u && y == v;
        const int ca = eq ? b % n : a % n, cb = b % n; return t.get_clock_number(c) == ca && t.get_clock_number(d) == cb && !t.is_regularly_clocked() && t.num_clocks() == n &&
        t.is_incoming_clocked(c, d) == (!eq && (cb + 1) % n == ca) && t.is_outgoing_clocked(c, d) == (!eq && (ca + 1) % n == cb) && t.is_clocking_scheme("OPEN") &&
        !t.is_clocking_scheme("USE");""".replace("M", str(M)), R | {"n3": (0, 1)}, "clocked", anchor=B, limit=120)
    w.ob("replace", "int x, int y, int u, int v, unsigned char a", """CL t{C{9, 9}}; if (!t.is_clocking_scheme("OPEN") || t.num_clocks() != 4) { return false; }
        t.assign_clock_number(C{u, v}, a); t.replace_clocking_scheme(row_clocking<CL>(num_clks::THREE)); return t.is_clocking_scheme("ROW") && t.num_clocks() == 3 && t.is_regularly_clocked() &&
        t.get_clock_number(C{x, y}) == static_cast<int>(y % 3) && t.get_clocking_scheme() == std::string{"ROW"} && t.get_clocking_scheme()(C{x, y}) == static_cast<int>(y % 3);""", R, "clocked", anchor=B, split_mod=4)
    w.ob("clone", "int x, int y, unsigned char a, unsigned char b, bool other", """CL t{C{9, 9}}; const C c{x, y}; t.assign_clock_number(c, a); auto k = t.clone(); const auto s = t;
        (other ? k : t).assign_clock_number(c, b); return t.get_clock_number(c) == (other ? a : b) % 4 && k.get_clock_number(c) == (other ? b : a) % 4 &&
        s.get_clock_number(c) == t.get_clock_number(c) && k.x() == 9 && k.y() == 9 && k.is_clocking_scheme("OPEN");""", R, "clone", anchor=B)
    w.run()
