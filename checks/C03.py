"""C03: hashing is consistent with equality."""
from vf import Wit
import coordw as W

H = "include/fiction/utils/hash.hpp"
META = dict(
    title="Values that compare equal have equal hashes",
    statement="For coordinates of all three systems, port positions, port directions, port lists, SiDB defects, and arrays, sets, "
              "multisets and pairs of such values, equal values always have equal hashes, whatever components equality does not look at. "
              "The order-insensitive hash combination gives the same result for every order in which values are combined, and its "
              "contribution depends on the combined value only.",
    forall="all pairs of equal values of each type (sets and arrays with up to three elements); all seeds",
    why="hash containers silently lose entries when this breaks for a single pair; tests hash a few values",
    files=[H, "include/fiction/layouts/coordinates.hpp", "include/fiction/technology/cell_ports.hpp",
           "include/fiction/technology/sidb_defects.hpp"],
    mechanism=["hash_combine, hash_combine_unordered, std::hash specialisations @ " + H + ":25-130",
               "std::hash of ports @ include/fiction/technology/cell_ports.hpp:170-220"],
    technique="abstract interpretation of LLVM IR, hashes as symbolic terms of the hashed components",
    note="For each type the hashes of two values assumed equal are proved identical as terms; container cases cover up to three elements; "
         "trusts clang and lib/.",
)


def run(c):
    w = Wit(c, "c03", W.PRELUDE + "#include \"rbtree.inc\"\n#include <fiction/technology/cell_ports.hpp>\n#include <fiction/technology/sidb_defects.hpp>\n"
            "#include <fiction/utils/hash.hpp>\n#include <array>\n#include <set>\n#include <utility>\n"
            "using PP = fiction::port_position; using PD = fiction::port_direction; using D = fiction::sidb_defect;\n"
            "template <class T> static inline bool ok(const T& a, const T& b) { return !(a == b) || std::hash<T>{}(a) == "
            "std::hash<T>{}(b); }", H)
    C = "include/fiction/layouts/coordinates.hpp"
    for s in "UKS":
        r = {n: v for n, v in zip(W.names("a", "b"), W.SYS[s]["rng"] * 2)}
        n = W.SYS[s]["name"]
        w.ob(n, W.args(s, "a", "b"), f"return ok({W.mk(s, 'a')}, {W.mk(s, 'b')});", r, "equal-values-equal-hashes", C)
        w.ob(n + "_pair", W.args(s, "a", "b"), f"const auto a = {W.mk(s, 'a')}; const auto b = {W.mk(s, 'b')}; return "
             "ok(std::make_pair(a, b), std::make_pair(b, a));", r, "equal-values-equal-hashes")
        w.ob(n + "_array", W.args(s, "a", "b"), f"const auto a = {W.mk(s, 'a')}; const auto b = {W.mk(s, 'b')}; using A2 = "
             f"std::array<{s}, 2>; return ok(A2{{a, b}}, A2{{b, a}});", r, "equal-values-equal-hashes")
    P = "include/fiction/technology/cell_ports.hpp"
    p4 = "uint16_t x, uint16_t y, uint16_t u, uint16_t v, bool i, bool o, bool j, bool q"
    w.ob("port_position", p4, "return ok(PP{x, y, i, o}, PP{u, v, j, q});", {}, "equal-values-equal-hashes", P)
    w.ob("port_direction", "uint8_t a, uint8_t b, bool i, bool o, bool j, bool q",
         "return ok(PD{static_cast<PD::cardinal>(a), i, o}, PD{static_cast<PD::cardinal>(b), j, q});", {}, "equal-values-equal-hashes", P)
    w.ob("port_pair", p4, "return ok(std::make_pair(PP{x, y, i, o}, PP{u, v, j, q}), std::make_pair(PP{x, y, j, q}, PP{u, v, i, o}));",
         {}, "equal-values-equal-hashes", P)
    w.ob("defect", "uint8_t t, int64_t q, double e, double l, uint8_t t2, int64_t q2, double e2, double l2",
         "return ok(D{static_cast<fiction::sidb_defect_type>(t), q, e, l}, D{static_cast<fiction::sidb_defect_type>(t2), q2, e2, l2});",
         {"e": (0, 1000), "l": (0, 1000), "e2": (0, 1000), "l2": (0, 1000)}, "equal-values-equal-hashes",
         "include/fiction/technology/sidb_defects.hpp")
    w.ob("array3", "uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e, uint32_t f",
         "using A3 = std::array<uint32_t, 3>; return ok(A3{a, b, c}, A3{d, e, f});", {}, "equal-values-equal-hashes")
    w.ob("pair_u", "uint32_t a, uint64_t b, uint32_t d, uint64_t e", "using Q = std::pair<uint32_t, uint64_t>; return ok(Q{a, b}, Q{d, e});",
         {}, "equal-values-equal-hashes")
    # ordered containers: equal contents, any insertion order, equality blind components differ
    u3 = "uint8_t a, uint8_t b, uint8_t i, uint8_t j"
    w.ob("set2", u3, "using S2 = std::set<uint8_t>; S2 s; s.insert(a); s.insert(b); S2 t; t.insert(i); t.insert(j); return ok(s, t);", {},
         "equal-values-equal-hashes")
    w.ob("set3", "uint8_t a, uint8_t b, uint8_t c", "using S2 = std::set<uint8_t>; S2 s; s.insert(a); s.insert(b); s.insert(c); S2 t; "
         "t.insert(c); t.insert(b); t.insert(a); return s == t && ok(s, t);", {}, "equal-values-equal-hashes")
    w.ob("multiset2", u3, "using S2 = std::multiset<uint8_t>; S2 s; s.insert(a); s.insert(b); S2 t; t.insert(i); t.insert(j); return "
         "ok(s, t);", {}, "equal-values-equal-hashes")
    w.ob("multiset3", "uint8_t a, uint8_t b, uint8_t c", "using S2 = std::multiset<uint8_t>; S2 s; s.insert(a); s.insert(b); s.insert(c); "
         "S2 t; t.insert(c); t.insert(b); t.insert(a); return s == t && ok(s, t);", {}, "equal-values-equal-hashes")
    w.ob("port_list", "uint16_t x, uint16_t y, uint16_t u, uint16_t v, bool i, bool o, bool j, bool q",
         "using L = fiction::port_list<PP>; const L a{{PP{x, y, i, o}}, {PP{u, v, j, q}}}; const L b{{PP{u, v, o, i}}, {PP{x, y, q, j}}}; "
         "return ok(a, b);", {}, "equal-values-equal-hashes", P)
    w.ob("port_list_same", "uint16_t x, uint16_t y, uint16_t u, uint16_t v, bool i, bool o, bool j, bool q",
         "using L = fiction::port_list<PP>; const L a{{PP{x, y, i, o}, PP{u, v, j, q}}, {PP{u, v, j, i}}}; const L b{{PP{u, v, o, i}, PP{x, "
         "y, q, j}}, {PP{u, v, q, o}}}; return a == b && ok(a, b);", {}, "equal-values-equal-hashes", P)
    # order-insensitive combination
    u = "fiction::hash_combine_unordered"
    w.ob("unordered_commutes", "uint64_t s, uint64_t a, uint64_t b", f"std::size_t h = s; {u}(h, a); {u}(h, b); std::size_t g = s; "
         f"{u}(g, b); {u}(g, a); return h == g;", {}, "order-insensitive")
    w.ob("unordered_commutes3", "uint64_t s, uint64_t a, uint64_t b, uint64_t c", f"std::size_t h = s; {u}(h, a); {u}(h, b); {u}(h, c); "
         f"std::size_t g = s; {u}(g, c); {u}(g, a); {u}(g, b); return h == g;", {}, "order-insensitive")
    w.ob("unordered_local", "uint64_t s, uint64_t t, uint64_t a", f"std::size_t h = s; {u}(h, a); std::size_t g = t; {u}(g, a); return h - "
         "s == g - t;", {}, "contribution-depends-on-value-only")
    for s in "UKS":
        r = {n: v for n, v in zip(W.names("a", "b"), W.SYS[s]["rng"] * 2)}
        w.ob(f"unordered_{W.SYS[s]['name']}", W.args(s, "a", "b"), f"const auto a = {W.mk(s, 'a')}; const auto b = {W.mk(s, 'b')}; "
             f"std::size_t h = 0; {u}(h, a); {u}(h, b); std::size_t g = 0; {u}(g, b); {u}(g, a); return h == g;", r, "order-insensitive")
    w.run()
