"""C17: defect classification and extent."""
from vf import Wit

A = "include/fiction/technology/sidb_defects.hpp"
META = dict(
    title="Every SiDB defect is charged, neutral or none, and its extent follows from that",
    statement="A defect is charged exactly if its charge is non-zero or its type is a stray DB, a silicon vacancy or arsenic; every "
              "other defect is neutral, except that an uncharged defect of the type 'none' is neither. The extent of a charged defect is "
              "(26, 13) or the charged overwrite if given, that of a neutral one (1, 0) or the neutral overwrite if given, and (0, 0) "
              "for none, each overwrite affecting only its own class. Positive, negative and neutral charge predicates depend on the sign "
              "of the charge alone, a defect keeps the type, charge, permittivity and screening length it is constructed with (defaults: "
              "unknown type, zero), and defects compare equal exactly when all four agree.",
    forall="all 256 type values, all 64-bit charges, all permittivities and screening lengths, all overwrites present or absent",
    why="the test samples one defect per type; charge, type and both overwrites combine freely",
    files=[A],
    mechanism=["is_*_defect*, defect_extent, constructor, operator== @ " + A + ":30-260"],
    technique="abstract interpretation of LLVM IR over witness units",
    note="Proved for all values; floating point is abstracted to real arithmetic (no NaN); trusts clang and lib/.",
)
DECL = "uint8_t t, int64_t q, double e, double l"
PRE = "const D d{static_cast<T>(t), q, e, l}; "
CH = "(q != 0 || t == 1 || t == 2 || t == 13)"
R = {"e": (0, 1000), "l": (0, 1000)}


def run(c):
    w = Wit(c, "c17", "#include <fiction/technology/sidb_defects.hpp>\n#include <cstdint>\n#include <optional>\n#include <utility>\n"
            "using D = fiction::sidb_defect; using T = fiction::sidb_defect_type; using X = std::pair<uint16_t, uint16_t>;", A)
    w.ob("enum", "", "return static_cast<int>(T::NONE) == 0 && static_cast<int>(T::DB) == 1 && static_cast<int>(T::SI_VACANCY) == 2 && "
         "static_cast<int>(T::ARSENIC) == 13 && static_cast<int>(T::UNKNOWN) == 14;", {}, "enumerators")
    w.ob("charged", DECL, PRE + f"return fiction::is_charged_defect_type(d) == {CH};", R, "charged-iff")
    w.ob("neutral", DECL, PRE + f"return fiction::is_neutral_defect_type(d) == (!{CH} && t != 0);", R, "neutral-iff")
    w.ob("pos", DECL, PRE + "return fiction::is_positively_charged_defect(d) == (q > 0);", R, "sign-predicate")
    w.ob("neg", DECL, PRE + "return fiction::is_negatively_charged_defect(d) == (q < 0);", R, "sign-predicate")
    w.ob("neu", DECL, PRE + "return fiction::is_neutrally_charged_defect(d) == (q == 0);", R, "sign-predicate")
    w.ob("extent", DECL + ", bool hc, uint16_t cx, uint16_t cy, bool hn, uint16_t nx, uint16_t ny",
         PRE + "std::optional<X> c{}; std::optional<X> n{}; if (hc) { c = X{cx, cy}; } if (hn) { n = X{nx, ny}; } const auto r = "
         f"fiction::defect_extent(d, c, n); if ({CH}) {{ return hc ? (r.first == cx && r.second == cy) : (r.first == 26 && r.second == "
         "13); } if (t != 0) { return hn ? (r.first == nx && r.second == ny) : (r.first == 1 && r.second == 0); } return r.first == 0 && "
         "r.second == 0;", R, "extent")
    w.ob("extent_default", DECL, PRE + f"const auto r = fiction::defect_extent(d); if ({CH}) {{ return r.first == 26 && r.second == 13; }} "
         "if (t != 0) { return r.first == 1 && r.second == 0; } return r.first == 0 && r.second == 0;", R, "extent")
    w.ob("ctor", DECL, PRE + "return static_cast<uint8_t>(d.type) == t && d.charge == q && d.epsilon_r == e && d.lambda_tf == l;", R,
         "fields-kept")
    w.ob("ctor3", "uint8_t t, int64_t q, double e", "const D d{static_cast<T>(t), q, e}; return static_cast<uint8_t>(d.type) == t && "
         "d.charge == q && d.epsilon_r == e && d.lambda_tf == 0.0;", R, "fields-kept")
    w.ob("ctor2", "uint8_t t, int64_t q", "const D d{static_cast<T>(t), q}; return static_cast<uint8_t>(d.type) == t && d.charge == q && "
         "d.epsilon_r == 0.0 && d.lambda_tf == 0.0;", R, "fields-kept")
    w.ob("ctor1", "uint8_t t", "const D d{static_cast<T>(t)}; return static_cast<uint8_t>(d.type) == t && d.charge == 0 && "
         "d.epsilon_r == 0.0 && d.lambda_tf == 0.0;", R, "fields-kept")
    w.ob("ctor0", "", "const D d{}; return d.type == T::UNKNOWN && d.charge == 0 && d.epsilon_r == 0.0 && d.lambda_tf == 0.0;", R,
         "fields-kept")
    w.ob("eq", DECL + ", uint8_t t2, int64_t q2, double e2, double l2", PRE + "const D g{static_cast<T>(t2), q2, e2, l2}; const bool s = "
         "t == t2 && q == q2 && e == e2 && l == l2; return (d == g) == s && (d != g) == !s;", {**R, "e2": (0, 1000), "l2": (0, 1000)},
         "equality")
    w.run()
