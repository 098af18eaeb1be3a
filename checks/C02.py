"""C02: 64-bit encoding of offset coordinates is a bijection that keeps every field; live/dead construction semantics."""
import coordw as W

ANCH = "include/fiction/layouts/coordinates.hpp"


META = dict(
    title='64-bit offset encoding is lossless; construction and death keep components',
    statement='Converting an offset coordinate to its 64-bit encoding and back, or a 64-bit word to a coordinate and back, loses nothing: the encoding holds, from the most significant bit, the dead flag, the layer bit, 31 row bits and 31 column bits. In all three systems a default-constructed coordinate is dead at the origin, a coordinate constructed from component values is live and has exactly those components (layer 0 when omitted), and obtaining the dead copy of a coordinate keeps its components and makes it unequal to (but neither less nor greater than) the live one.',
    forall='all 64-bit words and all component values of the ranges the systems represent',
    why='2^64 encodings; tests convert a few',
    mechanism=["bit-field layout, constructors, conversion operator, get_dead/is_dead @ include/fiction/layouts/coordinates.hpp:60-180"],
    files=["include/fiction/layouts/coordinates.hpp"],
    technique='abstract interpretation of LLVM IR (trace partitioning, exact linear numeric domain) over witness units',
    note='Every obligation is proved for all values of the stated ranges by abstract interpretation of the IR clang produces from the current tree; trusts the clang front end and the interpreter in lib/.',
)


def run(c):
    code = [W.PRELUDE]
    obs = []

    def ob(fn, sig, body, names, ranges, rule):
        code.append(f'extern "C" bool {fn}({sig}) {{ {body} }}')
        obs.append((fn, names, ranges, rule))

    ob("w_enc_roundtrip", "uint64_t t", "return static_cast<uint64_t>(U{t}) == t;", ["t"], {}, "encoding-bijective")
    ob("w_dec_roundtrip", W.args("U", "a"),
       "const auto a = mkU(ax, ay, az, ad); const U b{static_cast<uint64_t>(a)}; return b.x == a.x && b.y == a.y && b.z == a.z && "
       "b.is_dead() == a.is_dead();", W.names("a"), W.ranges("U", 1), "encoding-bijective")
    ob("w_enc_fields", W.args("U", "a"),
       "const auto t = static_cast<uint64_t>(mkU(ax, ay, az, ad)); return (t & 0x7fffffffull) == ax && ((t >> 31) & 0x7fffffffull) "
       "== ay && ((t >> 62) & 1ull) == az && (t >> 63) == (ad ? 1u : 0u);", W.names("a"), W.ranges("U", 1), "encoding-fields")
    ob("w_enc_default", "", "return static_cast<uint64_t>(U{}) == (1ull << 63);", [], {}, "default-is-dead")
    for s, n in (("U", "offset"), ("K", "cube"), ("S", "siqad")):
        t = W.SYS[s]["t"]
        rg = W.ranges(s, 1)
        ob(f"w_{n}_default_dead", "", f"const {s} c{{}}; return c.is_dead() && c.x == 0 && c.y == 0 && c.z == 0;", [], {},
           "default-is-dead")
        ob(f"w_{n}_ctor3", f"{t} x, {t} y, {t} z",
           f"const {s} c{{x, y, z}}; return !c.is_dead() && c.x == x && c.y == y && c.z == z;", ["x", "y", "z"],
           {i: rg[i] for i in range(3)}, "constructed-is-live")
        ob(f"w_{n}_ctor3w", "int64_t x, int64_t y, int64_t z",
           f"const {s} c{{x, y, z}}; return !c.is_dead() && c.x == x && c.y == y && c.z == z;", ["x", "y", "z"],
           {i: rg[i] for i in range(3)}, "constructed-is-live")
        ob(f"w_{n}_ctor2", f"{t} x, {t} y",
           f"const {s} c{{x, y}}; return !c.is_dead() && c.x == x && c.y == y && c.z == 0;", ["x", "y"],
           {i: rg[i] for i in range(2)}, "constructed-is-live")
        ob(f"w_{n}_get_dead", f"{t} x, {t} y, {t} z, bool twice",
           f"const {s} c{{x, y, z}}; auto e = c.get_dead(); if (twice) {{ e = e.get_dead(); }} return e.is_dead() && e.x == c.x && "
           "e.y == c.y && e.z == c.z && !c.is_dead();", ["x", "y", "z", "twice"], {**{i: rg[i] for i in range(3)}, 3: W.BIT},
           "dead-keeps-fields")
        ob(f"w_{n}_dead_neq_live", f"{t} x, {t} y, {t} z",
           f"const {s} c{{x, y, z}}; return c != c.get_dead() && !(c == c.get_dead()) && !(c < c.get_dead()) && !(c.get_dead() < c);",
           ["x", "y", "z"], {i: rg[i] for i in range(3)}, "dead-differs-from-live")
    m = c.tu("c02", "\n".join(code))
    for fn, n, r, rule in obs:
        c.prove(m, fn, n, r, rule, ANCH)
