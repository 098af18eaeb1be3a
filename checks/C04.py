"""C04: conversions between the coordinate systems keep the position (columns, dimer rows, layers) and round-trip."""
import coordw as W

ANCH = "include/fiction/layouts/coordinates.hpp"
MAXI = (1 << 31) - 1
MINI = -(1 << 31)


META = dict(
    title='Coordinate system conversions keep the position and round-trip',
    statement='Converting a live SiQAD coordinate to a cube or offset coordinate keeps the column, puts it on layer 0 and yields row 2*y+z (saturated to the 32-bit range for cube coordinates); converting a live cube or offset coordinate on layer 0 to SiQAD keeps the column and yields the dimer row and sub-row with 2*y+z equal to the row, for negative rows too, and preserves the order of coordinates. Both directions compose to the identity wherever no saturation occurs, and offset-to-cube conversion keeps all components. Dead SiQAD coordinates convert to dead cube or offset coordinates and dead offset coordinates to dead cube coordinates.',
    forall='all 32-bit columns and rows (non-negative for offset), both sub-rows',
    why='negative and extreme rows are a boundary tests do not enumerate; round-trip must hold for every coordinate',
    mechanism=["to_fiction_coord, to_siqad_coord, offset_to_cube_coord @ include/fiction/layouts/coordinates.hpp:830-960"],
    files=["include/fiction/layouts/coordinates.hpp"],
    technique='abstract interpretation of LLVM IR (trace partitioning, exact linear numeric domain) over witness units',
    note='Every obligation is proved for all values of the stated ranges by abstract interpretation of the IR clang produces from the current tree; trusts the clang front end and the interpreter in lib/.',
)


def run(c):
    code = [W.PRELUDE, "#include <limits>"]
    obs = []

    def ob(fn, sig, body, names, ranges, rule):
        code.append(f'extern "C" bool {fn}({sig}) {{ {body} }}')
        obs.append((fn, names, ranges, rule))

    nm = ["x", "y", "z"]
    # live SiQAD -> cube: column kept, row = 2y+z (saturated to the 32-bit range), layer 0
    ob("w_siqad_to_cube", "int32_t x, int32_t y, int32_t z",
       "const S s{x, y, z}; const auto k = fiction::siqad::to_fiction_coord<K>(s); int64_t r = 2ll * y + z; "
       "if (r > 2147483647ll) { r = 2147483647ll; } if (r < -2147483648ll) { r = -2147483648ll; } "
       "return !k.is_dead() && k.x == x && k.z == 0 && k.y == r;", nm, {0: W.I32, 1: W.I32, 2: W.BIT}, "row-is-2y+z")
    ob("w_siqad_to_offset", "int32_t x, int32_t y, int32_t z",
       "const S s{x, y, z}; const auto k = fiction::siqad::to_fiction_coord<U>(s); "
       "return !k.is_dead() && k.x == x && k.z == 0 && k.y == 2ll * y + z;", nm, {0: (0, MAXI), 1: (0, (1 << 30) - 1), 2: W.BIT},
       "row-is-2y+z")
    ob("w_siqad_to_cube_dead", "int32_t x, int32_t y, int32_t z",
       "const S s{x, y, z}; return fiction::siqad::to_fiction_coord<K>(s.get_dead()).is_dead() && "
       "fiction::siqad::to_fiction_coord<U>(s.get_dead()).is_dead();", nm, {0: W.I32, 1: W.I32, 2: W.BIT}, "dead-maps-to-dead")
    # cube/offset -> SiQAD
    ob("w_cube_to_siqad", "int32_t x, int32_t y",
       "const auto s = fiction::siqad::to_siqad_coord(K{x, y}); return !s.is_dead() && s.x == x && (s.z == 0 || s.z == 1) && "
       "2ll * s.y + s.z == y;", nm[:2], {0: W.I32, 1: W.I32}, "row-is-2y+z")
    ob("w_offset_to_siqad", "uint32_t x, uint32_t y",
       "const auto s = fiction::siqad::to_siqad_coord(U{x, y}); return !s.is_dead() && s.x == static_cast<int64_t>(x) && (s.z == 0 || "
       "s.z == 1) && 2ll * s.y + s.z == static_cast<int64_t>(y);", nm[:2], {0: W.U31, 1: W.U31}, "row-is-2y+z")
    # round trips
    ob("w_rt_siqad_cube", "int32_t x, int32_t y, int32_t z",
       "const S s{x, y, z}; return fiction::siqad::to_siqad_coord(fiction::siqad::to_fiction_coord<K>(s)) == s;", nm,
       {0: W.I32, 1: (-(1 << 30), (1 << 30) - 1), 2: W.BIT}, "round-trip")
    ob("w_rt_cube_siqad", "int32_t x, int32_t y",
       "const K k{x, y}; return fiction::siqad::to_fiction_coord<K>(fiction::siqad::to_siqad_coord(k)) == k;", nm[:2],
       {0: W.I32, 1: W.I32}, "round-trip")
    ob("w_rt_offset_siqad", "uint32_t x, uint32_t y",
       "const U k{x, y}; return fiction::siqad::to_fiction_coord<U>(fiction::siqad::to_siqad_coord(k)) == k;", nm[:2],
       {0: W.U31, 1: W.U31}, "round-trip")
    # distinct live cells of a layer stay distinct (injectivity follows from the row formula); order of rows is kept
    ob("w_mono_siqad", "int32_t ax, int32_t ay, int32_t bx, int32_t by",
       "const K a{ax, ay}; const K b{bx, by}; return (fiction::siqad::to_siqad_coord(a) < fiction::siqad::to_siqad_coord(b)) == (a < b);",
       ["ax", "ay", "bx", "by"], {i: W.I32 for i in range(4)}, "order-preserved")
    # offset -> cube
    ob("w_offset_to_cube", "uint32_t x, uint32_t y, uint32_t z",
       "const auto k = fiction::offset_to_cube_coord(U{x, y, z}); return !k.is_dead() && k.x == static_cast<int64_t>(x) && "
       "k.y == static_cast<int64_t>(y) && k.z == static_cast<int64_t>(z);", nm, {0: W.U31, 1: W.U31, 2: W.BIT}, "fields-kept")
    ob("w_offset_to_cube_dead", "uint32_t x, uint32_t y, uint32_t z",
       "return fiction::offset_to_cube_coord(U{x, y, z}.get_dead()).is_dead();", nm, {0: W.U31, 1: W.U31, 2: W.BIT},
       "dead-maps-to-dead")
    m = c.tu("c04", "\n".join(code))
    for fn, n, r, rule in obs:
        c.prove(m, fn, n, r, rule, ANCH)
