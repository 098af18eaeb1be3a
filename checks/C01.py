"""C01: comparison of coordinates is the documented lexicographic order, equality is field-wise (dead flag included)."""
import coordw as W

RULE = "comparison-contract"
ANCH = "include/fiction/layouts/coordinates.hpp"


META = dict(
    title='Coordinate comparison is the documented total order and field-wise equality',
    statement='For all three coordinate systems (offset, cube, SiQAD), equality holds exactly when the column, row, layer and dead/live state of both coordinates agree, and inequality is its negation. Less-than, greater-than and their non-strict forms are the strict/non-strict lexicographic order on (layer, row, column) for offset and cube coordinates and on (row, sub-row, column) for SiQAD coordinates, the dead/live state not taking part. An offset coordinate equals a 64-bit integer exactly when that integer is its own 64-bit encoding.',
    forall='all pairs of coordinates of each system: every column, row and layer value representable, dead or live',
    why='the coordinate tests are not part of what builds here and sample a dozen literals; the order must hold for every pair, including negative and dead coordinates',
    mechanism=["comparison operators of the three coordinate structs @ include/fiction/layouts/coordinates.hpp:185-330,430-560,690-830"],
    files=["include/fiction/layouts/coordinates.hpp"],
    technique='abstract interpretation of LLVM IR (trace partitioning, exact linear numeric domain) over witness units',
    note='Every obligation is proved for all values of the stated ranges by abstract interpretation of the IR clang produces from the current tree; trusts the clang front end and the interpreter in lib/.',
)


def run(c):
    code = [W.PRELUDE]
    obs = []
    for s in "UKS":
        if s == "S":
            lt = "ay != by ? ay < by : (az != bz ? az < bz : ax < bx)"
        else:
            lt = "az != bz ? az < bz : (ay != by ? ay < by : ax < bx)"
        eqd = "ax == bx && ay == by && az == bz && ad == bd"
        ops = {
            "lt": ("a < b", f"({lt})"),
            "gt": ("a > b", "(" + lt.replace("<", ">") + ")"),
            "le": ("a <= b", "!(" + lt.replace("<", ">") + ")"),
            "ge": ("a >= b", f"!({lt})"),
            "eq": ("a == b", f"({eqd})"),
            "ne": ("a != b", f"!({eqd})"),
        }
        for k, (e, spec) in ops.items():
            fn = f"w_{W.SYS[s]['name']}_{k}"
            code.append(f'extern "C" bool {fn}({W.args(s, "a", "b")}) {{ const auto a = {W.mk(s, "a")}; const auto b = '
                        f'{W.mk(s, "b")}; return ({e}) == {spec}; }}')
            obs.append((fn, W.names("a", "b"), W.ranges(s, 2)))
    # comparison of an offset coordinate with its 64-bit encoding
    code.append('extern "C" bool w_offset_eq_u64(uint32_t ax, uint32_t ay, uint32_t az, bool ad, uint64_t t) { const auto a = '
                'mkU(ax, ay, az, ad); return (a == t) == (t == static_cast<uint64_t>(a)); }')
    obs.append(("w_offset_eq_u64", W.names("a") + ["t"], W.ranges("U", 1)))
    m = c.tu("c01", "\n".join(code))
    for fn, n, r in obs:
        c.prove(m, fn, n, r, RULE, ANCH)
