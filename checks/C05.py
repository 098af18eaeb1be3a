"""C05: addition and subtraction of coordinates act per axis (SiQAD: on columns and dimer rows) and are inverse."""
import coordw as W

ANCH = "include/fiction/layouts/coordinates.hpp"
H = (-(1 << 28), (1 << 28) - 1)


META = dict(
    title='Coordinate addition and subtraction act per axis and are inverse to each other',
    statement='Adding or subtracting two cube coordinates adds or subtracts columns, rows and layers separately; adding or subtracting two SiQAD coordinates adds or subtracts columns and dimer-sub-row indices 2*y+z, with a result sub-row of 0 or 1. The result is live, SiQAD addition commutes, and for a live first operand adding and then subtracting (or the reverse) the same coordinate gives the first operand back.',
    forall='all component values up to 2^28 in magnitude (no overflow), dead or live operands',
    why='carries between sub-rows for negative operands are input-dependent; tests sample few sums',
    mechanism=["operator+ / operator- of cube and SiQAD coordinates @ include/fiction/layouts/coordinates.hpp:560-620,790-830"],
    files=["include/fiction/layouts/coordinates.hpp"],
    technique='abstract interpretation of LLVM IR (trace partitioning, exact linear numeric domain) over witness units',
    note='Every obligation is proved for all values of the stated ranges by abstract interpretation of the IR clang produces from the current tree; trusts the clang front end and the interpreter in lib/.',
)


def run(c):
    code = [W.PRELUDE]
    obs = []

    def ob(fn, sig, body, names, ranges, rule):
        code.append(f'extern "C" bool {fn}({sig}) {{ {body} }}')
        obs.append((fn, names, ranges, rule))

    sig = W.args("K", "a", "b")
    rg = {i: H for i in (0, 1, 2, 4, 5, 6)}
    rg.update({3: W.BIT, 7: W.BIT})
    pre = "const auto a = mkK(ax, ay, az, ad); const auto b = mkK(bx, by, bz, bd); "
    n = W.names("a", "b")
    ob("w_cube_add", sig, pre + "const auto r = a + b; return !r.is_dead() && r.x == ax + bx && r.y == ay + by && r.z == az + bz;", n,
       rg, "axis-wise")
    ob("w_cube_sub", sig, pre + "const auto r = a - b; return !r.is_dead() && r.x == ax - bx && r.y == ay - by && r.z == az - bz;", n,
       rg, "axis-wise")
    ob("w_cube_inverse", sig, pre + "return ad || ((a + b) - b == a && (a - b) + b == a);", n, rg, "inverse")
    rg = {i: H for i in (0, 1, 4, 5)}
    rg.update({2: W.BIT, 6: W.BIT, 3: W.BIT, 7: W.BIT})
    pre = ("const auto a = mkS(ax, ay, az, ad); const auto b = mkS(bx, by, bz, bd); const int64_t ra = 2ll * ay + az; "
           "const int64_t rb = 2ll * by + bz; ")
    ob("w_siqad_add", sig, pre + "const auto r = a + b; return !r.is_dead() && r.x == ax + bx && 2ll * r.y + r.z == ra + rb;", n, rg,
       "row-additive")
    ob("w_siqad_sub", sig, pre + "const auto r = a - b; return !r.is_dead() && r.x == ax - bx && 2ll * r.y + r.z == ra - rb;", n, rg,
       "row-additive")
    ob("w_siqad_inverse", sig, pre + "return ad || ((a + b) - b == a && (a - b) + b == a);", n, rg, "inverse")
    ob("w_siqad_commute", sig, pre + "return a + b == b + a;", n, rg, "row-additive")
    m = c.tu("c05", "\n".join(code))
    for fn, nn, r, rule in obs:
        c.prove(m, fn, nn, r, rule, ANCH)
