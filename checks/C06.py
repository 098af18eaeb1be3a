"""C06: iteration over a bounded coordinate range enumerates the box exactly once in ascending order, then ends."""
import coordw as W

ANCH = "include/fiction/layouts/coordinates.hpp"
B = (0, (1 << 31) - 2)
HB = (0, (1 << 29))


META = dict(
    title='Iterating a coordinate range visits each position of the box exactly once',
    statement='Iteration over the box spanned by the origin and a maximum coordinate (for SiQAD: complete dimer rows) starts at the given start (a negative start component of cube and SiQAD is clamped to the origin), advances column first, then row, then layer (SiQAD: column, sub-row, row) to the next position of the box, and after the last position yields a dead coordinate equal to the end iterator. Post-increment returns the previous position; iterator comparison agrees with comparison of the positions. The reported area and volume of a maximum coordinate are the numbers of positions per layer and in the whole box.',
    forall='all boxes with component values up to 2^31-2 (SiQAD 2^29; area and volume 2^20) and all start positions within',
    why='box corners and row/layer wrap-arounds are unbounded in number; tests iterate a few small boxes',
    mechanism=["coord_iterator, wrap of each system, area, volume @ include/fiction/layouts/coordinates.hpp:120-185,960-1150"],
    files=["include/fiction/layouts/coordinates.hpp"],
    technique='abstract interpretation of LLVM IR (trace partitioning, exact linear numeric domain) over witness units',
    note='Every obligation is proved for all values of the stated ranges by abstract interpretation of the IR clang produces from the current tree; trusts the clang front end and the interpreter in lib/.',
)


def run(c):
    code = [W.PRELUDE, "#include <iterator>\nusing fiction::coord_iterator;"]
    obs = []

    def ob(fn, sig, body, names, ranges, rule):
        code.append(f'extern "C" bool {fn}({sig}) {{ {body} }}')
        obs.append((fn, names, ranges, rule))

    for s, nme in (("U", "offset"), ("K", "cube"), ("S", "siqad")):
        t = W.SYS[s]["t"]
        zr = B if s == "K" else W.BIT
        b = HB if s == "S" else B
        sig = f"{t} X, {t} Y, {t} Z, {t} x, {t} y, {t} z"
        nm = ["X", "Y", "Z", "x", "y", "z"]
        rg = {0: b, 1: b, 2: zr, 3: b, 4: b, 5: zr}
        if s == "S":
            rg[2] = (1, 1)  # complete dimer rows, the only dimension layouts use
            inb = "x <= X && (y < Y || (y == Y && z <= Z))"
            nxt = ("x < X ? (q.x == x + 1 && q.y == y && q.z == z) : (z == 0 ? (q.x == 0 && q.y == y && q.z == 1) : (q.x == 0 && "
                   "q.y == y + 1 && q.z == 0))")
            last = "x == X && y == Y && z == Z"
        else:
            inb = "x <= X && y <= Y && z <= Z"
            nxt = ("x < X ? (q.x == x + 1 && q.y == y && q.z == z) : (y < Y ? (q.x == 0 && q.y == y + 1 && q.z == z) : (q.x == 0 && "
                   "q.y == 0 && q.z == z + 1))")
            last = "x == X && y == Y && z == Z"
        pre = f"const {s} ar{{X, Y, Z}}; const {s} st{{x, y, z}}; if (!({inb})) {{ return true; }} "
        ob(f"w_{nme}_start", sig, pre + f"return *coord_iterator<{s}>{{ar, st}} == st;", nm, rg, "start-in-box-kept")
        ob(f"w_{nme}_succ", sig, pre + f"if ({last}) {{ return true; }} coord_iterator<{s}> it{{ar, st}}; ++it; const auto q = *it; "
           f"return !q.is_dead() && ({nxt});", nm, rg, "successor")
        ob(f"w_{nme}_end", f"{t} X, {t} Y, {t} Z",
           f"const {s} ar{{X, Y, Z}}; coord_iterator<{s}> it{{ar, ar}}; ++it; const coord_iterator<{s}> e{{ar, ar.get_dead()}}; "
           "return it == e && !(it != e) && (*it).is_dead();", nm[:3], {i: rg[i] for i in range(3)}, "end-after-last")
        ob(f"w_{nme}_post", sig, pre + f"coord_iterator<{s}> it{{ar, st}}; coord_iterator<{s}> ref{{ar, st}}; ++ref; const auto o = it++; "
           "return *o == st && *it == *ref;", nm, rg, "post-increment")
        ob(f"w_{nme}_cmp", sig + f", {t} x2, {t} y2, {t} z2",
           pre + f"const {s} s2{{x2, y2, z2}}; {{ const auto x = x2; const auto y = y2; const auto z = z2; if (!({inb})) {{ return true; }} }} "
           f"const coord_iterator<{s}> i{{ar, st}}; const coord_iterator<{s}> j{{ar, s2}}; return (i == j) == (st == s2) && (i != j) == "
           "(st != s2) && (i < j) == (st < s2) && (i <= j) == (st <= s2);", nm + ["x2", "y2", "z2"],
           {**rg, 6: rg[3], 7: rg[4], 8: rg[5]}, "iterator-comparison")
        # any non-negative start: wrapped dimension by dimension, dead if it leaves the box that way
        if s == "S":
            wr = "if (x > X) { x = 0; y += z; z = !z; } const bool in = y <= Y && z <= Z;"
        else:
            wr = "if (x > X) { x = 0; y += 1; } if (y > Y) { y = 0; z += 1; } const bool in = z <= Z;"
        chk = (f"const bool ok = [](const {s}& q, const {s}& ar, {t} x, {t} y, {t} z, bool in) {{ if (in) {{ return !q.is_dead() && q.x == x && q.y == y && q.z == z; }} "
               "return q == ar.get_dead(); }")
        rs = {**rg, 5: W.BIT if s != "K" else zr}
        ob(f"w_{nme}_anystart", sig, f"const {s} ar{{X, Y, Z}}; const {s} st{{x, y, z}}; {{ {wr} {chk}(*coord_iterator<{s}>{{ar, st}}, ar, x, y, z, in); "
           "return ok; }", nm, rs, "start-wrapped-into-box")
        ob(f"w_{nme}_wrap", sig, f"const {s} ar{{X, Y, Z}}; {s} st{{x, y, z}}; st.wrap(ar); {{ {wr} {chk}(st, ar, x, y, z, in); "
           "return ok; }", nm, rs, "start-wrapped-into-box")
        if s != "U":
            zz = "z" if s == "K" else "0"
            lo = {3: (-(1 << 31), -1), 4: (-(1 << 31), -1), 5: (-(1 << 31), -1) if s == "K" else W.BIT}
            ob(f"w_{nme}_clamp", sig,
               f"const {s} ar{{X, Y, Z}}; const {s} st{{x, y, {zz}}}; const {s} o{{0, 0, 0}}; return *coord_iterator<{s}>{{ar, st}} == o;",
               nm, {**rg, **lo}, "negative-start-clamped")
        # number of positions of the box
    vb = (0, (1 << 20))
    for s, nme in (("U", "offset"), ("K", "cube"), ("S", "siqad")):
        t = W.SYS[s]["t"]
        bb = vb
        zr = vb if s == "K" else W.BIT
        if s == "S":
            ar = vo = "(1ull * X + 1) * (2ull * Y + 1ull * Z + 1)"
        else:
            ar = "(1ull * X + 1) * (1ull * Y + 1)"
            vo = ar + " * (1ull * Z + 1)"
        ob(f"w_{nme}_area", f"{t} X, {t} Y, {t} Z", f"const {s} c{{X, Y, Z}}; return fiction::area(c) == {ar};", ["X", "Y", "Z"],
           {0: bb, 1: bb, 2: zr}, "area-counts-positions")
        ob(f"w_{nme}_volume", f"{t} X, {t} Y, {t} Z", f"const {s} c{{X, Y, Z}}; return fiction::volume(c) == {vo};", ["X", "Y", "Z"],
           {0: bb, 1: bb, 2: zr}, "volume-counts-positions")
    m = c.tu("c06", "\n".join(code))
    for fn, nn, r, rule in obs:
        c.prove(m, fn, nn, r, rule, ANCH)
