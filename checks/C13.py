"""C13: CSV lines."""
import stdmodels as SM
from absint import IVal, FVal, PVal, BVal
from poly import Poly
from vf import Broken

A = "include/fiction/io/csv_writer.hpp"
META = dict(
    title="A CSV line holds its values in order, separated by commas, ended by one newline",
    statement="Writing a line of values to a CSV writer appends to its stream exactly the stream representation of each value, in the order "
              "given, with one comma between neighbouring values and one newline at the end, whatever the number, type or content of the "
              "values; a line without values is a single newline. Nothing else is written to the stream.",
    forall="lines of 0 to 8 values of built-in, string and user-defined types with arbitrary contents, and any number of lines",
    why="the test writes a few literal lines; separators and terminators must be right for every number, type and content of values",
    files=[A],
    mechanism=["write_line @ " + A + ":30-80"],
    technique="abstract interpretation of LLVM IR recording the abstract stream contents of each path",
    note="Each witness line is analysed for all values of its arguments (strings up to 100 symbolic characters); the number of values per "
         "line is 0 to 8 and argument types are sampled from built-in, string and user-defined types; trusts clang and lib/.",
)

KINDS = {
    "i": ("int", "int"), "u": ("unsigned long", "unsigned long"), "d": ("double", "double"), "c": ("char", "chr"), "b": ("bool", "bool"),
    "l": ("long", "long"), "f": ("float", "float"), "U": ("const A&", "user"), "V": ("const B&", "user"),
    "S": ("const std::string&", "str"), "T": ("const std::string&", "lstr"), "h": ("unsigned short", "unsigned short"),
}
LINES = ["", "i", "d", "S", "U", "c", "b", "ii", "iS", "Si", "UV", "uT", "Tf", "dSU", "bcl", "VVV", "SSS", "iUdS", "UVUV", "iiiii",
         "SuUdc", "iSdUVb", "hhhhhhh", "UiSdcbul"]


def user(m, s, fr, ins, name, args):
    SM.append(m, s, args[0], [("user", m.m.fn[name]["dem"].split("(")[1].split(", ")[-1].split(" ")[0].rstrip(")"), args[1])])
    m.finish(s, fr, ins, args[0])


def mkstr(m, s, n, nm):
    from poly import Atom
    o = m.new_obj(s, 32)
    cs = [IVal(8, Poly.atom(Atom(("var", f"{nm}[{i}]", "str", i), 0, 255))) for i in range(n)]
    SM.write_string(m, s, o, cs)
    return o, cs


def same(s, a, b):
    """two stream items are equal on this partition"""
    if isinstance(a, IVal) and isinstance(b, IVal):
        d = s.ctx.norm(a.p - b.p)
        return all(c % 256 == 0 for c in d.t.values())
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "num":
            x, y = a[2], b[2]
            if a[1] != b[1]:
                return False
            if isinstance(x, FVal) and isinstance(y, FVal):
                return not (x.r - y.r).norm(s.ctx).num.t
            if isinstance(x, IVal) and isinstance(y, IVal):
                n = 1 << min(x.w, y.w)
                return all(c % n == 0 for c in s.ctx.norm(x.p - y.p).t.values())
            if isinstance(x, BVal) and isinstance(y, BVal):
                return x.l == y.l
            return False
        if a[0] == "user":
            return a[1] == b[1] and a[2].b == b[2].b and a[2].o == b[2].o
    return False


def show(it):
    out = []
    for x in it:
        if isinstance(x, IVal):
            out.append(repr(chr(x.p.cval())) if x.p.is_const() else f"<{x.p}>")
        else:
            out.append("<" + " ".join(str(y) for y in x) + ">")
    return "".join(out)[:400]


def run(c):
    code = ["#include <fiction/io/csv_writer.hpp>\n#include <string>\n#include <ostream>\nstruct A { int v; }; struct B { double v[3]; };\n"
            "std::ostream& operator<<(std::ostream&, const A&); std::ostream& operator<<(std::ostream&, const B&);"]
    ws = []
    for k, line in enumerate(LINES):
        ps = [f"{KINDS[t][0]} a{i}" for i, t in enumerate(line)]
        fn = f"w_line{k}_{line or 'empty'}"
        code.append(f'extern "C" void {fn}({", ".join(["std::ostream& os"] + ps)}) {{ fiction::csv_writer w{{os}}; w.write_line('
                    f'{", ".join(f"a{i}" for i in range(len(line)))}); }}')
        ws.append((fn, [line]))
    # two lines through one writer and literals
    code.append('extern "C" void w_two(std::ostream& os, int a0, const A& a1, double a2, const std::string& a3) { fiction::csv_writer '
                'w{os}; w.write_line(a0, a1); w.write_line(); w.write_line(a2, a3); }')
    ws.append(("w_two", ["iU", "", "dS"]))
    code.append('extern "C" void w_lit(std::ostream& os, int a0) { fiction::csv_writer w{os}; w.write_line("ab", a0, "", "c,d"); }')
    mod = c.tu("c13", "\n".join(code), flags=["-D_GLIBCXX_EXTERN_TEMPLATE=1"])
    models = [(r"operator<<\(std::(ostream|basic_ostream<char, std::char_traits<char> ?>)&, (A|B) const&\)$", user)] + SM.STREAMS
    for fn, lines in ws + [("w_lit", None)]:
        want = []

        def setup(m, s, args):
            i = 1
            args = list(args)
            for ln in lines if lines is not None else ["i"]:
                items = []
                for t in ln:
                    kind = KINDS[t][1]
                    if kind in ("str", "lstr"):
                        o, cs = mkstr(m, s, 3 if kind == "str" else 100, f"s{i}")
                        args[i] = o
                        items.append(cs)
                    elif kind == "user":
                        items.append([("user", "A" if t == "U" else "B", args[i])])
                    elif kind == "chr":
                        items.append([args[i]])
                    elif kind == "unsigned short":
                        items.append([("num", "unsigned short", args[i])])
                    else:
                        items.append([("num", kind, args[i])])
                    i += 1
                if lines is None:
                    items = [[IVal(8, ord("a")), IVal(8, ord("b"))], items[0], [], [IVal(8, ord(x)) for x in "c,d"]]
                for j, it in enumerate(items):
                    if j:
                        want.append(IVal(8, ord(",")))
                    want.extend(it)
                want.append(IVal(8, 10))
            return args
        m, args, ats, outs, why = c.explore(mod, fn, models=models, setup=setup)
        if why or not outs:
            c.ob(fn, "undecided", "line-form", why or "no path", A)
            continue
        bad = None
        for o in outs:
            got = [x for x in SM.content(o.st, args[0]) if not (isinstance(x, tuple) and x[0] == "flush")]
            if o.kind != "ret":
                bad = f"leaves with {o.kind} {o.val}"
            elif len(got) != len(want) or not all(same(o.st, x, y) for x, y in zip(got, want)):
                bad = f"writes {show(got)}, expected {show(want)}"
            if bad and any(e[0] == "call" for e in m.events(o.st)):
                bad, why = None, "uninterpreted call " + str([e[2] for e in m.events(o.st) if e[0] == "call"])[:200]
            if bad:
                break
        if why and not bad:
            c.ob(fn, "undecided", "line-form", why, A)
            continue
        c.expect(fn, bad is None, "line-form", bad or "", A)
