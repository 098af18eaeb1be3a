"""C21: searches in sequences, queues and maps."""
import itertools
from vf import Wit

A = "include/fiction/utils/stl_utils.hpp"
M = "include/fiction/utils/map_utils.hpp"
META = dict(
    title="Searches find the first match, and only real matches",
    statement="find_first_two_of returns the first position of the searched range at which two consecutive elements equal two consecutive "
              "elements of the pattern range, and the end of the searched range when there is none (in particular when either range has fewer "
              "than two elements), without accessing anything outside the ranges. A searchable priority queue finds an element (and contains() "
              "reports it) exactly if an equal element is stored, keeps popping the greatest element first, and a failed search yields end(). "
              "find_key_with_tolerance returns the first entry in map order whose key differs from the searched key by less than 1e-6, and "
              "end() exactly if there is none.",
    forall="all element values; ranges of up to 4 elements and patterns of up to 3 (thorough: 5 and 3), queues of up to 4 elements, maps of up "
           "to 3 entries with all real keys",
    over=["inputs"],
    why="off-by-one and boundary errors show up only for particular equalities between elements or keys at the tolerance boundary",
    files=[A, M],
    mechanism=["find_first_two_of @ " + A + ":20-60", "searchable_priority_queue @ " + A + ":60-130", "find_key_with_tolerance @ " + M +
               ":15-45"],
    technique="abstract interpretation of LLVM IR over symbolic element values with out-of-bounds detection",
    note="Lengths are bounded, values are not; keys are read as real numbers. The empty-range case of find_first_two_of was repaired.",
)
PRE = """#include <fiction/utils/stl_utils.hpp>
#include <fiction/utils/map_utils.hpp>
#include <map>
#include <queue>
#include <vector>
#include <cmath>
#include <cstdlib>
#include <rbtree.inc>
using V = std::vector<int>;
"""


def run(c):
    w = Wit(c, "c21", PRE, A)
    shapes = [(a, b) for a in range(0, 5) for b in range(0, 4)]
    if c.thorough:
        shapes += [(5, 2), (5, 3), (3, 4)]
    for a, b in shapes:
        xs, ys = [f"x{i}" for i in range(a)], [f"y{i}" for i in range(b)]
        conds = []
        for i in range(a - 1):
            conds.append("(" + (" || ".join(f"(x{i} == y{j} && x{i + 1} == y{j + 1})" for j in range(b - 1)) or "false") + f") ? {i} : ")
        exp = "".join(conds) + str(a)
        fill = "V s; V p; " + "".join(f"s.push_back({x}); " for x in xs) + "".join(f"p.push_back({y}); " for y in ys)
        w.ob(f"two_of_{a}_{b}", ", ".join("int " + x for x in xs + ys) or "int d",
             fill + "const auto r = fiction::find_first_two_of(s.cbegin(), s.cend(), p.cbegin(), p.cend()); "
             f"return r - s.cbegin() == ({exp});", {}, "first-shared-pair", limit=120)
    # arrays: strictly inside the bounds
    w.ob("two_of_array", "int a, int b, int d, int e, int f", "const int s[3] = {a, b, d}; const int p[2] = {e, f}; const int* r = "
         "fiction::find_first_two_of(s, s + 3, p, p + 2); return r - s == ((a == e && b == f) ? 0 : (b == e && d == f) ? 1 : 3);", {},
         "first-shared-pair")
    for n in range(0, 5 if c.thorough else 4):
        xs = [f"x{i}" for i in range(n)]
        sig = ", ".join("int " + x for x in xs + ["v"])
        push = "fiction::searchable_priority_queue<int> q; " + "".join(f"q.push({x}); " for x in xs)
        mem = " || ".join(f"v == {x}" for x in xs) or "false"
        w.ob(f"queue_find_{n}", sig, push + f"const bool in = {mem}; const auto& k = q; if (q.contains(v) != in) return false; "
             "const auto i = q.find(v); const auto j = k.find(v); if (in) { return i != q.end() && j != k.end() && *i == v && *j == v; } "
             "return i == q.end() && j == k.end() && j == k.cend();", {}, "found-exactly-if-stored", limit=200)
        w.ob(f"queue_iter_{n}", ", ".join("int " + x for x in xs) or "int d", push + "const auto& k = q; " +
             (" ".join(f"int n{i} = 0;" for i in range(n))) +
             "unsigned cnt = 0; for (const int e : k) { ++cnt; " + " ".join(f"if (e == {x}) ++n{i};" for i, x in enumerate(xs)) +
             f" }} if (cnt != {n}u || k.cend() - k.cbegin() != {n} || q.end() - q.begin() != {n}) return false; return " +
             (" && ".join(f"n{i} == " + " + ".join(f"({x} == {y})" for y in xs) for i, x in enumerate(xs)) or "true") + ";", {},
             "holds-what-was-pushed", limit=200)
        w.ob(f"queue_order_{n}", ", ".join("int " + x for x in xs) or "int d", push +
             "bool first = true; int last = 0; unsigned cnt = 0; while (!q.empty()) { const int t = q.top(); if (!first && last < t) return "
             f"false; first = false; last = t; q.pop(); if (++cnt > {n}u) return false; }} return cnt == {n}u;", {}, "greatest-first",
             limit=200)
    for n in range(0, 4):
        ks = [f"k{i}" for i in range(n)]
        pre = " && ".join(f"{a} < {b}" for a, b in zip(ks, ks[1:])) or "true"
        cond = "".join(f"(std::fabs({k} - key) < 1e-6) ? {i} : " for i, k in enumerate(ks)) + str(n)
        w.ob(f"map_{n}", ", ".join("double " + x for x in ks + ["key"]), f"if (!({pre})) return true; std::map<double, int> m; " +
             "".join(f"m.emplace({k}, {i}); " for i, k in enumerate(ks)) +
             f"const int e = {cond}; const auto it = fiction::find_key_with_tolerance(m, key); if (e == {n}) return it == m.cend(); "
             "return it != m.cend() && it->second == e;", {}, "first-key-within-tolerance", anchor=M, limit=200)
    w.run()
