"""C23: combinations and permutations."""
import itertools
from vf import Wit

A = "include/fiction/utils/combination_utils.hpp"
V = "vendors/combinations/combinations.h"
META = dict(
    title="Every combination appears exactly once, in order; the sequence is restored",
    statement="Distributing k entities on n positions yields exactly the k-element subsets of {0, ..., n-1}, each once, its positions ascending, "
              "in lexicographic order, and nothing for k = 0 or k > n. for_each_combination visits every choice of the first r of n elements "
              "exactly once, for_each_permutation every ordered choice exactly once; a visitor that returns true ends the enumeration at once "
              "and the visit order of the untouched rest is irrelevant; after a complete enumeration the sequence has its original order.",
    forall="all element values (the enumeration never looks at them); all k and n up to 5 (thorough: 6), sequences of up to 5 elements "
           "(permutations: 4)",
    over=["inputs"],
    why="a missing or doubled combination for one (k, n) silently drops SiDB placements or defect distributions; tests list three of them",
    files=[A, V],
    mechanism=["determine_all_combinations_of_distributing_k_entities_on_n_positions @ " + A + ":20-70",
               "for_each_combination, for_each_permutation and detail:: @ " + V + ":40-560"],
    technique="abstract interpretation of LLVM IR with uninterpreted elements (parametric in the element values)",
    note="Sizes are bounded as stated; the element values are symbolic, so one partition covers all of them. Circular and reversible variants "
         "of the vendored header are not used by fiction and not covered.",
)
PRE = """#include <fiction/utils/combination_utils.hpp>
#include <vector>
#include <cstdint>
struct Rec { unsigned n = 0; int v[130][5]; };
"""


def run(c):
    w = Wit(c, "c23", PRE, V)
    N = 6 if c.thorough else 5
    for n in range(0, N + 1):
        # n fixed, k arbitrary: one partition per k
        lists = []
        for k in range(0, n + 2):
            cs = [] if k == 0 or k > n else list(itertools.combinations(range(n), k))
            lists.append(cs)
        body = f"const auto r = fiction::determine_all_combinations_of_distributing_k_entities_on_n_positions(k, {n}); switch (k) {{ "
        for k in range(1, n + 1):
            cs = lists[k]
            body += f"case {k}: {{ if (r.size() != {len(cs)}u) return false; for (const auto& e : r) {{ if (e.size() != {k}u) return false; }} "
            body += "return " + " && ".join(f"r[{i}][{j}] == {x}" for i, e in enumerate(cs) for j, x in enumerate(e)) + "; } "
        body += "default: return r.empty(); }"
        w.ob(f"distribute_{n}", "uint64_t k", body, {"k": (0, n + 3)}, "all-subsets-once-in-order", anchor=A, limit=200)
    w.ob("distribute_too_many", "uint64_t k, uint64_t n", "if (k <= n) return true; return fiction::"
         "determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n).empty();", {}, "all-subsets-once-in-order", anchor=A)
    for kind, top in (("combination", N), ("permutation", 4)):
        for n in range(0, top + 1):
            for r in range(0, n + 1):
                it = itertools.combinations if kind == "combination" else itertools.permutations
                cs = list(it(range(n), r))
                if len(cs) > 120:
                    continue
                xs = [f"x{i}" for i in range(n)]
                arr = f"int s[{max(n, 1)}] = {{" + ", ".join(xs) + "}; Rec R; "
                call = f"combinations::for_each_{kind}(s, s + {r}, s + {n}, [&](const int* a, const int* b) " \
                       f"{{ if (b - a != {r} || R.n >= 125) {{ R.n = 999; return true; }} for (int i = 0; i < {r}; ++i) R.v[R.n][i] = a[i]; " \
                       "++R.n; return %s; });"
                exp = " && ".join(f"R.v[{i}][{j}] == x{p}" for i, e in enumerate(cs) for j, p in enumerate(e)) or "true"
                back = " && ".join(f"s[{i}] == {x}" for i, x in enumerate(xs)) or "true"
                if kind == "combination":
                    w.ob(f"{kind}_{n}_{r}", ", ".join("int " + x for x in xs) or "int d", arr + call % "false" +
                         f" return R.n == {len(cs)}u && {exp} && {back};", {}, "each-choice-once-and-restored", limit=120)
                else:
                    # distinct values: which tuples are visited, in any order
                    dist = " && ".join(f"{a} < {b}" for a, b in zip(xs, xs[1:])) or "true"
                    cnt = " ".join(f"{{ unsigned q = 0; for (unsigned i = 0; i < R.n; ++i) {{ if (" +
                                   (" && ".join(f"R.v[i][{j}] == x{p}" for j, p in enumerate(e)) or "true") +
                                   ") ++q; } if (q != 1) return false; }" for e in cs)
                    w.ob(f"{kind}_{n}_{r}", ", ".join("int " + x for x in xs) or "int d", f"if (!({dist})) return true; " + arr +
                         call % "false" + f" if (R.n != {len(cs)}u) return false; {cnt} return {back};", {},
                         "each-choice-once-and-restored", limit=120)
                if n >= 2 and 0 < r and len(cs) > 2:
                    w.ob(f"{kind}_stop_{n}_{r}", ", ".join(["int " + x for x in xs] + ["unsigned k"]), arr + call % "R.n == k" +
                         f" return R.n == (k == 0 || k > {len(cs)}u ? {len(cs)}u : k);", {"k": (0, min(len(cs), 12) + 1)},
                         "visitor-ends-the-enumeration", limit=120)
    w.run()
