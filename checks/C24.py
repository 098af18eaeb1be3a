"""C24: graph coloring engines."""
import itertools
import os
import stdmodels
import vf
from vf import Wit

D = "vendors/graph-coloring/Source/"
META = dict(
    title="Graph coloring engines return proper colorings of exactly the given vertices",
    statement="The DSATUR, MCS and LMXRLF engines color every vertex of the given graph and no other with a non-negative color such that adjacent "
              "vertices differ; TABUCOL returns such a coloring with at most the allowed number of colors or an empty one. is_valid() is true "
              "exactly if every vertex has a color and no two adjacent ones share it, is_colored() exactly if no vertex is uncolored, "
              "get_color() is the vertex's color or -1 if it has none, and get_num_colors() is the greatest color plus one.",
    forall="all graphs with up to 3 vertices (thorough: 4 for DSATUR and MCS), all random choices (LMXRLF, TABUCOL: few iterations); all color "
           "assignments to up to 3 vertices for the observers",
    over=["inputs", "schedules"],
    why="a coloring is used as a set of mutually compatible routing objectives; an improper one for a single edge set yields crossing wires",
    files=[D + x for x in ("coloring_algorithm.cpp", "dsatur.cpp", "mcs.cpp", "lmxrlf.cpp", "tabucol.cpp")],
    mechanism=["GraphColor @ " + D + "coloring_algorithm.cpp:15-112", "Dsatur::color @ " + D + "dsatur.cpp:10-151",
               "Mcs::color @ " + D + "mcs.cpp:25-114", "Lmxrlf @ " + D + "lmxrlf.cpp:10-359", "Tabucol @ " + D + "tabucol.cpp:14-177"],
    technique="abstract interpretation of LLVM IR with symbolic edge presence and arbitrary random choices",
    note="Vertex names are constant strings, edges are symbolic; larger graphs and longer randomised searches are not explored. The hybrid engines "
         "and the number of colors used are not covered.",
)
PRE = """#include <Source/coloring_algorithm.cpp>
#include <Source/dsatur.cpp>
#include <Source/mcs.cpp>
#include <Source/lmxrlf.cpp>
#include <Source/tabucol.cpp>
#include <rbtree.inc>
namespace GC = GraphColoring;
using Gr = map<string, vector<string>>;
struct Obs final : GC::GraphColor { explicit Obs(const Gr& g) : GC::GraphColor(g) {} map<string, int> color() override { return graph_colors; }
    string get_algorithm() override { return "obs"; } void set(const char* n, int c) { graph_colors[n] = c; } void drop(const char* n) { graph_colors.erase(n); } };
static const char* const N[4] = {"a", "b", "c", "d"};
static Gr graph(unsigned n, const bool (&e)[4][4])
{
    Gr g; for (unsigned i = 0; i < n; ++i) { vector<string> v; for (unsigned j = 0; j < n; ++j) { if (j != i && e[i < j ? i : j][i < j ? j : i]) { v.push_back(N[j]); } } g[N[i]] = v; }
    return g;
}
static bool proper(const map<string, int>& r, unsigned n, const bool (&e)[4][4], int max)
{
    if (r.size() != n) { return false; }
    int c[4];
    for (unsigned i = 0; i < n; ++i) { const auto it = r.find(N[i]); if (it == r.end() || it->second < 0 || it->second > max) { return false; } c[i] = it->second; }
    for (unsigned i = 0; i < n; ++i) { for (unsigned j = i + 1; j < n; ++j) { if (e[i][j] && c[i] == c[j]) { return false; } } }
    return true;
}
"""


def _rand(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, stdmodels.IVal(32, stdmodels.Poly.atom(stdmodels.fresh("rand", 0, (1 << 31) - 1))))


def run(c):
    models = stdmodels.STREAMS + [(r"^rand$", _rand), (r"^(srand|time)$", lambda m, s, fr, ins, name, args: m.finish(
        s, fr, ins, None if ins["t"][0] == "v" else m.fresh_of(ins["t"], "time")))]
    w = Wit(c, "c24", PRE, D, models=models, flags=["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I", os.path.join(vf.REPO, "vendors/graph-coloring")])

    def edges(n):
        ps = list(itertools.combinations(range(n), 2))
        sig = ", ".join(f"bool e{i}{j}" for i, j in ps) or "bool z"
        return sig, "bool e[4][4] = {}; " + " ".join(f"e[{i}][{j}] = e{i}{j};" for i, j in ps)
    T = c.thorough
    for eng, src, top in (("Dsatur", "dsatur.cpp", 4 if T else 3), ("Mcs", "mcs.cpp", 4 if T else 3)):
        for n in range(1, top + 1):
            sig, init = edges(n)
            w.ob(f"{eng.lower()}_{n}", sig, init + f"GC::{eng} q(graph({n}, e)); const auto r = q.color(); if (!proper(r, {n}, e, {n - 1})) return "
                 f"false; return q.is_colored() && q.is_valid() && q.get_coloring() == r;", {}, "proper-coloring", anchor=D + src, init=True, limit=300)
        w.ob(f"{eng.lower()}_0", "bool z", f"GC::{eng} q{{Gr{{}}}}; return q.color().empty();", {}, "proper-coloring", anchor=D + src, init=True)
    for n in (1, 2, 3):
        sig, init = edges(n)
        w.ob(f"lmxrlf_{n}", sig, init + f"GC::Lmxrlf q(graph({n}, e), 0, 0, 1, 0); return proper(q.color(), {n}, e, 100);", {}, "proper-coloring",
             anchor=D + "lmxrlf.cpp", init=True, limit=200, max_states=100000, split_mod=8)
        if n < 3 or T:
            w.ob(f"lmxrlf_search_{n}", sig, init + f"GC::Lmxrlf q(graph({n}, e), 0, 1, 1, {1 if n < 3 else 0}); return proper(q.color(), {n}, e, 100);", {},
                 "proper-coloring", anchor=D + "lmxrlf.cpp", init=True, limit=300, max_states=100000, split_mod=8)
            for k in range(1, n + 1):
                w.ob(f"tabucol_{n}_{k}", sig, init + f"GC::Tabucol q(graph({n}, e), {k}, 1, 1, 1); const auto r = q.color(); return r.empty() || proper(r, "
                     f"{n}, e, {k - 1});", {}, "proper-or-empty", anchor=D + "tabucol.cpp", init=True, limit=300, max_states=100000, split_mod=8)
    for n in (1, 2, 3):
        sig, init = edges(n)
        cs = [f"c{i}" for i in range(n)]
        sg = sig + ", " + ", ".join("int " + x for x in cs) + ", bool m"
        valid = " && ".join([f"c{i} != -1" for i in range(n)] + [f"!(e{i}{j} && c{i} == c{j})" for i, j in itertools.combinations(range(n), 2)])
        # a vertex without neighbours is not looked at by is_valid: only colored graphs are compared
        pre = " && ".join(f"c{i} >= -1" for i in range(n))
        has = [" || ".join([f"e{min(i, j)}{max(i, j)}" for j in range(n) if j != i] or ["false"]) for i in range(n)]
        valid = " && ".join(["!m"] + [f"!(c{i} == -1 && ({has[i]}))" for i in range(n)] +
                            [f"!(e{i}{j} && c{i} == c{j})" for i, j in itertools.combinations(range(n), 2)])
        mx = "0"
        for x in cs:
            mx = f"mx({mx}, {x})"
        w.ob(f"observers_{n}", sg, f"if (!({pre})) return true; " + init + f"const auto mx = [](int p, int q) {{ return p < q ? q : p; }}; Obs q(graph({n}, e)); "
             f"if (q.size() != {n}u || q.is_colored()) return false; " + " ".join(f"q.set(N[{i}], {x});" for i, x in enumerate(cs)) +
             f" const bool all = {' && '.join(x + ' != -1' for x in cs)}; if (q.is_colored() != all || q.get_num_colors() != 1 + {mx}) return false; " +
             " ".join(f"if (q.get_color(N[{i}]) != {x}) return false;" for i, x in enumerate(cs)) + " if (q.get_color(\"zz\") != -1) return false; "
             f"if (m) {{ q.drop(N[0]); if (q.get_color(N[0]) != -1) return false; }} return q.is_valid() == ({valid});", {x: (-5, 1000) for x in cs},
             "observers-tell-the-truth", anchor=D + "coloring_algorithm.cpp", init=True, limit=200)
    w.run()
