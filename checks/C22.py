"""C22: undirected graph container."""
import itertools
from vf import Wit

G = "vendors/undirected_graph/source/undirected_graph.h"
P = "vendors/undirected_graph/source/undirected_pair.h"
S = "vendors/undirected_graph/source/graph_search_iterator.h"
META = dict(
    title="The undirected graph container stays consistent under insertion and removal",
    statement="An undirected pair equals its swap, hashes alike, orders by smaller then bigger element, and yields the respective other element. "
              "After any insertion or removal, a graph's vertices, edges and adjacency lists describe the same graph: b is listed as "
              "adjacent to a exactly once if the edge {a, b} is stored and not at all otherwise, removing a vertex removes exactly its edges, "
              "removing an edge removes exactly that edge, inserting an existing vertex or edge keeps the stored data, and an edge is inserted "
              "only between existing vertices. Breadth- and depth-first iterators visit every vertex of the start's component exactly once.",
    forall="all pairs of 64-bit ids; all graphs over up to 3 vertices (self-loops included for removal), each followed by any one operation; all "
           "start vertices; all vertex and edge data; clearing and re-inserting",
    over=["inputs", "histories"],
    why="stale adjacency entries need a particular insertion/removal history and are only noticed by a later traversal",
    files=[G, P, S],
    mechanism=["undirected_pair @ " + P + ":30-150", "insert/erase of vertices and edges @ " + G + ":330-490",
               "breadth_first_iterator, depth_first_iterator @ " + S + ":20-190"],
    technique="abstract interpretation of LLVM IR against a reference relation, one inductive step from every small graph",
    note="Ids in the graph obligations are the constants 0, 1, 2 (data and edge presence are symbolic); hash-table policy functions that live in "
         "the C++ runtime are replaced by a fixed bucket count (stubs/hashtable.inc).",
)
PRE = """#include <undirected_graph.h>
#include <undirected_pair.h>
#include <graph_search_iterator.h>
#include <cstdint>
#include <hashtable.inc>
using P = undirected_pair<uint64_t>; using G = undirected_graph<uint64_t, int, P, int>;
struct Ref { bool v[3]; int vd[3]; bool e[3][3]; int ed[3][3]; };
static bool same(const G& g, const Ref& r)
{
    unsigned nv = 0, ne = 0;
    for (unsigned i = 0; i < 3; ++i)
    {
        const auto it = g.find_vertex(i);
        if ((it != g.end_vertices()) != r.v[i]) { return false; }
        if (r.v[i]) { ++nv; if (it->first != i || it->second != r.vd[i] || g.at_vertex(i) != r.vd[i]) { return false; } }
        unsigned n[3] = {0, 0, 0};
        if (r.v[i]) { unsigned k = 0; for (auto a = g.begin_adjacent(i); a != g.end_adjacent(i); ++a) { if (*a > 2 || ++k > 6) { return false; } ++n[*a]; } }
        for (unsigned j = 0; j < 3; ++j)
        {
            const bool e = r.e[i][j];
            if (r.v[i] && n[j] != (e ? 1u : 0u)) { return false; }
            if (j >= i)
            {
                const auto f = g.find_edge(G::make_edge_id(j, i));
                if ((f != g.end_edges()) != e) { return false; }
                if (e) { ++ne; if (f->second != r.ed[i][j]) { return false; } }
            }
        }
    }
    return g.size_vertices() == nv && g.size_edges() == ne && g.empty() == (nv == 0);
}
template <class H> static bool lists(H& g, const Ref& r)
{
    unsigned n[3] = {0, 0, 0}, m[3][3] = {}, k = 0;
    for (auto it = g.begin_vertices(); it != g.end_vertices(); ++it) { if (it->first > 2 || ++k > 3) { return false; } ++n[it->first]; }
    k = 0;
    for (auto it = g.begin_edges(); it != g.end_edges(); ++it)
    {
        if (it->first.a > 2 || it->first.b > 2 || ++k > 6) { return false; }
        const auto i = it->first.smaller_element(), j = it->first.bigger_element();
        ++m[i][j];
    }
    for (unsigned i = 0; i < 3; ++i)
    {
        if (n[i] != (r.v[i] ? 1u : 0u)) { return false; }
        unsigned q[3] = {0, 0, 0}; bool thrown = false; k = 0;
        try { for (auto a = g.begin_adjacent(i); a != g.end_adjacent(i); ++a) { if (*a > 2 || ++k > 6) { return false; } ++q[*a]; } }
        catch (const std::out_of_range&) { thrown = true; }
        if (thrown == r.v[i]) { return false; }
        for (unsigned j = i; j < 3; ++j) { if (m[i][j] != (r.e[i][j] ? 1u : 0u)) { return false; } }
        for (unsigned j = 0; j < 3; ++j) { if (q[j] != (r.e[i][j] ? 1u : 0u)) { return false; } }
    }
    return true;
}
static void vert(G& g, Ref& r, unsigned i, int d) { g.insert_vertex(i, d); r.v[i] = true; r.vd[i] = d; }
static void edge(G& g, Ref& r, unsigned i, unsigned j, int d) { g.insert_edge(i, j, d); r.e[i][j] = r.e[j][i] = true; r.ed[i][j] = r.ed[j][i] = d; }
"""
U64 = (0, (1 << 64) - 1)


def run(c):
    w = Wit(c, "c22", PRE, G)
    ab = "uint64_t a, uint64_t b, uint64_t d, uint64_t e"
    w.ob("pair_eq", ab, "const P p{a, b}, q{d, e}; const bool x = (a == d && b == e) || (a == e && b == d); return (p == q) == x && "
         "(p != q) == !x;", {}, "unordered-pair", anchor=P)
    w.ob("pair_hash", "uint64_t a, uint64_t b", "const P p{a, b}, q{b, a}; return p == q && std::hash<P>{}(p) == std::hash<P>{}(q);", {},
         "unordered-pair", anchor=P)
    w.ob("pair_order", ab, "const P p{a, b}, q{d, e}; const uint64_t s = a < b ? a : b, t = a < b ? b : a, u = d < e ? d : e, v = d < e ? e : "
         "d; const bool lt = s < u || (s == u && t < v), gt = u < s || (s == u && v < t); return (p < q) == lt && (p > q) == gt && (p <= q) "
         "== !gt && (p >= q) == !lt;", {}, "unordered-pair", anchor=P)
    w.ob("pair_elems", "uint64_t a, uint64_t b", "P p{a, b}; const P& k = p; const uint64_t s = a < b ? a : b, t = a < b ? b : a; return "
         "p.smaller_element() == s && k.smaller_element() == s && p.bigger_element() == t && k.bigger_element() == t && p.other_element(a) "
         "== b && k.other_element(b) == a && p.other_element(b) == a && k.other_element(a) == b && (a != b || (&p.smaller_element() == &p.a && "
         "&k.smaller_element() == &p.a && &p.bigger_element() == &p.b && &k.bigger_element() == &p.b));", {}, "unordered-pair", anchor=P)
    w.ob("pair_other", "uint64_t a, uint64_t b, uint64_t d", "const P p{a, b}; P q{a, b}; if (d == a || d == b) return true; bool t1 = false, t2 "
         "= false; try { (void)p.other_element(d); } catch (const std::invalid_argument&) { t1 = true; } try { (void)q.other_element(d); } "
         "catch (const std::invalid_argument&) { t2 = true; } return t1 && t2;", {}, "unordered-pair", anchor=P)
    d = "int d0, int d1, int d2, int f0, int f1, int f2, int f3, int x"
    base = "G g; Ref r{}; vert(g, r, 0, d0); vert(g, r, 1, d1); vert(g, r, 2, d2); "
    pairs = [(0, 1), (1, 2), (2, 0)]
    tri = "".join(f"if (e{k}) {{ edge(g, r, {i}, {j}, f{k}); }} " for k, (i, j) in enumerate(pairs))
    es = ", bool e0, bool e1, bool e2"
    w.ob("build", d + es, base + tri + "return same(g, r);", {}, "consistent-after-operation", limit=200)
    w.ob("enumerate", d + es + ", bool l", "G g; Ref r{}; vert(g, r, 1, d1); vert(g, r, 2, d2); if (l) { vert(g, r, 0, d0); if (e0) { edge(g, r, 0, 1, f0); } "
         "if (e2) { edge(g, r, 2, 0, f2); } } if (e1) { edge(g, r, 1, 2, f1); } const G& k = g; return lists(g, r) && lists(k, r);", {},
         "enumerates-the-graph", limit=200)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        w.ob(f"reinsert_{i}", d + es, base + tri + f"g.erase_vertex({i}); r.v[{i}] = false; for (unsigned j = 0; j < 3; ++j) {{ r.e[{i}][j] = "
             f"r.e[j][{i}] = false; }} if (!lists(g, r)) return false; vert(g, r, {i}, x); if (!same(g, r)) return false; edge(g, r, {i}, {j}, f3); "
             "const G& q = g; return same(g, r) && lists(q, r);", {}, "removal-of-a-vertex", limit=200)
    for i in range(3):
        lp = f"if (l) {{ edge(g, r, {i}, {i}, f3); }} "
        w.ob(f"erase_vertex_{i}", d + es + ", bool l", base + lp + tri + f"if (!g.erase_vertex({i})) return false; r.v[{i}] = false; for ("
             f"unsigned j = 0; j < 3; ++j) {{ r.e[{i}][j] = r.e[j][{i}] = false; }} if (!same(g, r)) return false; return "
             f"!g.erase_vertex({i}) && same(g, r);", {}, "removal-of-a-vertex", limit=200)
        w.ob(f"insert_vertex_{i}", d + ", bool e0, bool p", "G g; Ref r{}; " + f"if (p) {{ vert(g, r, {i}, d0); }} vert(g, r, {(i + 1) % 3}, d1); "
             f"if (p && e0) {{ edge(g, r, {i}, {(i + 1) % 3}, f0); }} const auto q = g.insert_vertex({i}, x); if (q.second == p || q.first->first "
             f"!= {i} || q.first->second != (p ? d0 : x)) return false; if (!p) {{ r.v[{i}] = true; r.vd[{i}] = x; }} return same(g, r);", {},
             "insertion-of-a-vertex", limit=200)
    for i, j in itertools.product(range(3), range(3)):
        w.ob(f"erase_edge_{i}{j}", d + es + ", bool l", base + (f"if (l) {{ edge(g, r, {i}, {i}, f3); }} " if i == j else
             "if (l) { edge(g, r, 1, 1, f3); } ") + tri +
             f"const bool had = r.e[{i}][{j}]; if (g.erase_edge(G::make_edge_id({i}, {j})) != had) return false; r.e[{i}][{j}] = r.e[{j}][{i}] = "
             "false; return same(g, r);", {}, "removal-of-an-edge", limit=200)
        w.ob(f"insert_edge_{i}{j}", d + es, base + tri + f"const bool had = r.e[{i}][{j}]; const auto q = g.insert_edge({i}, {j}, x); if (q.second "
             f"== had || q.first->second != (had ? r.ed[{i}][{j}] : x)) return false; if (!had) {{ r.e[{i}][{j}] = r.e[{j}][{i}] = true; "
             f"r.ed[{i}][{j}] = r.ed[{j}][{i}] = x; }} return same(g, r);", {}, "insertion-of-an-edge", limit=200)
    w.ob("insert_edge_missing", d, "G g; Ref r{}; vert(g, r, 0, d0); const auto a = g.insert_edge(0, 1, x); const auto b = g.insert_edge(1, 0, x); "
         "const auto k = g.insert_edge(2, 2, x); return !a.second && !b.second && !k.second && a.first == g.end_edges() && same(g, r);", {},
         "insertion-of-an-edge")
    w.ob("clear", d + es, base + tri + "g.clear(); r = Ref{}; if (!same(g, r) || !lists(g, r)) return false; vert(g, r, 1, x); vert(g, r, 0, d0); if "
         "(!same(g, r)) return false; edge(g, r, 0, 1, f3); return same(g, r) && lists(g, r);", {}, "consistent-after-operation", limit=200)
    for it in ("breadth_first_iterator", "depth_first_iterator"):
        for s in range(3):
            o = [x for x in range(3) if x != s]
            w.ob(f"{it}_{s}", d + es, base + tri + f"{it}<G> i(g, g.find_vertex({s})); unsigned n[3] = {{0, 0, 0}}; unsigned k = 0; while (!i.end()) {{ "
                 "const auto v = i.next(); if (v->first > 2 || v->second != r.vd[v->first] || ++k > 3) return false; if (k == 1 && v->first != "
                 f"{s}) return false; ++n[v->first]; }} const bool a = r.e[{s}][{o[0]}], b = r.e[{s}][{o[1]}], m = r.e[{o[0]}][{o[1]}]; return "
                 f"n[{s}] == 1 && n[{o[0]}] == ((a || (b && m)) ? 1u : 0u) && n[{o[1]}] == ((b || (a && m)) ? 1u : 0u) && i.discovered() == k;",
                 {}, "visits-the-component-once", anchor=S, limit=200)
    w.run()
