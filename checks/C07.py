"""C07: Gray code iteration."""
from vf import Wit

A = "include/fiction/algorithms/iter/gray_code_iterator.hpp"
META = dict(
    title="A Gray code iterator always shows the reflected Gray code of its position",
    statement="After any sequence of construction, assignment, increment, decrement and jump operations the value of the iterator is "
              "position xor (position / 2) for the position those operations lead to (modulo 2^64); post-increment and post-decrement "
              "return the state before. Comparison with an integer compares the position, the difference of two iterators is the "
              "difference of their positions, two iterators are equal exactly when their values are equal, and ordering iterators orders "
              "their values. The subscript i is the Gray code of the construction position plus i, whatever moves happened since.",
    forall="all 64-bit start positions, all jump widths, all prior positions",
    why="the iterator has no test that builds here; agreement of position and code must survive every sequence of operations",
    over=["inputs", "histories"],
    files=[A],
    mechanism=["constructor, operators, binary_to_gray @ " + A + ":25-330"],
    technique="abstract interpretation of LLVM IR: each operation from an arbitrary reachable state re-establishes the invariant",
    note="Inductive: the state invariant (value = code of position, remembered start) is proved for the constructor and preserved by every "
         "operation from any position; trusts clang and lib/.",
)


def run(c):
    w = Wit(c, "c07", "#include <fiction/algorithms/iter/gray_code_iterator.hpp>\n#include <cstdint>\nusing G = "
            "fiction::gray_code_iterator;\nstatic inline uint64_t code(uint64_t p) { return p ^ (p >> 1u); }\n"
            "static inline bool at(const G& g, uint64_t s, uint64_t p) { return g == p && *g == code(p) && g[0] == code(s); }", A)
    # s: construction position, p: arbitrary current position
    st = "G g{s}; g = p; "
    sg = "uint64_t s, uint64_t p"
    M = {"m": (-(1 << 31) + 1, (1 << 31) - 1)}

    def ob(n, extra, body, rule, r=None, **kw):
        w.ob(n, sg + (", " + extra if extra else ""), st + body, r or {}, rule, **kw)
    w.ob("ctor", "uint64_t s", "const G g{s}; return at(g, s, s);", {}, "construction")
    ob("assign", "", "return at(g, s, p);", "invariant-preserved")
    ob("assign2", "uint64_t q", "G& r = (g = q); return &r == &g && at(g, s, q);", "invariant-preserved")
    ob("inc", "", "G& r = ++g; return &r == &g && at(g, s, p + 1);", "invariant-preserved")
    ob("dec", "", "G& r = --g; return &r == &g && at(g, s, p - 1);", "invariant-preserved")
    ob("pinc", "", "const G o = g++; return at(o, s, p) && at(g, s, p + 1);", "post-operation")
    ob("pdec", "", "const G o = g--; return at(o, s, p) && at(g, s, p - 1);", "post-operation")
    ob("addeq", "int m", "G& r = (g += m); return &r == &g && at(g, s, p + static_cast<uint64_t>(static_cast<int64_t>(m)));",
       "invariant-preserved", M)
    ob("subeq", "int m", "G& r = (g -= m); return &r == &g && at(g, s, p - static_cast<uint64_t>(static_cast<int64_t>(m)));",
       "invariant-preserved", M)
    ob("add", "int m", "const G r = g + m; return at(g, s, p) && at(r, s, p + static_cast<uint64_t>(static_cast<int64_t>(m)));",
       "invariant-preserved", M)
    ob("sub", "int m", "const G r = g - m; return at(g, s, p) && at(r, s, p - static_cast<uint64_t>(static_cast<int64_t>(m)));",
       "invariant-preserved", M)
    ob("copy", "", "const G r{g}; ++g; return at(r, s, p) && at(g, s, p + 1);", "copies-independent")
    ob("diff", "uint64_t t, uint64_t q", "G h{t}; h = q; return static_cast<uint64_t>(g - h) == p - q;", "difference", overflow="wrap")
    ob("subscript", "uint64_t i", "return g[i] == code(s + i);", "subscript")
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        ob("int_" + n, "uint64_t q", f"return (g {o} q) == (p {o} q);", "integer-comparison")
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<=")):
        ob("it_" + n, "uint64_t t, uint64_t q", f"G h{{t}}; h = q; return (g {o} h) == (*g {o} *h);", "iterator-comparison")
    w.run()
