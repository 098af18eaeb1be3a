"""C08: aspect ratio iteration."""
from vf import Wit

A = "include/fiction/algorithms/iter/aspect_ratio_iterator.hpp"
META = dict(
    title="Aspect ratio iteration yields every factorization once, by ascending area",
    statement="An aspect ratio iterator started at n yields, area by area from n upwards without gaps, every aspect ratio of that area exactly once "
              "and nothing else; its comparison with a number compares the current area. Copies and results of post-increments are independent of "
              "the original and continue with the same sequence. Iterators of smaller area are smaller; a <= b holds exactly if a < b or a == b.",
    forall="all areas up to 36 (thorough: 60) for completeness, up to 6 for copies and comparisons; offset and cube coordinates",
    over=["inputs", "histories"],
    why="exact physical design searches aspect ratios in this order and reports the first hit as minimal; one skipped or repeated ratio falsifies that",
    files=[A],
    mechanism=["constructor, operators, factorize, next @ " + A + ":26-190"],
    technique="abstract interpretation of LLVM IR: one divisor constant, its cofactor symbolic",
    note="The order among ratios of equal area is not specified. Areas above the bound are not explored; the root used as loop bound is reasoned about "
         "exactly for areas below 2^50.",
)


def run(c):
    w = Wit(c, "c08", """#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <cstdint>
#include <utility>
using O = fiction::aspect_ratio_iterator<fiction::offset::ucoord_t>;
using C = fiction::aspect_ratio_iterator<fiction::cube::coord_t>;
template <class I> static bool all(uint64_t n, int64_t x, int64_t y, uint64_t next)
{
    I i{n}; unsigned c = 0, k = 0;
    while (i == n)
    {
        if (i != n || i < n || !(i <= n) || i < n - 1 || i == n + 1 || !(i < n + 1) || ++k > 24) { return false; }
        const auto a = *i;
        const int64_t p = a.x, q = a.y;
        if (p < 0 || q < 0 || a.z != 0 || static_cast<uint64_t>((p + 1) * (q + 1)) != n) { return false; }
        if (p == x && q == y) { ++c; }
        if (next == 0 && c == 1) { return true; }
        ++i;
    }
    return c == 1 && (next == 0 || i == n + 1);
}
template <class I> static bool same(I a, I b, unsigned k)
{
    for (unsigned j = 0; j < k; ++j) { if (!(a == b) || a != b || !(*a == *b)) { return false; } ++a; ++b; }
    return true;
}
template <class I> static bool start(uint64_t n) { const I i{n}, z{}; return i == (n == 0 ? 1 : n) && z == 1 && static_cast<uint64_t>((*z).x) == 0 && (*z).y == 0; }
template <class I> static bool post(uint64_t n, unsigned s)
{
    I i{n}; for (unsigned j = 0; j < s; ++j) { ++i; }
    const I before{i}; I ref{i};
    ++ref;
    const I old = i++;
    return same<I>(old, before, 3) && same<I>(i, ref, 3) && same<I>(old, before, 1);
}
template <class I> static bool pre(uint64_t n)
{
    I i{n}; const I k{i}; I& r = ++i;
    return &r == &i && !(k == i) && k != i && same<I>(k, I{n}, 3);
}
template <class I> static bool assigned(uint64_t n, uint64_t m)
{
    I t{m};
    { I i{n}; t = i; ++i; ++i; ++i; ++i; }
    return same<I>(t, I{n}, 5);
}
template <class I> static bool cmp(uint64_t n, uint64_t m, unsigned s, unsigned t)
{
    I a{n}, b{m}; for (unsigned j = 0; j < s; ++j) { ++a; } for (unsigned j = 0; j < t; ++j) { ++b; }
    const auto p = *a, q = *b; const uint64_t u = static_cast<uint64_t>(p.x + 1) * static_cast<uint64_t>(p.y + 1), v = static_cast<uint64_t>(q.x + 1) * static_cast<uint64_t>(q.y + 1);
    const bool eq = a == b, lt = a < b, gt = b < a, le = a <= b, ge = b <= a;
    if (eq != (p == q) || (a != b) == eq) { return false; }
    if (u < v && !(lt && !gt)) { return false; }
    if (u > v && !(gt && !lt)) { return false; }
    return static_cast<int>(lt) + static_cast<int>(gt) + static_cast<int>(eq) == 1 && le == (lt || eq) && ge == (gt || eq);
}
""", A)
    N = 60 if c.thorough else 36
    for t, T in (("offset", "O"), ("cube", "C")):
        w.ob(f"start_{t}", "uint64_t n", f"return start<{T}>(n);", {"n": (0, N)}, "starts-at-area", reduce=False)
        for d in range(1, 15):
            if d * d > N:
                continue
            b = (1, max(1, N // d))
            w.ob(f"contains_{t}_{d}", "uint64_t q", f"return all<{T}>({d} * q, {d - 1}, static_cast<int64_t>(q) - 1, 1);", {"q": b}, "every-ratio-once", limit=200)
            if d > 1:
                w.ob(f"contains_mirrored_{t}_{d}", "uint64_t q", f"return all<{T}>({d} * q, static_cast<int64_t>(q) - 1, {d - 1}, 1);", {"q": b},
                     "every-ratio-once", limit=200)
        w.ob(f"pre_{t}", "uint64_t n", f"return pre<{T}>(n);", {"n": (0, 6)}, "copies-independent")
        w.ob(f"post_{t}", "uint64_t n, unsigned s", f"return post<{T}>(n, s);", {"n": (0, 6), "s": (0, 2)}, "copies-independent", limit=200)
        w.ob(f"assigned_{t}", "uint64_t n, uint64_t m", f"return assigned<{T}>(n, m);", {"n": (0, 6), "m": (0, 6)}, "copies-independent", limit=200)
        w.ob(f"cmp_{t}", "uint64_t n, uint64_t m, unsigned s, unsigned t", f"return cmp<{T}>(n, m, s, t);",
             {"n": (0, 6), "m": (0, 6), "s": (0, 1), "t": (0, 1)}, "comparisons-consistent", limit=300, max_states=60000)
    w.run()
