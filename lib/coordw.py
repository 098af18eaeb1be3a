"""Shared witness prelude for the coordinate systems: build a coordinate from scalar fields."""
I32 = (-(1 << 31), (1 << 31) - 1)
U31 = (0, (1 << 31) - 1)
BIT = (0, 1)

PRELUDE = r'''
#include <fiction/layouts/coordinates.hpp>
#include <cstdint>
#include <functional>
#include <type_traits>
using U = fiction::offset::ucoord_t;
using K = fiction::cube::coord_t;
using S = fiction::siqad::coord_t;

// scalar argument types of the witnesses
template <class C> struct fld { using t = int32_t; };
template <> struct fld<U> { using t = uint32_t; };

static inline U mkU(uint32_t x, uint32_t y, uint32_t z, bool d) { U c{x, y, z}; if (d) { c = c.get_dead(); } return c; }
static inline K mkK(int32_t x, int32_t y, int32_t z, bool d) { K c{x, y, z}; if (d) { c = c.get_dead(); } return c; }
static inline S mkS(int32_t x, int32_t y, int32_t z, bool d) { S c{x, y, z}; if (d) { c = c.get_dead(); } return c; }
'''

SYS = {
    "U": dict(t="uint32_t", rng=[U31, U31, BIT, BIT], name="offset"),
    "K": dict(t="int32_t", rng=[I32, I32, I32, BIT], name="cube"),
    "S": dict(t="int32_t", rng=[I32, I32, BIT, BIT], name="siqad"),
}


def args(sysname, *pre):
    t = SYS[sysname]["t"]
    out = []
    for p in pre:
        out.append(f"{t} {p}x, {t} {p}y, {t} {p}z, bool {p}d")
    return ", ".join(out)


def names(*pre):
    return [p + f for p in pre for f in ("x", "y", "z", "d")]


def ranges(sysname, n, over=None):
    r = {}
    for k in range(n):
        for i, x in enumerate(SYS[sysname]["rng"]):
            r[4 * k + i] = x
    if over:
        r.update(over)
    return r


def mk(sysname, p):
    return f"mk{sysname}({p}x, {p}y, {p}z, {p}d)"
