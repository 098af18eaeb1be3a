"""Numeric domain of the abstract interpreter.

A machine integer of width w is represented by an integer polynomial (its residue modulo 2^w); a floating-point value
by a quotient of polynomials (read over the reals).  Polynomials range over *atoms*: witness inputs, bit slices of
other atoms (``Hi(a, m)`` = floor(a / 2^m); every bit field is a difference of two such atoms, so equal slices have
equal normal forms), opaque quotients, xor/and sets and uninterpreted function applications.  `Ctx` is the abstract
context of one trace partition: ranges, linear equalities (kept solved) and linear inequalities.
"""
from fractions import Fraction
import math
import itertools

INF = float("inf")


class Atom:
    __slots__ = ("key", "lo", "hi", "isint", "id")
    _tab = {}
    _n = 0

    def __new__(cls, key, lo=-INF, hi=INF, isint=True):
        a = Atom._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.key = key
            a.lo = lo
            a.hi = hi
            a.isint = isint
            a.id = Atom._n
            Atom._n += 1
            Atom._tab[key] = a
        else:
            # bounds come from the context of the call: an atom shared by several contexts carries the union
            if lo < a.lo:
                a.lo = lo
            if hi > a.hi:
                a.hi = hi
        return a

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def show_atom(a):
    k = a.key
    if k[0] == "var":
        return k[1]
    if k[0] == "hi":
        return f"({k[1]}>>{k[2]})"
    if k[0] == "fdiv":
        return f"floor(({k[1]})/{k[2]})"
    if k[0] == "mod":
        return f"(({k[1]}) mod 2^{k[2]})"
    if k[0] == "udiv":
        return f"floor(({k[1]})/({k[2]}))"
    if k[0] == "xor":
        return "xor{" + ", ".join(sorted(map(str, k[1]))) + "}"
    if k[0] == "and":
        return "and{" + ", ".join(sorted(map(str, k[1]))) + "}"
    if k[0] == "fn":
        return f"{k[1]}(" + ", ".join(map(str, k[2])) + ")"
    return str(k)


class Poly:
    """immutable polynomial: dict monomial -> coefficient; a monomial is a sorted tuple of atoms (with repetition)"""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return ZERO
            return Poly({m: c * o for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = mono_norm(m1 + m2)
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return Poly(r)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        c = self.t.get((), 0)
        return int(c) if type(c) is Fraction and c.denominator == 1 else c

    def single(self):
        """(atom, coef, const) if linear in exactly one atom"""
        c = self.t.get((), 0)
        n = [(m, k) for m, k in self.t.items() if m]
        if len(n) == 1 and len(n[0][0]) == 1:
            return n[0][0][0], n[0][1], c
        return None

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def isint(self):
        return all((isinstance(c, int) or c.denominator == 1) for c in self.t.values()) and all(
            a.isint for m in self.t for a in m)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: ([a.id for a in x[0]])):
            cs = show_c(c)
            if not m:
                out.append(cs)
            else:
                ms = "*".join(map(repr, m))
                out.append(ms if c == 1 else ("-" + ms if c == -1 else cs + "*" + ms))
        return " + ".join(out).replace("+ -", "- ")


def show_c(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return str(c.numerator)
        return repr(float(c))
    return str(c)


def mono_norm(m):
    m = sorted(m, key=lambda a: a.id)
    out = []
    for a in m:
        if out and out[-1] is a and a.isint and a.lo >= 0 and a.hi <= 1:
            continue
        out.append(a)
    return tuple(out)


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.atom(x)
    return Poly.const(x)


def var(name, lo=-INF, hi=INF, isint=True):
    return Atom(("var", name), lo, hi, isint)


_fresh = itertools.count()


def fresh(prefix, lo=-INF, hi=INF, isint=True):
    return Atom(("var", f"{prefix}#{next(_fresh)}"), lo, hi, isint)


class NeedSplit(Exception):
    def __init__(self, lit):
        self.lit = lit


class Undecided(Exception):
    pass


class Contradiction(Exception):
    pass


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _content(p):
    """gcd of the coefficients of the non-constant monomials"""
    g = 0
    for m, c in p.t.items():
        if m:
            g = math.gcd(g, int(c))
            if g == 1:
                break
    return g


GE0_BUDGET = 400  # combinations of facts tried for one inequality


class Ctx:
    __slots__ = ("rng", "sub", "ge", "ne", "lits", "memo", "orgroups")

    def __init__(self):
        self.rng = {}
        self.sub = {}  # monomial (tuple) -> Poly
        self.ge = []  # (poly, strict)
        self.ne = []
        self.lits = []
        self.memo = {}
        self.orgroups = []

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.rng = dict(self.rng)
        c.sub = dict(self.sub)
        c.ge = list(self.ge)
        c.ne = list(self.ne)
        c.lits = list(self.lits)
        c.memo = {}
        c.orgroups = list(self.orgroups)
        return c

    # ---------------------------------------------------------------- ranges
    def arange(self, a):
        lo, hi = a.lo, a.hi
        r = self.rng.get(a)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        k = a.key
        if k[0] == "hi":
            bl, bh = self.arange(k[1])
            lo = max(lo, bl if bl == -INF else int(bl) >> k[2])
            hi = min(hi, bh if bh == INF else int(bh) >> k[2])
        return lo, hi

    def mrange(self, m):
        lo, hi = 1, 1
        i = 0
        while i < len(m):
            a = m[i]
            n = 1
            while i + n < len(m) and m[i + n] is a:
                n += 1
            l, h = self.arange(a)
            if n % 2 == 0:
                c = []
                if l <= 0 <= h:
                    c.append(0)
                c += [_pw(l, n), _pw(h, n)]
                l, h = min(c), max(c)
            elif n > 1:
                l, h = _pw(l, n), _pw(h, n)
            c = [_mulb(lo, l), _mulb(lo, h), _mulb(hi, l), _mulb(hi, h)]
            lo, hi = min(c), max(c)
            i += n
        return lo, hi

    def slices(self, p):
        """rewrite the Hi atoms of p into disjoint slices: list of (coef, lo, hi), plus the remaining terms"""
        bases = {}
        rest = {}
        for m, c in p.t.items():
            if len(m) == 1:
                a = m[0]
                if a.key[0] == "hi":
                    bases.setdefault(a.key[1], {})[a.key[2]] = c
                    continue
                if a.isint:
                    bases.setdefault(a, {})[0] = c
                    continue
            rest[m] = c
        sl = []
        for b, d in bases.items():
            cuts = sorted(d)
            if len(cuts) == 1:
                l, h = self.arange(b if cuts[0] == 0 else hi_atom(b, cuts[0]))
                sl.append((d[cuts[0]], l, h))
                continue
            # Hi(b, cuts[i]) = sum_{j>=i} 2^(cuts[j]-cuts[i]) * S_j
            for j, cj in enumerate(cuts):
                coef = sum(d[ci] * (1 << (cj - ci)) for ci in cuts[:j + 1])
                if coef == 0:
                    continue
                l, h = self.arange(b if cj == 0 else hi_atom(b, cj))
                if j + 1 < len(cuts):
                    n = cuts[j + 1] - cj
                    if not (l >= 0 and h < (1 << n)):
                        l, h = 0, (1 << n) - 1
                sl.append((coef, l, h))
        return sl, rest

    def range(self, p, depth=3):
        lo, hi = self._range(p)
        if depth and any(len(m) > 1 or m and m[0].key[0] == "fdiv" for m in p.t):
            for f in p.atoms():
                if f.key[0] == "fdiv":
                    b, c = f.key[1], f.key[2]
                elif f.key[0] == "hi":
                    b, c = Poly.atom(f.key[1]), 1 << f.key[2]
                else:
                    continue
                g = {}
                for m, k in p.t.items():
                    n = m.count(f)
                    if n > 1:
                        g = None
                        break
                    if n:
                        mm = list(m)
                        mm.remove(f)
                        g[tuple(mm)] = k
                if not g or (len(g) == 1 and () in g and f.key[0] != "fdiv"):
                    continue
                # p = g * (f - b/c) + rest with f - b/c in [-(c-1)/c, 0]
                g = Poly(g)
                rest = p - g * (Poly.atom(f) - Poly({m: Fraction(k, c) for m, k in b.t.items()}))
                l1, h1 = self.range(rest, depth - 1)
                l2, h2 = self.range(g, depth - 1)
                q = Fraction(c - 1, c)
                l1 -= _mulb(q, h2) if h2 > 0 else 0
                h1 -= _mulb(q, l2) if l2 < 0 else 0
                lo, hi = max(lo, l1), min(hi, h1)
        return lo, hi

    def _range(self, p):
        if p.is_const():
            return p.cval(), p.cval()
        lo = hi = p.t.get((), 0)
        sl, rest = self.slices(p)
        for c, l, h in sl:
            if c >= 0:
                lo += _mulb(c, l)
                hi += _mulb(c, h)
            else:
                lo += _mulb(c, h)
                hi += _mulb(c, l)
        for m, c in rest.items():
            if not m:
                continue
            l, h = self.mrange(m)
            if c >= 0:
                lo += _mulb(c, l)
                hi += _mulb(c, h)
            else:
                lo += _mulb(c, h)
                hi += _mulb(c, l)
        return lo, hi

    # ---------------------------------------------------------------- normal form under the equalities
    def norm(self, p):
        if not self.sub and not self.rng:
            return p
        r = self.memo.get(p)
        if r is None:
            r = p
            for _ in range(60):
                q = self._norm1(r)
                if q == r:
                    break
                r = q
            self.memo[p] = r
        return r

    def _norm1(self, p):
        changed = False
        out = ZERO
        for m, c in p.t.items():
            s = self.sub.get(m) if m else None
            if s is not None:
                out = out + s * c
                changed = True
                continue
            q = ONE
            mc = False
            rem = m
            for sm, sp in self.sub.items():
                if len(sm) > 1 and len(sm) < len(rem):
                    r2 = mono_div(rem, sm)
                    if r2 is not None:
                        q = q * sp
                        rem = r2
                        mc = True
            for a in rem:
                s = self.sub.get((a,))
                if s is not None:
                    q = q * s
                    mc = True
                else:
                    b = self._natom(a)
                    if b is not None:
                        q = q * b
                        mc = True
                    else:
                        q = q * Poly.atom(a)
            if mc:
                changed = True
                out = out + q * c
            else:
                out = out + Poly({m: c})
        return out if changed else p

    def _natom(self, a):
        k = a.key
        if k[0] == "var":
            r = self.rng.get(a)
            if r and r[0] == r[1]:
                return Poly.const(r[0])
            return None
        if k[0] == "hi":
            b = self.norm(Poly.atom(k[1]))
            if b.as_atom() is k[1]:
                l, h = self.arange(a)
                if l == h:
                    return Poly.const(l)
                return None
            return shr(self, b, k[2])
        if k[0] == "fdiv":
            b = self.norm(k[1])
            if b == k[1]:
                return None
            return fdivc(self, b, k[2])
        if k[0] == "udiv":
            b, d = self.norm(k[1]), self.norm(k[2])
            if b == k[1] and d == k[2]:
                return None
            return udivs(self, b, d)
        if k[0] == "mod":
            b = self.norm(k[1])
            if b == k[1]:
                return None
            return uview(self, b, k[2], split=False)
        if k[0] == "xor":
            n = [self.norm(x) for x in k[1]]
            if frozenset(n) == k[1]:
                return None
            r = ZERO
            for x in n:
                r = xor(self, r, x, k[2])
            return r
        if k[0] == "and":
            n = [self.norm(x) for x in k[1]]
            if frozenset(n) == k[1]:
                return None
            r = None
            for x in n:
                r = x if r is None else and_(self, r, x, k[2])
            return r
        if k[0] == "fn":
            n = tuple(self.norm(x) if isinstance(x, Poly) else (x.norm(self) if isinstance(x, Rat) else x) for x in k[2])
            if n == k[2]:
                return None
            return Poly.atom(Atom(("fn", k[1], n), a.lo, a.hi, a.isint))
        return None

    # ---------------------------------------------------------------- decisions
    def ge0(self, p, strict=False, depth=3):
        """True if p >= 0 (p > 0) is implied; None otherwise"""
        p = self.norm(p)
        if p.isint() and strict:
            p = p - 1
            strict = False
        for d in range(1, depth + 1):
            seen = set()
            if self._ge0(p, strict, d, seen):
                return True
            if len(seen) <= 1 or len(seen) >= GE0_BUDGET:
                break
        return None

    def _ge0(self, p, strict, depth, seen):
        lo, _ = self.range(p)
        if lo > 0 or (lo == 0 and not strict):
            return True
        if not strict and p.t == {}:
            return True
        if depth == 0 or p in seen or len(seen) >= GE0_BUDGET:
            return False
        seen.add(p)
        for f, fs in self.ge:
            for m, c in p.t.items():
                if not m:
                    continue
                fc = f.t.get(m)
                if fc is None and len(m) == 1 and m[0].key[0] == "hi":
                    # the quotient of an atom the fact bounds
                    fc = f.t.get((m[0].key[1],))
                    if fc is not None:
                        fc = fc * (1 << m[0].key[2])
                if fc is None or (fc > 0) != (c > 0):
                    continue
                lam = c if fc == 1 else (-c if fc == -1 else Fraction(c) / Fraction(fc))
                if lam < 0:
                    lam = -lam
                q = p - f * lam
                if self._ge0(q, strict and not fs, depth - 1, seen):
                    return True
        return False

    def infeasible(self, lit=None, val=True, cap=1500):
        """True when the facts of this partition (with `lit` == val) contradict each other: linear infeasibility of the
        inequalities, strengthened by the integer disequalities one side of which is infeasible"""
        if self._infeasible(lit, val, cap):
            return True
        ne = [q for q in map(self.norm, self.ne) if q.isint() and not q.is_const()][:12]
        extra = []
        change = bool(ne)
        while change and ne:
            change = False
            for q in list(ne):
                for r in (q - 1, -q - 1):
                    if self._infeasible(lit, val, cap, extra + [r]):
                        o = -q - 1 if r == q - 1 else q - 1
                        extra.append(o)
                        ne.remove(q)
                        if self._infeasible(lit, val, cap, extra):
                            return True
                        change = True
                        break
        return False

    def _infeasible(self, lit=None, val=True, cap=1500, extra=()):
        """True when the linear facts of this partition (with `lit` == val) contradict each other: elimination of variables
        (Fourier-Motzkin) with monomials as variables; a sound but incomplete emptiness test of the polyhedra domain"""
        rows = []
        ms = set()

        def add(q, strict):
            q = self.norm(q)
            if q.isint() and strict:
                q, strict = q - 1, False
            rows.append((dict(q.t), strict))
            ms.update(m for m in q.t if m)
        for f, fs in self.ge:
            add(f, fs)
        for f in extra:
            add(f, False)
        if lit is not None:
            k = lit[0]
            while k == "not":
                lit, val = lit[1], not val
                k = lit[0]
            if k == "ge":
                add(lit[1], False) if val else add(-lit[1], True)
            elif k == "gt":
                add(lit[1], True) if val else add(-lit[1], False)
            elif k == "eq" and val:
                add(lit[1], False)
                add(-lit[1], False)
            elif k == "false" and val or k == "true" and not val:
                return True
        for m in ms:
            lo, hi = self.mrange(m)
            if lo != -INF:
                rows.append(({m: 1, (): -lo}, False))
            if hi != INF:
                rows.append(({m: -1, (): hi}, False))
        while True:
            vs = {}
            keep = []
            for r, st in rows:
                if all(not m for m in r):
                    c = r.get((), 0)
                    if c < 0 or (c == 0 and st):
                        return True
                    continue
                keep.append((r, st))
                for m, c in r.items():
                    if m:
                        v = vs.setdefault(m, [0, 0])
                        v[c > 0] += 1
            rows = keep
            if not rows:
                return False
            m = min(vs, key=lambda x: vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1])
            pos = [x for x in rows if x[0].get(m, 0) > 0]
            neg = [x for x in rows if x[0].get(m, 0) < 0]
            out = {}
            for x in rows:
                if m not in x[0]:
                    out[(frozenset(x[0].items()), x[1])] = x
            for (a, sa) in pos:
                for (b, sb) in neg:
                    ca, cb = Fraction(a[m]), Fraction(-b[m])
                    d = {}
                    for t, c in a.items():
                        if t != m:
                            d[t] = d.get(t, 0) + c / ca
                    for t, c in b.items():
                        if t != m:
                            d[t] = d.get(t, 0) + c / cb
                    d = {t: c for t, c in d.items() if c}
                    x = (d, sa or sb)
                    out[(frozenset(d.items()), x[1])] = x
            if len(out) > cap:
                return False
            rows = list(out.values())

    def decide(self, lit):
        k = lit[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            d = self.decide(lit[1])
            return None if d is None else (not d)
        if k == "and":
            a, b = self.decide(lit[1]), self.decide(lit[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(lit[1]), self.decide(lit[2])
            if a is True or b is True:
                return True
            return False if (a is False and b is False) else None
        if k == "xor":
            a, b = self.decide(lit[1]), self.decide(lit[2])
            return None if a is None or b is None else (a != b)
        p = self.norm(lit[1])
        if k == "ge":
            if self.ge0(p):
                return True
            if self.ge0(-p, strict=True):
                return False
            return None
        if k == "gt":
            if self.ge0(p, strict=True):
                return True
            if self.ge0(-p):
                return False
            return None
        if k == "eq":
            if not p.t:
                return True
            if p.is_const():
                return close0(p)
            if close0(p):
                return True
            if (p in self.ne) or ((-p) in self.ne):
                return False
            if self.ne and p.isint():
                g = _content(p)
                if g > 1 and not int(p.t.get((), 0)) % g:
                    p1 = Poly({m: int(c) // g for m, c in p.t.items()})
                    if (p1 in self.ne) or ((-p1) in self.ne):
                        return False
            if self.ge0(p, strict=True) or self.ge0(-p, strict=True):
                return False
            if self.ge0(p) and self.ge0(-p):
                return True
            if p.isint():
                import math
                g = 0
                for m, c in p.t.items():
                    if m:
                        g = math.gcd(g, int(c))
                if g > 1 and int(p.t.get((), 0)) % g:
                    return False
            return None
        raise Exception("bad literal " + str(lit))

    def first_open(self, lit):
        """an undecided elementary literal of lit"""
        k = lit[0]
        if k in ("not",):
            return self.first_open(lit[1])
        if k in ("and", "or", "xor"):
            for x in lit[1:]:
                if self.decide(x) is None:
                    return self.first_open(x)
            return None
        return lit

    def assume(self, lit, val=True):
        """add an elementary literal (raises Contradiction)"""
        k = lit[0]
        if k == "not":
            return self.assume(lit[1], not val)
        if k in ("true", "false"):
            if (k == "true") != val:
                raise Contradiction()
            return
        if k == "and":
            if val:
                self.assume(lit[1])
                self.assume(lit[2])
                return
            raise Exception("compound assume")
        if k == "or":
            if not val:
                self.assume(lit[1], False)
                self.assume(lit[2], False)
                return
            raise Exception("compound assume")
        d = self.decide(lit)
        if d is not None:
            if d != val:
                raise Contradiction()
            return
        self.lits.append((lit, val))
        p = self.norm(lit[1])
        isint = p.isint()
        self.memo = {}
        if k == "ge":
            if val:
                self._ge_or_eq(p, False)
            else:
                self._ge_or_eq(-p - 1 if isint else -p, not isint)
        elif k == "gt":
            if val:
                self._ge_or_eq(p - 1 if isint else p, not isint)
            else:
                self._ge_or_eq(-p, False)
        elif k == "eq":
            if val:
                self._addeq(p)
            else:
                if isint:
                    g = _content(p)
                    if g > 1:
                        if int(p.t.get((), 0)) % g:
                            return
                        p = Poly({m: int(c) // g for m, c in p.t.items()})
                self.ne.append(p)
                if isint:
                    if self.ge0(p):
                        self._addge(p - 1, False)
                    elif self.ge0(-p):
                        self._addge(-p - 1, False)
                else:
                    if self.ge0(p):
                        self._addge(p, True)
                    elif self.ge0(-p):
                        self._addge(-p, True)
        self._recheck()

    def _ge_or_eq(self, p, strict):
        if not strict and p.isint():
            g = _content(p)
            if g > 1:
                p = Poly({m: int(c) // g for m, c in p.t.items() if int(c) // g})
        # two opposite inequalities are an equality
        if not strict and p.single() is None and len(p.t) <= 4 and self.ge0(-p):
            self._addeq(p)
        else:
            self._addge(p, strict)

    def _addge(self, p, strict):
        lo, hi = self.range(p)
        if hi < 0 or (hi == 0 and strict):
            raise Contradiction()
        s = p.single()
        if s and not strict:
            a, c, k = s
            # c*a + k >= 0
            l, h = self.arange(a)
            b = Fraction(-k) / Fraction(c)
            if c > 0:
                nl = -((-b.numerator) // b.denominator) if a.isint else b  # ceil
                l = max(l, nl)
            else:
                nh = b.numerator // b.denominator if a.isint else b
                h = min(h, nh)
            if l > h:
                raise Contradiction()
            self._setrange(a, l, h)
            return
        # orient: boxed facts with disequalities
        if p.isint() and not strict:
            for n in self.ne:
                nn = self.norm(n)
                if nn == p or nn == -p:
                    p = p - 1
                    break
        self.ge.append((p, strict))

    def _addeq(self, p):
        # choose a monomial with coefficient +-1 (int) or any (real) to eliminate
        best = None
        isint = p.isint()
        if isint and all(isinstance(c, int) for c in p.t.values()):
            g = _content(p)
            if g > 1:
                if p.t.get((), 0) % g:
                    raise Contradiction()
                p = Poly({m: c // g for m, c in p.t.items()})
        for m, c in p.t.items():
            if not m:
                continue
            if isint and abs(c) != 1:
                continue
            if len(m) == 1:
                a = m[0]
                if any(a in mm for mm in p.t if mm != m):
                    continue
                if any(_occurs(a, b) for mm in p.t for b in mm if b is not a):
                    continue
            # prefer composite atoms over plain variables so that variables stay the representatives
            rank = (len(m) > 1 and not any(x.key[0] != "var" for x in m), -max(x.id for x in m)) if len(m) > 1 else (
                m[0].key[0] == "var", -m[0].id)
            q = (0 if not rank[0] else 1, len(m), rank[1])
            if best is None or q < best[0]:
                best = (q, m, c)
        if best is None:
            self.ge.append((p, False))
            self.ge.append((-p, False))
            return
        _, m, c = best
        if isint:
            rhs = (Poly({m: c}) - p) * (1 if c == 1 else -1)
        else:
            rhs = (Poly({m: c}) - p) * (Fraction(1) / Fraction(c))
        if len(m) == 1:
            l, h = self.arange(m[0])
            rl, rh = self.range(rhs)
            if rl > h or rh < l:
                raise Contradiction()
            # carry the eliminated atom's own range as facts on the right-hand side
            if l != -INF and l > rl:
                self._addge(rhs - l, False)
            if h != INF and h < rh:
                self._addge(P(h) - rhs, False)
        self.sub[m] = rhs
        self.memo = {}
        if len(m) == 1 and m[0].key[0] in ("hi", "fdiv"):
            # keep what is known about the remainder of the eliminated quotient
            k = m[0].key
            b, n = (Poly.atom(k[1]), 1 << k[2]) if k[0] == "hi" else (k[1], k[2])
            r = b - rhs * n
            if not r.is_const():
                self.ge.append((r, False))
                self.ge.append((P(n - 1) - r, False))

    def _recheck(self):
        self.memo = {}
        for _ in range(3):
            changed = False
            ng = []
            for f, s in self.ge:
                q = self.norm(f)
                lo, hi = self.range(q)
                if hi < 0 or (hi == 0 and s):
                    raise Contradiction()
                if q.is_const():
                    continue
                ng.append((q, s))
                if q is not f and q != f and q.single() and not s:
                    ng.pop()
                    self._single_ge(q)
                    changed = True
            self.ge = ng
            for q, st in ng:
                if self._propagate(q):
                    changed = True
            nn = []
            for f in self.ne:
                q = self.norm(f)
                if not q.t:
                    raise Contradiction()
                if q.is_const():
                    continue
                if q.isint():
                    g = _content(q)
                    if g > 1:
                        if int(q.t.get((), 0)) % g:
                            continue
                        q = Poly({m: int(c) // g for m, c in q.t.items()})
                if q in nn:
                    continue
                nn.append(q)
                if q.isint():
                    s = q.single()
                    if s:
                        a, c, k = s
                        l, h = self.arange(a)
                        v = Fraction(-k) / Fraction(c)
                        if v == l and v == h:
                            raise Contradiction()
                        if v == l:
                            self.rng[a] = (l + 1, h)
                            changed = True
                        elif v == h:
                            self.rng[a] = (l, h - 1)
                            changed = True
            self.ne = nn
            if not changed:
                break
            self.memo = {}
        # pairwise contradiction
        for f, s in self.ge:
            if self._ge0(-f - (1 if f.isint() else 0), not f.isint() and not s or False, 2, set()) and (f.isint() or True):
                if f.isint():
                    raise Contradiction()
                if self._ge0(-f, not s, 2, set()):
                    # f >= 0 (or > 0) and -f > 0 (or >= 0)
                    raise Contradiction()

    def _propagate(self, p):
        """interval propagation of a linear fact p >= 0 onto its atoms"""
        if len(p.t) > 7:
            return False
        ch = False
        for m, c in p.t.items():
            if len(m) != 1 or not m[0].isint:
                continue
            a = m[0]
            l, h = self.arange(a)
            if l == -INF or h == INF:
                continue
            # c*a >= -max(p - c*a)
            _, rest = self.range(p - Poly({m: c}))
            if rest == INF:
                continue
            b = Fraction(-rest) / Fraction(c)
            if c > 0:
                nl = -((-b.numerator) // b.denominator)
                if nl > l:
                    if nl > h:
                        raise Contradiction()
                    self._setrange(a, nl, h)
                    ch = True
            else:
                nh = b.numerator // b.denominator
                if nh < h:
                    if nh < l:
                        raise Contradiction()
                    self._setrange(a, l, nh)
                    ch = True
            if ch:
                return True
        return ch

    def _setrange(self, a, l, h):
        self.rng[a] = (l, h)
        if a.key[0] == "hi":
            b, m = a.key[1], a.key[2]
            bl, bh = self.arange(b)
            bl = max(bl, l << m) if l != -INF else bl
            bh = min(bh, ((h + 1) << m) - 1) if h != INF else bh
            if bl > bh:
                raise Contradiction()
            self.rng[b] = (bl, bh)
        elif a.key[0] == "fdiv":
            # a = floor((k * b + e) / c)
            q = a.key[1].single()
            if q and q[0].isint and isinstance(q[1], int) and isinstance(q[2], int):
                b, k, e = q
                c = a.key[2]
                bl, bh = self.arange(b)
                lo = l * c - e if l != -INF else -INF  # lo <= k * b <= hi
                hi = (h + 1) * c - 1 - e if h != INF else INF
                if k < 0:
                    k, lo, hi = -k, -hi, -lo
                if lo != -INF:
                    bl = max(bl, -(-lo // k))
                if hi != INF:
                    bh = min(bh, hi // k)
                if bl > bh:
                    raise Contradiction()
                if (bl, bh) != self.arange(b):
                    self._setrange(b, bl, bh)

    def _single_ge(self, p):
        a, c, k = p.single()
        l, h = self.arange(a)
        b = Fraction(-k) / Fraction(c)
        if c > 0:
            l = max(l, -((-b.numerator) // b.denominator) if a.isint else b)
        else:
            h = min(h, b.numerator // b.denominator if a.isint else b)
        if l > h:
            raise Contradiction()
        self._setrange(a, l, h)


def _pw(x, n):
    if x in (INF, -INF):
        return INF if (x > 0 or n % 2 == 0) else -INF
    return x ** n


def _occurs(a, b):
    """does atom a occur (strictly or not) inside atom b"""
    if a is b:
        return True
    k = b.key
    if k[0] == "hi":
        return _occurs(a, k[1])
    if k[0] in ("fdiv", "mod"):
        return any(_occurs(a, x) for x in k[1].atoms())
    if k[0] == "udiv":
        return any(_occurs(a, x) for y in k[1:3] for x in y.atoms())
    if k[0] in ("xor", "and"):
        return any(_occurs(a, x) for y in k[1] for x in y.atoms())
    if k[0] == "fn":
        for y in k[2]:
            if isinstance(y, Poly) and any(_occurs(a, x) for x in y.atoms()):
                return True
            if isinstance(y, Rat) and any(_occurs(a, x) for x in (y.num.atoms() | y.den.atoms())):
                return True
    return False


def mono_div(m, d):
    m = list(m)
    for a in d:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def close0(p, tol=Fraction(1, 10**11)):
    """all coefficients vanish relative to the largest magnitude? only for real polynomials produced by subtraction;
    exact zero is handled by the caller, this only accepts a constant zero"""
    return not p.t


# -------------------------------------------------------------------- bit-level operations
def hi_atom(a, m):
    if m == 0:
        return a
    k = a.key
    if k[0] == "hi":
        return hi_atom(k[1], k[2] + m)
    lo = a.lo if a.lo == -INF else int(a.lo) >> m
    hi = a.hi if a.hi == INF else int(a.hi) >> m
    return Atom(("hi", a, m), lo, hi, True)


def hi_poly(ctx, a, m):
    if m == 0:
        return Poly.atom(a)
    if a.key[0] == "xor":
        r = ZERO
        w = a.key[2]
        for x in a.key[1]:
            r = xor(ctx, r, shr(ctx, x, m), w)
        return r
    h = hi_atom(a, m)
    l, u = ctx.arange(h)
    if l == u:
        return Poly.const(l)
    return Poly.atom(h)


def shr(ctx, p, k, split=False):
    """floor(p / 2^k)"""
    if k == 0:
        return p
    n = 1 << k
    A = ZERO
    B = ZERO
    for m, c in p.t.items():
        if c % n == 0:
            A = A + Poly({m: c // n})
        elif isinstance(c, Fraction):
            B = B + Poly({m: c % n})
            A = A + Poly({m: c // n}) if c // n else A
        elif not m:
            A = A + (c >> k)
            B = B + (c & (n - 1))
        else:
            B = B + Poly({m: c})
    lo, hi = ctx.range(B)
    if lo >= 0 and hi < n:
        return A
    # a difference that stays within one block, or within the two blocks around zero
    if len(B.t) > 1 and all(isinstance(c, int) for c in B.t.values()):
        C = Poly({m: ((c + n // 2) % n) - n // 2 if m else c for m, c in B.t.items()})
        if any(c < 0 for m, c in C.t.items() if m):
            lo, hi = ctx.range(C)
            if -n <= lo and hi < n:
                D = Poly({m: (c - C.t.get(m, 0)) // n for m, c in B.t.items() if c != C.t.get(m, 0)})
                if ctx.ge0(C):
                    return A + D
                if ctx.ge0(-C - 1):
                    return A + D - 1
                if split:
                    raise NeedSplit(("ge", C))
    # cut straddling atoms at the bit boundary
    B2 = ZERO
    for m, c in B.t.items():
        if len(m) == 1 and m[0].isint and isinstance(c, int):
            j = (c & -c).bit_length() - 1
            cut = k - j
            h = hi_poly(ctx, m[0], cut)
            lowp = Poly.atom(m[0]) - h * (1 << cut)
            A = A + h * ((c << cut) // n)
            r = c % n
            if c != r:
                A = A + lowp * ((c - r) // n)
            B2 = B2 + lowp * r
        else:
            # coefficient modulo n
            A = A + Poly({m: c // n}) if c // n else A
            if c % n:
                B2 = B2 + Poly({m: c % n})
    B3 = B2
    if len(B3.t) > 1 and int_valued(B3, n):
        return A + Poly({m: Fraction(c, n) for m, c in B3.t.items()})
    lo, hi = ctx.range(B3)
    if lo >= 0 and hi < n:
        return A
    if lo != -INF and hi != INF and (int(lo) >> k) == (int(hi) >> k):
        return A + (int(lo) >> k)
    if split and lo != -INF and hi != INF and (int(lo) >> k) + 1 == int(hi) >> k:
        lo, hi = refine(ctx, B3, lo, hi, ((int(hi) >> k) * n,))
        if int(lo) >> k == int(hi) >> k:
            return A + (int(lo) >> k)
        raise NeedSplit(("ge", B3 - (int(hi) >> k) * n))
    return A + Poly.atom(Atom(("fdiv", B3, n), -INF if lo == -INF else lo // n, INF if hi == INF else hi // n, True))


def int_valued(p, c):
    """p / c is an integer for all integer values of its atoms (decided by the finite-difference criterion: a polynomial of
    degree d in each variable is integer-valued iff it is so on d + 1 consecutive points per variable)"""
    at = sorted(p.atoms(), key=lambda a: a.id)
    if not at or len(at) > 2 or not all(a.isint for a in at):
        return False
    deg = [max(m.count(a) for m in p.t) for a in at]
    n = 1
    for d in deg:
        n *= d + 1
    if max(deg) < 2 and len(at) < 2 or n > 256:
        return False
    for pt in itertools.product(*[range(d + 1) for d in deg]):
        v = 0
        for m, k in p.t.items():
            t = k
            for a in m:
                t *= pt[at.index(a)]
            v += t
        if Fraction(v, c).denominator != 1:
            return False
    return True


def fdivc(ctx, p, c):
    """floor(p / c), c > 0 constant"""
    p = ctx.norm(p)
    if c == 1:
        return p
    if len(p.t) > 1 and int_valued(p, c):
        return Poly({m: (k // c if k % c == 0 else Fraction(k, c)) for m, k in p.t.items()})
    if c & (c - 1) == 0:
        return shr(ctx, p, c.bit_length() - 1)
    lo, hi = ctx.range(p)
    if lo != -INF and hi != INF and lo // c == hi // c:
        return Poly.const(lo // c)
    A = ZERO
    B = ZERO
    for m, k in p.t.items():
        q, r = divmod(k, c)
        if q:
            A = A + Poly({m: q})
        if r:
            B = B + Poly({m: r})
    lo, hi = ctx.range(B)
    if lo >= 0 and hi < c:
        return A
    if int_valued(B, c):
        return A + Poly({m: Fraction(k, c) for m, k in B.t.items()})
    # prefer not to redistribute when B is not smaller
    lo2, hi2 = ctx.range(B)
    return A + Poly.atom(Atom(("fdiv", B, c), -INF if lo2 == -INF else lo2 // c, INF if hi2 == INF else hi2 // c, True))


def udivs(ctx, p, q):
    """floor(p / q) for non-negative p and positive q"""
    p, q = ctx.norm(p), ctx.norm(q)
    if q.is_const():
        if q.cval() == 0:
            raise Undecided("division by zero")
        return fdivc(ctx, p, q.cval())
    if len(q.t) == 1:
        (qm, qc), = q.t.items()
        if qc == 1:
            out = {}
            ok = True
            for m, c in p.t.items():
                d = mono_div(m, qm)
                if d is None:
                    ok = False
                    break
                out[d] = c
            if ok:
                return Poly(out)
    lo, hi = ctx.range(p)
    return Poly.atom(Atom(("udiv", p, q), 0, max(hi, 0), True))


def uview(ctx, p, w, split=True):
    """the representative of p modulo 2^w in [0, 2^w)"""
    p = ctx.norm(p)
    n = 1 << w
    lo, hi = ctx.range(p)
    if lo >= 0 and hi < n:
        return p
    if lo != -INF and hi != INF and int(lo) // n == int(hi) // n:
        return p - n * (int(lo) // n)
    # canonical coefficients: residues, and residues centred around zero
    q = Poly({m: c % n for m, c in p.t.items() if c % n})
    q2 = Poly({m: ((c + n // 2) % n) - n // 2 for m, c in p.t.items() if c % n})
    cands = [p]
    for x in (q2, q):
        if x != p and x not in cands:
            cands.append(x)
    rs = []
    for x in cands:
        lo, hi = ctx.range(x)
        if lo != -INF and hi != INF and int(lo) // n == int(hi) // n:
            return x - n * (int(lo) // n)
        rs.append((lo, hi))
    for i, x in enumerate(cands):
        lo, hi = refine(ctx, x, *rs[i], (-n, 0, n))
        rs[i] = (lo, hi)
        if lo != -INF and hi != INF and int(lo) // n == int(hi) // n:
            return x - n * (int(lo) // n)
    if split:
        for i, x in enumerate(cands):
            lo, hi = rs[i]
            if lo >= -n and hi < n:
                raise NeedSplit(("ge", x))
            if lo >= 0 and hi < 2 * n:
                raise NeedSplit(("ge", x - n))
    # try slicing: p mod 2^w = p - 2^w * floor(p / 2^w) when the quotient is expressible through Hi atoms
    h = shr(ctx, p, w)
    if not any(a.key[0] == "fdiv" for a in h.atoms()):
        r = p - h * n
        lo, hi = ctx.range(r)
        if lo >= 0 and hi < n:
            return r
    return Poly.atom(Atom(("mod", q, w), 0, n - 1, True))


def refine(ctx, p, lo, hi, cuts):
    """tighten the interval of p at the given cut points using the facts of the context"""
    if not ctx.ge:
        return lo, hi
    for k in cuts:
        if lo < k <= hi:
            if ctx.ge0(p - k):
                lo = k
            elif ctx.ge0(P(k - 1) - p):
                hi = k - 1
    return lo, hi


def sview(ctx, p, w, split=True):
    """the representative of p modulo 2^w in [-2^(w-1), 2^(w-1))"""
    p = ctx.norm(p)
    n = 1 << w
    h = n >> 1
    lo, hi = ctx.range(p)
    if lo >= -h and hi < h:
        return p
    if lo != -INF and hi != INF and (int(lo) + h) // n == (int(hi) + h) // n:
        return p - n * ((int(lo) + h) // n)
    lo, hi = refine(ctx, p, lo, hi, (-n, -h, 0, h, n))
    if lo != -INF and hi != INF and (int(lo) + h) // n == (int(hi) + h) // n:
        return p - n * ((int(lo) + h) // n)
    if lo >= 0 and hi < n and split:
        raise NeedSplit(("ge", P(h - 1) - p))
    if lo >= -n and hi < n and split:
        if lo < -h:
            raise NeedSplit(("ge", p + h))
        raise NeedSplit(("ge", P(h - 1) - p))
    u = uview(ctx, p, w, split)
    lo, hi = ctx.range(u)
    if hi < h:
        return u
    if lo >= h:
        return u - n
    if split:
        raise NeedSplit(("ge", P(h - 1) - u))
    raise Undecided("signed view")


def slc(ctx, p, lo, hi, split=False):
    return shr(ctx, p, lo, split) - shr(ctx, p, hi, split) * (1 << (hi - lo))


def support(ctx, p):
    """a mask of bits that may be set in non-negative p, or None"""
    if any(not isinstance(c, int) for c in p.t.values()):
        if any(c.denominator != 1 for c in p.t.values()):
            return None
        p = Poly({m: int(c) for m, c in p.t.items()})
    m = _support(ctx, p)
    if m is None and p.t and all(isinstance(c, int) for c in p.t.values()):
        import math
        lo, hi = ctx.range(p)
        if hi != INF and (lo >= 0 or ctx.ge0(p)):
            g = 0
            for c in p.t.values():
                g = math.gcd(g, c)
            k = (g & -g).bit_length() - 1
            m = ((1 << (int(hi) >> k).bit_length()) - 1) << k
            # terms below bit j whose sum stays below bit j do not reach the terms above
            vals = sorted({(c & -c).bit_length() - 1 for c in p.t.values()})
            k0 = p.t.get((), 0)
            for j in vals[1:]:
                low = Poly({x: c for x, c in p.t.items() if x and (c & -c).bit_length() - 1 < j})
                if k0:
                    low = low + (k0 & ((1 << j) - 1))
                l, h = ctx.range(low)
                if l < 0 and h != INF and ctx.ge0(low):
                    l = 0
                if l >= 0 and h < (1 << j):
                    a, b = support(ctx, low), support(ctx, p - low)
                    if a is not None and b is not None:
                        return a | b
    return m


def _support(ctx, p):
    m = _support1(ctx, p, False)
    return _support1(ctx, p, True) if m is None else m


def _support1(ctx, p, shift):
    sl, rest = ctx.slices(p)
    mask = 0
    k0 = rest.get((), 0)
    if shift:
        sl2 = []
        for c, l, h in sl:
            if l == -INF:
                return None
            k0 += c * int(l)
            sl2.append((c, 0, h - l))
        sl = sl2
    if k0 < 0:
        return None
    mask |= k0
    for m, c in rest.items():
        if not m:
            continue
        l, h = ctx.mrange(m)
        if c < 0 or l < 0 or h == INF or c & (c - 1):
            return None
        b = ((1 << int(h).bit_length()) - 1) * c
        if mask & b:
            return None
        mask |= b
    for c, l, h in sl:
        if c < 0 or l < 0 or h == INF or c & (c - 1):
            return None
        b = ((1 << int(h).bit_length()) - 1) * c
        if mask & b:
            return None
        mask |= b
    return mask


def runs(mask):
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def and_(ctx, p, q, w):
    n = 1 << w
    if q.is_const():
        p, q = q, p
    if p.is_const():
        r = ZERO
        for lo, hi in runs(p.cval() % n):
            r = r + slc(ctx, q, lo, hi, True) * (1 << lo)
        return r
    if p == q:
        return p
    up, uq = uview(ctx, p, w), uview(ctx, q, w)
    if is01(ctx, up) and is01(ctx, uq):
        return up * uq
    s1, s2 = support(ctx, up), support(ctx, uq)
    if s1 is not None and s2 is not None and s1 & s2 == 0:
        return ZERO
    if s1 is not None and bin(s1).count("1") == 1 and is01_scaled(ctx, uq, s1):
        return ZERO
    parts = set()
    for x in (up, uq):
        a = x.as_atom()
        if a is not None and a.key[0] == "and":
            parts |= a.key[1]
        else:
            parts.add(x)
    hi = min([ctx.range(x)[1] for x in parts])
    return Poly.atom(Atom(("and", frozenset(parts), w), 0, hi, True))


def is01(ctx, p):
    lo, hi = ctx.range(p)
    return lo >= 0 and hi <= 1


def is01_scaled(ctx, p, s):
    return False


def or_(ctx, p, q, w):
    n = 1 << w
    if q.is_const():
        p, q = q, p
    if p.is_const():
        c = p.cval() % n
        # q with the bits of c cleared, plus c
        return and_(ctx, Poly.const((n - 1) ^ c), q, w) + c
    if p == q:
        return p
    return p + q - and_(ctx, p, q, w)


def xor(ctx, p, q, w):
    n = 1 << w
    if not p.t:
        return q
    if not q.t:
        return p
    if p == q:
        return ZERO
    if q.is_const():
        p, q = q, p
    if p.is_const():
        c = p.cval() % n
        r = q
        for lo, hi in runs(c):
            s = slc(ctx, q, lo, hi)
            # replace slice s by (2^k - 1) - s
            r = r + (P((1 << (hi - lo)) - 1) - s * 2) * (1 << lo)
        return r
    up, uq = uview(ctx, p, w, False), uview(ctx, q, w, False)
    if is01(ctx, up) and is01(ctx, uq):
        return up + uq - up * uq * 2
    s1, s2 = support(ctx, up), support(ctx, uq)
    if s1 is not None and s2 is not None and s1 & s2 == 0:
        return up + uq
    parts = set()
    for x in (up, uq):
        a = x.as_atom()
        if a is not None and a.key[0] == "xor":
            parts ^= a.key[1]
        else:
            parts ^= {x}
    if not parts:
        return ZERO
    if len(parts) == 1:
        return next(iter(parts))
    hi = 0
    for x in parts:
        h = ctx.range(x)[1]
        hi = max(hi, (1 << int(h).bit_length()) - 1 if h != INF else n - 1)
    return Poly.atom(Atom(("xor", frozenset(parts), w), 0, min(hi, n - 1), True))


# -------------------------------------------------------------------- floating point, read over the reals
class Rat:
    __slots__ = ("num", "den")

    def __init__(self, num, den=ONE):
        if den.is_const():
            c = Fraction(den.cval())
            if c != 1 and c != 0:
                num = num * (1 / c)
            den = ONE
        else:
            # cancel common monomial factors and leading coefficient
            common = None
            for m in list(num.t) + list(den.t):
                s = list(m)
                if common is None:
                    common = s
                else:
                    cc = []
                    s2 = list(s)
                    for a in common:
                        if a in s2:
                            s2.remove(a)
                            cc.append(a)
                    common = cc
                if not common:
                    break
            if not num.t:
                den = ONE
            elif common:
                d = tuple(common)
                num = Poly({mono_div(m, d): c for m, c in num.t.items()})
                den = Poly({mono_div(m, d): c for m, c in den.t.items()})
            if not den.is_const():
                lead = den.t[min(den.t, key=lambda m: [a.id for a in m])]
                if lead != 1:
                    num = num * (Fraction(1) / Fraction(lead))
                    den = den * (Fraction(1) / Fraction(lead))
            elif den.cval() != 1:
                num = num * (Fraction(1) / Fraction(den.cval()))
                den = ONE
        self.num = num
        self.den = den

    def __hash__(self):
        return hash((self.num, self.den))

    def __eq__(self, o):
        return isinstance(o, Rat) and self.num == o.num and self.den == o.den

    def norm(self, ctx):
        n, d = ctx.norm(self.num), ctx.norm(self.den)
        if n == self.num and d == self.den:
            return self
        return Rat(n, d)

    def __add__(self, o):
        if self.den == o.den:
            return Rat(self.num + o.num, self.den)
        return Rat(self.num * o.den + o.num * self.den, self.den * o.den)

    def __neg__(self):
        return Rat(-self.num, self.den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(self.num * o.num, self.den * o.den)

    def inv(self):
        return Rat(self.den, self.num)

    def const(self):
        if self.den.is_const() and self.num.is_const():
            return Fraction(self.num.cval()) / Fraction(self.den.cval())
        return None

    def __repr__(self):
        if self.den == ONE:
            return repr(self.num)
        return f"({self.num})/({self.den})"


def rconst(x):
    return Rat(Poly.const(Fraction(x)))


def cmp_poly(a, b):
    """a polynomial with the sign of a - b"""
    d = a - b
    if d.den.is_const():
        p = d.num
    else:
        p = d.num * d.den
    # drop relatively negligible coefficients (constant folding differs by ulps)
    if p.t and not p.is_const():
        mx = {}
        for m, c in (a.num * b.den).t.items():
            mx[m] = max(mx.get(m, 0), abs(c))
        for m, c in (b.num * a.den).t.items():
            mx[m] = max(mx.get(m, 0), abs(c))
        if a.den == b.den:
            mx = {}
            for q in (a.num, b.num):
                for m, c in q.t.items():
                    mx[m] = max(mx.get(m, 0), abs(c))
        if d.den.is_const():
            p = Poly({m: c for m, c in p.t.items() if not (m in mx and abs(c) <= mx[m] * Fraction(1, 10**13))})
        elif all(abs(c) <= mx.get(m, 0) * Fraction(1, 10**13) for m, c in d.num.t.items()):
            p = ZERO
    return p
