"""Trace-partitioned abstract interpretation of LLVM IR (as rendered by tools/irdump).

Nothing is executed: every input is an abstract atom, memory holds abstract values, a branch whose condition is not
implied by the abstract context splits the partition, and loops are cut at their headers (loop-carried values and every
memory cell written in the body are replaced by fresh atoms) unless their trip count is a compile-time constant.
"""
import json
import re
from fractions import Fraction
from poly import *
import poly as PL


class IVal:
    __slots__ = ("w", "p")

    def __init__(self, w, p):
        self.w = w
        self.p = p if isinstance(p, Poly) else Poly.const(p)

    def __repr__(self):
        return f"i{self.w}:{self.p}"


class BVal:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return f"b:{show_lit(self.l)}"


class FVal:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return f"f:{self.r}"


class PVal:
    __slots__ = ("b", "o")

    def __init__(self, b, o=ZERO):
        self.b = b
        self.o = o

    def __repr__(self):
        return f"p:{self.b}+{self.o}"


class AVal:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"agg{self.e}"


class CVal:
    """an integer that is the bytewise concatenation of separately stored values (struct copies through registers)"""
    __slots__ = ("w", "parts", "gaps")

    def __init__(self, w, parts):
        self.gaps = {}
        self.w = w
        self.parts = parts  # (byte offset, size, value | None)

    def __repr__(self):
        return f"cat{self.w}{self.parts}"


class UVal:
    def __repr__(self):
        return "undef"


UNDEF = UVal()
TRUE = ("true",)
FALSE = ("false",)
NULL = PVal(None, ZERO)


def show_lit(l, val=True):
    k = l[0]
    if k in ("true", "false"):
        return k if val else ("false" if k == "true" else "true")
    if k == "not":
        return show_lit(l[1], not val)
    if k in ("and", "or", "xor"):
        s = "(" + f" {k} ".join(show_lit(x) for x in l[1:]) + ")"
        return s if val else "!" + s
    op = {("ge", True): ">= 0", ("ge", False): "< 0", ("gt", True): "> 0", ("gt", False): "<= 0", ("eq", True): "== 0",
          ("eq", False): "!= 0"}[(k, val)]
    return f"{l[1]} {op}"


class Module:
    def __init__(self, path):
        d = json.load(open(path, encoding="latin-1"))
        self.fn = d["functions"]
        self.gl = d["globals"]
        self.bydem = {}
        for n, f in self.fn.items():
            f["name"] = n
            self.bydem.setdefault(f["dem"], n)
        for a, t in d.get("aliases", {}).items():
            if t in self.fn:
                self.fn[a] = self.fn[t]

    def find(self, regex):
        r = re.compile(regex)
        return [n for n, f in self.fn.items() if r.search(f["dem"]) and f["blocks"]]


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bool, Fraction, frozenset, Poly, Atom)):
        return a == b
    sl = getattr(type(a), "__slots__", None)
    if sl:
        return all(same_value(getattr(a, x, None), getattr(b, x, None)) for x in sl)
    if hasattr(a, "__dict__"):
        return a.__dict__.keys() == b.__dict__.keys() and all(same_value(v, b.__dict__[k]) for k, v in a.__dict__.items())
    return a == b


class Frame:
    __slots__ = ("f", "env", "bb", "ix", "prev", "rid", "nd", "ud", "allocas", "visits", "meta")

    def copy(self):
        g = Frame.__new__(Frame)
        g.f = self.f
        g.env = dict(self.env)
        g.bb = self.bb
        g.ix = self.ix
        g.prev = self.prev
        g.rid = self.rid
        g.nd = self.nd
        g.ud = self.ud
        g.visits = dict(self.visits)
        g.meta = self.meta
        g.allocas = self.allocas
        return g


class State:
    __slots__ = ("ctx", "mem", "frames", "ev", "path", "tag", "owned")

    def copy(self):
        s = State.__new__(State)
        s.ctx = self.ctx.copy()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.ev = self.ev
        s.path = self.path
        s.tag = dict(self.tag)
        s.owned = set()
        self.owned = set()
        return s

    def obj(self, b):
        """a writable cell map of object b"""
        if b not in self.owned:
            self.mem[b] = dict(self.mem.get(b, {}))
            self.owned.add(b)
        return self.mem[b]


class Outcome:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


class Stop(Exception):
    """raised by hooks to end a trace partition"""

    def __init__(self, kind, val=None):
        self.kind = kind
        self.val = val


class ReenterSplit(Exception):
    def __init__(self, alts):
        self.alts = alts


class Machine:
    thread_mode = "eager"
    split_mod = 0  # remainders of constant divisors up to this bound are distinguished eagerly
    overflow = "ub"  # signed overflow: "ub" ends the partition (a finding), "wrap" two's complement, "assume" excluded

    def __init__(self, module, models=None, max_states=20000, max_visits=600):
        self.typeids = {}
        self.m = module
        self.models = [(re.compile(r), h) for r, h in (models or [])]
        self._modelcache = {}
        self.objn = 0
        self.max_states = max_states
        self.max_visits = max_visits
        self.block_hook = None
        self.covered = set()
        self.branches = 0
        self.partitions = 0
        self.opaque = set()
        self.externs = {}

    # ------------------------------------------------------------------ threads
    log_access = False
    atomic = frozenset()  # {"atomic"} within an atomic access: two of them do not race

    def access(self, s, b, off, size, write):
        """record a memory access for the data-race rule"""
        t = s.tag.get("thr", 0)
        if t == 0 and not s.tag.get("live") or s.tag.get("guard"):
            return
        if b[0] == "g" and "guard variable" in self.m.gl.get(b[1], {}).get("dem", ""):
            return
        s.tag["acc"] = (s.tag.get("acc"), (t, s.tag.get("clock", 0), b, off if isinstance(off, int) else None, size, write,
                                           frozenset(s.tag.get("locks", ())) | self.atomic, self.where(s)))

    def races(self, s):
        """pairs of conflicting accesses of concurrently live threads without a common lock"""
        acc = []
        e = s.tag.get("acc")
        while e is not None:
            acc.append(e[1])
            e = e[0]
        span = s.tag.get("span", {})
        by = {}
        for a in acc:
            by.setdefault(a[2], []).append(a)
        out = []
        for b, l in by.items():
            if len({a[0] for a in l}) < 2 or not any(a[5] for a in l):
                continue
            seen = {}
            for a in l:
                seen.setdefault((a[0], a[3], a[4], a[5], a[6]) + ((a[1],) if a[0] == 0 else ()), a)
            l = list(seen.values())
            for i, x in enumerate(l):
                for y in l[i + 1:]:
                    if x[0] == y[0] or not (x[5] or y[5]) or x[6] & y[6]:
                        continue
                    if x[3] is not None and y[3] is not None and not (x[3] < y[3] + y[4] and y[3] < x[3] + x[4]):
                        continue
                    if x[0] and y[0]:
                        (a0, a1), (b0, b1) = span[x[0]], span[y[0]]
                        if a1 <= b0 or b1 <= a0:
                            continue
                    else:
                        w, mn = (x, y) if x[0] else (y, x)
                        a0, a1 = span[w[0]]
                        if not a0 <= mn[1] < a1:
                            continue
                    out.append((x, y))
        return out

    # ------------------------------------------------------------------ setup
    def new_state(self):
        s = State.__new__(State)
        s.ctx = Ctx()
        s.mem = {}
        s.frames = []
        s.ev = None
        s.path = None
        s.tag = {}
        s.owned = set()
        return s

    def new_obj(self, st, size, kind="heap"):
        self.objn += 1
        b = (kind, self.objn, size)
        st.mem[b] = {}
        st.owned.add(b)
        return PVal(b, ZERO)

    def push(self, st, fname, args, rid=None, nd=None, ud=None, meta=None):
        f = self.m.fn[fname]
        fr = Frame.__new__(Frame)
        fr.f = f
        fr.env = {i: a for i, a in enumerate(args)}
        fr.bb = 0
        fr.ix = 0
        fr.prev = None
        fr.rid = rid
        fr.nd = nd
        fr.ud = ud
        fr.visits = {}
        fr.meta = meta
        fr.allocas = None
        st.frames.append(fr)
        self.covered.add(fname)
        if len(st.frames) > 120:
            p = self.endless_calls(st)
            if p:
                raise Stop("nontermination", "unbounded recursion of " + p)
            raise Undecided("call depth at " + f["dem"])

    PURE_OPS = {"store", "atomicrmw", "cmpxchg", "fence", "va_arg"}

    def effect_free(self, f, cyc, depth=3):
        for blk in f["blocks"]:
            for ins in blk:
                if ins["op"] in self.PURE_OPS:
                    return False
                if ins["op"] in ("call", "invoke"):
                    n = ins["callee"]["v"] if ins["callee"]["k"] == "g" else None
                    g = self.m.fn.get(n) if isinstance(n, str) else None
                    if n in cyc or (isinstance(n, str) and n.startswith("llvm.") and not n.startswith("llvm.mem")):
                        continue
                    if g is None or not g["blocks"] or depth == 0 or not self.effect_free(g, cyc, depth - 1):
                        return False
        return True

    def endless_calls(self, st):
        """the innermost frames repeat the same calls with the same arguments and nothing in them changes memory"""
        fs = st.frames
        for per in (1, 2, 3, 4):
            for k in range(1, 41):
                a, b = fs[-k], fs[-k - per]
                if a.f is not b.f or any(not same_value(a.env.get(i), b.env.get(i)) for i in range(len(a.f["args"]))):
                    break
            else:
                cyc = {fr.f["name"] for fr in fs[-per:]}
                if all(self.effect_free(fr.f, cyc) for fr in fs[-per:]):
                    return fs[-1].f["dem"]
        return None

    def endless_loop(self, s, fr, b):
        """between two visits of a block nothing changed, so the loop never ends"""
        sn = (len(s.frames), [dict(f.env) for f in s.frames], {k: dict(v) if isinstance(v, dict) else v for k, v in s.mem.items()})
        key = (len(s.frames), fr.f["name"], b)
        old = s.tag.get("loopsnap", {})
        o = old.get(key)
        if o is None:
            s.tag["loopsnap"] = {**old, key: sn}
            return False
        if o[0] != sn[0] or o[2].keys() != sn[2].keys():
            return False
        for x, y in zip(o[1], sn[1]):
            if x.keys() != y.keys() or any(not same_value(x[k], y[k]) for k in x):
                return False
        for k in o[2]:
            x, y = o[2][k], sn[2][k]
            if x is y:
                continue
            if not isinstance(x, dict) or not isinstance(y, dict) or x.keys() != y.keys() or any(not same_value(x[c], y[c]) for c in x):
                return False
        return True

    def run(self, st):
        """explore all partitions of st; yields Outcomes"""
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > self.max_states:
                raise Undecided("too many partitions")
            while True:
                try:
                    r = self.step(s)
                except NeedSplit as e:
                    alts = self.split(s, e.lit)
                    if not alts:
                        break
                    s = alts[0]
                    work.extend(alts[1:])
                    continue
                except ReenterSplit as e:
                    if not e.alts:
                        break
                    s = e.alts[0]
                    work.extend(e.alts[1:])
                    continue
                except Contradiction:
                    break
                except Stop as e:
                    self.partitions += 1
                    yield Outcome(e.kind, e.val, s)
                    break
                if r is None:
                    continue
                self.partitions += 1
                yield r
                break

    def split(self, s, lit):
        d = s.ctx.decide(lit)
        if d is not None:
            # the literal is decided but the operation did not see it: simplification gap
            raise Undecided(f"cannot exploit decided literal {show_lit(lit)} at {self.where(s)}")
        lit = s.ctx.first_open(lit)
        out = []
        self.branches += 1
        for v in (True, False):
            c = s.copy()
            try:
                c.ctx.assume(lit, v)
            except Contradiction:
                continue
            c.path = (c.path, (self.where(s), lit, v))
            out.append(c)
        return out

    def where(self, s):
        if not s.frames:
            return "?"
        for fr in reversed(s.frames):
            b = fr.f["blocks"][fr.bb]
            if fr.ix < len(b) and "fl" in b[fr.ix]:
                i = b[fr.ix]
                return f"{i['fl']}:{i.get('ln', 0)}"
        return s.frames[-1].f["dem"]

    @staticmethod
    def events(st):
        out = []
        e = st.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    @staticmethod
    def pathlist(st):
        out = []
        e = st.path
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def emit(self, st, *ev):
        st.ev = (st.ev, ev)

    # ------------------------------------------------------------------ values
    def val(self, s, o):
        k = o["k"]
        if k == "v":
            fr = s.frames[-1]
            if o["v"] not in fr.env:
                raise Undecided(f"unset value at {self.where(s)}")
            return fr.env[o["v"]]
        return self.constant(s, o)

    def constant(self, s, o):
        k = o["k"]
        if k == "c":
            if o["w"] == 1:
                return BVal(TRUE if o["v"] == "1" else FALSE)
            v = int(o["v"])
            if v >> (o["w"] - 1):
                v -= 1 << o["w"]
            return IVal(o["w"], v)
        if k == "f":
            h = o["v"]
            if "inf" in h or "nan" in h:
                a = Atom(("var", "const:" + h), -INF, INF, False)
                if h == "inf":
                    s.tag["inf"] = True
                return FVal(Rat(Poly.atom(a)))
            return FVal(rconst(Fraction(float.fromhex(h))))
        if k == "n":
            return NULL
        if k == "u":
            return self.undef(o["t"])
        if k == "g":
            if o["v"] in self.m.fn:
                return PVal(("fn", o["v"]), ZERO)
            return PVal(("g", o["v"]), ZERO)
        if k == "ge":
            b = self.constant(s, o["b"])
            return PVal(b.b, b.o + o["o"])
        if k == "z":
            return self.zero(o["t"])
        if k == "agg":
            return AVal([self.constant(s, e) for e in o["el"]])
        if k == "ce" and o["op"] == "inttoptr":
            v = self.constant(s, o["ops"][0])
            return self.int2ptr(s, v)
        if k == "ce" and o["op"] == "ptrtoint":
            v = self.constant(s, o["ops"][0])
            return self.ptr2int(s, v, o["t"][1])
        if k == "md":
            return UNDEF
        raise Undecided(f"constant kind {o}")

    def undef(self, t):
        if t[0] == "i" and t[1] > 1:
            return IVal(t[1], Poly.atom(fresh("undef", 0, (1 << t[1]) - 1)))
        if t[0] == "s":
            return AVal([self.undef(e[1]) for e in t[2]])
        if t[0] == "a":
            return AVal([self.undef(t[3]) for _ in range(t[1])])
        return UNDEF

    def zero(self, t):
        if t[0] == "i":
            return BVal(FALSE) if t[1] == 1 else IVal(t[1], 0)
        if t[0] == "f":
            return FVal(rconst(0))
        if t[0] == "p":
            return NULL
        if t[0] == "s":
            return AVal([self.zero(e[1]) for e in t[2]])
        if t[0] == "a":
            return AVal([self.zero(t[3]) for _ in range(t[1])])
        raise Undecided("zero of " + str(t))

    def fresh_of(self, t, name):
        if t[0] == "i":
            if t[1] == 1:
                a = fresh(name, 0, 1)
                return BVal(("not", ("eq", Poly.atom(a))))
            return IVal(t[1], Poly.atom(fresh(name, 0, (1 << t[1]) - 1)))
        if t[0] == "f":
            return FVal(Rat(Poly.atom(fresh(name, -INF, INF, False))))
        if t[0] == "p":
            return PVal(("opq", fresh(name, 1, (1 << 64) - 1)), ZERO)
        if t[0] == "s":
            return AVal([self.fresh_of(e[1], name) for e in t[2]])
        if t[0] == "a":
            return AVal([self.fresh_of(t[3], name) for _ in range(t[1])])
        if t[0] == "v":
            return None
        raise Undecided("fresh of " + str(t))

    def truth(self, s, b):
        """resolve a boolean to a Python bool or split"""
        if isinstance(b, CVal):
            b = self.compose(s, b)
        if isinstance(b, IVal):
            lit = ("not", ("eq", uview(s.ctx, b.p, b.w)))
        elif isinstance(b, BVal):
            lit = b.l
        else:
            raise Undecided(f"branch on undefined value at {self.where(s)}")
        d = s.ctx.decide(lit)
        if d is None:
            raise NeedSplit(lit)
        return d

    def ptr2int(self, s, v, w):
        if v.b is None:
            return IVal(w, v.o)
        if v.b[0] == "opq":
            return IVal(w, Poly.atom(v.b[1]) + v.o)
        a = Atom(("var", f"addr{v.b}"), 1, 1 << 47)
        a_id = ("addr", v.b)
        self.externs[a] = v.b
        return IVal(w, Poly.atom(a) + v.o)

    def int2ptr(self, s, v):
        if v.p.is_const() and v.p.cval() == 0:
            return NULL
        for m, c in v.p.t.items():
            if len(m) == 1 and c == 1 and m[0] in self.externs:
                return PVal(self.externs[m[0]], v.p - Poly.atom(m[0]))
            if len(m) == 1 and c == 1 and m[0].key[0] == "var" and m[0].lo == 1:
                return PVal(("opq", m[0]), v.p - Poly.atom(m[0]))
        raise Undecided(f"inttoptr at {self.where(s)}")

    # ------------------------------------------------------------------ memory
    def tsize(self, t):
        if t[0] == "i":
            n = (t[1] + 7) // 8
            return max(n, 1) if n <= 8 else 16
        if t[0] == "f":
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == "p":
            return 8
        if t[0] == "s":
            return t[1]
        if t[0] == "a":
            return t[1] * t[2]
        raise Undecided("size of " + str(t))

    def ginit(self, s, b):
        """flatten a global's initializer"""
        cells = {}
        g = self.m.gl.get(b[1])
        if g is None:
            return cells
        init = g.get("init")
        if init is None:
            if b[1] == "__libc_single_threaded":
                # either path of a reference count update has the same effect, but only the atomic one is free of races
                return {0: (1, IVal(8, P(0 if self.log_access else 1)))}
            return cells
        if not g["const"]:
            if "guard variable" in g["dem"]:
                return {0: (1, IVal(8, 0)), 1: (7, IVal(56, 0))}
            return cells
        self._flat(s, cells, 0, self.constant(s, init), g["t"])
        return cells

    def _flat(self, s, cells, off, v, t):
        if t[0] == "s":
            for (eo, et), e in zip(t[2], v.e):
                self._flat(s, cells, off + eo, e, et)
        elif t[0] == "a":
            for i, e in enumerate(v.e):
                self._flat(s, cells, off + i * t[2], e, t[3])
        else:
            if isinstance(v, UVal):
                return
            cells[off] = (self.tsize(t), v)

    def cells(self, s, b):
        c = s.mem.get(b)
        if c is None:
            if b is None:
                raise Stop("ub", "null dereference at " + self.where(s))
            if b[0] == "g":
                c = self.ginit(s, b)
            else:
                c = {}
            s.mem[b] = c
        return c

    def norm_off(self, s, o):
        o = s.ctx.norm(o)
        if o.is_const():
            return int(o.cval())
        lo, hi = s.ctx.range(o)
        if lo == hi:
            return int(lo)
        # the offset as a signed 64-bit quantity
        n = 1 << 64
        o = Poly({m: ((c + n // 2) % n) - n // 2 for m, c in o.t.items() if c % n})
        if o.is_const():
            return int(o.cval())
        return o

    def load(self, s, p, t):
        if isinstance(p, IVal):
            p = self.int2ptr(s, p)
        if not isinstance(p, PVal):
            raise Undecided(f"load through undefined pointer at {self.where(s)}")
        if p.b is None:
            raise Stop("ub", "null dereference at " + self.where(s))
        if t[0] == "s":
            return AVal([self.load(s, PVal(p.b, p.o + eo), et) for eo, et in t[2]])
        if t[0] == "a":
            return AVal([self.load(s, PVal(p.b, p.o + i * t[2]), t[3]) for i in range(t[1])])
        size = self.tsize(t)
        off = self.norm_off(s, p.o)
        if p.b in s.tag.get("freed", ()):
            raise Stop("ub", "read of freed memory at " + self.where(s))
        if self.log_access:
            self.access(s, p.b, off, size, False)
        cells = self.cells(s, p.b)
        if isinstance(off, int):
            if p.b[0] in ("alloca", "heap") and p.b[2] is not None and not (0 <= off and off + size <= p.b[2]):
                raise Stop("ub", f"out-of-bounds read (offset {off}, object of {p.b[2]} bytes) at {self.where(s)}")
            if p.b[0] == "g" and p.b[1] in self.m.gl and self.m.gl[p.b[1]].get("init") is not None:
                if not (0 <= off and off + size <= self.m.gl[p.b[1]]["size"]):
                    raise Stop("ub", f"out-of-bounds read of {self.m.gl[p.b[1]]['dem']} at {self.where(s)}")
            # possible overwrite through symbolic offsets
            for k in cells:
                if isinstance(k, Poly):
                    self._alias(s, Poly.const(off), size, k, cells[k][0])
            c = cells.get(off)
            if c is not None and c[0] == size:
                return self.cast(s, c[1], t)
            return self.assemble(s, p.b, cells, off, size, t)
        # symbolic offset
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.cast(s, c[1], t)
        lo, hi = s.ctx.range(off)
        if p.b[0] == "g" and self.m.gl.get(p.b[1], {}).get("const"):
            self._split_off(s, off, lo, hi)
        if p.b[0] in ("heap", "alloca") and t[0] == "p":
            # a pointer field of one of a few elements: decide which one
            sg = off.single()
            if sg is not None:
                l, h = s.ctx.arange(sg[0])
                if 0 < h - l <= 16:
                    self._split_off(s, off, lo, hi)
        for k in list(cells):
            kp = k if isinstance(k, Poly) else Poly.const(k)
            if self._alias(s, off, size, kp, cells[k][0]):
                if cells[k][0] == size:
                    return self.cast(s, cells[k][1], t)
                raise Undecided("partial symbolic overlap at " + self.where(s))
        v = self.initial(s, p.b, off, size, t)
        s.obj(p.b)[off] = (size, v)
        return v

    def _split_off(self, s, off, lo, hi):
        sg = off.single()
        if sg is None:
            # split the atom with the smallest range first
            best = None
            for a in off.atoms():
                l, h = s.ctx.arange(a)
                if l == -INF or h == INF or h - l > 64:
                    raise Undecided(f"symbolic table index {off} at {self.where(s)}")
                if h > l and (best is None or h - l < best[1]):
                    best = (a, h - l, l)
            if best is None:
                raise Undecided("table index")
            raise NeedSplit(("ge", P(best[2] + best[1] // 2) - Poly.atom(best[0])))
        a, c, k = sg
        l, h = s.ctx.arange(a)
        if l == -INF or h == INF or h - l > 300:
            raise Undecided(f"symbolic table index {off} in [{l},{h}] at {self.where(s)}")
        raise NeedSplit(("ge", P(int((l + h) // 2)) - Poly.atom(a)))

    def _alias(self, s, o1, s1, o2, s2):
        """True if the accesses coincide exactly, False if disjoint; splits when undecided"""
        d = s.ctx.norm(o1 - o2)
        n = 1 << 64
        d = Poly({m: ((c + n // 2) % n) - n // 2 for m, c in d.t.items() if c % n})
        if not d.t:
            return True
        if s.ctx.ge0(d - s2) or s.ctx.ge0(-d - s1):
            return False
        e = s.ctx.decide(("eq", d))
        if e is True:
            return True
        if e is False and s1 == s2:
            # equal-sized, equally strided cells: distinct offsets do not overlap (element accesses)
            if all(c % s1 == 0 for c in d.t.values()):
                return False
        if s1 == s2 and all(c % s1 == 0 for c in d.t.values()):
            raise NeedSplit(("eq", Poly({m: c // s1 for m, c in d.t.items()})))
        raise NeedSplit(("ge", d - s2)) if s.ctx.decide(("ge", d - s2)) is None else NeedSplit(("ge", -d - s1))

    def initial(self, s, b, off, size, t):
        if b[0] in ("alloca", "heap"):
            if t[0] == "i":
                return IVal(t[1], Poly.atom(fresh("undef", 0, (1 << t[1]) - 1))) if t[1] > 1 else UNDEF
            if t[0] == "f":
                return FVal(Rat(Poly.atom(fresh("undef", isint=False))))
            return UNDEF
        key = ("mem", b, off if isinstance(off, int) else off, size)
        nm = f"*{self.bname(b)}[{off}]"
        if t[0] == "i":
            w = 8 * size if t[1] > 1 else 8
            a = Atom(("var", nm, key), 0, (1 << w) - 1)
            if t[1] == 1:
                return BVal(("not", ("eq", Poly.atom(a))))
            return IVal(t[1], Poly.atom(a))
        if t[0] == "f":
            return FVal(Rat(Poly.atom(Atom(("var", nm, key), -INF, INF, False))))
        if t[0] == "p":
            return PVal(("opq", Atom(("var", nm, key), 1, (1 << 64) - 1)), ZERO)
        raise Undecided("initial " + str(t))

    def bname(self, b):
        if b is None:
            return "null"
        if b[0] == "opq":
            return str(b[1])
        if b[0] == "g":
            return self.m.gl.get(b[1], {}).get("dem", b[1])
        return f"{b[0]}{b[1]}"

    def assemble(self, s, b, cells, off, size, t):
        over = [(k, c) for k, c in cells.items() if isinstance(k, int) and k < off + size and off < k + c[0]]
        if not over:
            v = self.initial(s, b, off, size, t)
            s.obj(b)[off] = (size, v)
            return v
        over.sort(key=lambda x: x[0])
        if t[0] == "i" and t[1] == 8 * size and size > 1 and all(k >= off and k + c[0] <= off + size for k, c in over):
            parts = []
            pos = off
            for k, c in over:
                if k > pos:
                    parts.append((pos - off, k - pos, self.gap(s, b, pos, k - pos)))
                parts.append((k - off, c[0], c[1]))
                pos = k + c[0]
            if pos < off + size:
                parts.append((pos - off, off + size - pos, self.gap(s, b, pos, off + size - pos)))
            return CVal(8 * size, parts)
        # bytewise composition
        acc = ZERO
        pos = off
        for k, c in over:
            if k > pos:
                gap = k - pos
                iv = self.initial(s, b, pos, gap, ["i", 8 * gap])
                s.obj(b)[pos] = (gap, iv)
                acc = acc + iv.p * (1 << (8 * (pos - off)))
                pos = k
            v = c[1]
            if isinstance(v, FVal):
                v = IVal(8 * c[0], Poly.atom(Atom(("fn", "bits", (v.r,)), 0, (1 << (8 * c[0])) - 1)))
            if isinstance(v, BVal):
                v = self.b2i(s, v, 8)
            if isinstance(v, PVal):
                v = self.ptr2int(s, v, 64)
            if isinstance(v, UVal):
                v = IVal(8 * c[0], Poly.atom(fresh("undef", 0, (1 << (8 * c[0])) - 1)))
            u = uview(s.ctx, v.p, 8 * c[0])
            a, e = max(k, off), min(k + c[0], off + size)
            part = slc(s.ctx, u, 8 * (a - k), 8 * (e - k))
            acc = acc + part * (1 << (8 * (a - off)))
            pos = e
        if pos < off + size:
            gap = off + size - pos
            iv = self.initial(s, b, pos, gap, ["i", 8 * gap])
            s.obj(b)[pos] = (gap, iv)
            acc = acc + iv.p * (1 << (8 * (pos - off)))
        return self.cast(s, IVal(8 * size, acc), t)

    def gap(self, s, b, off, n):
        """bytes never written: undefined in local objects, initial memory elsewhere"""
        if b[0] in ("alloca", "heap"):
            return None
        iv = self.initial(s, b, off, n, ["i", 8 * n])
        s.obj(b)[off] = (n, iv)
        return iv

    def compose(self, s, v):
        acc = ZERO
        for o, n, x in v.parts:
            if x is None or isinstance(x, UVal):
                # one undefined value per gap, also when the instruction is re-executed after a split
                x = v.gaps.get(o)
                if x is None:
                    x = v.gaps[o] = IVal(8 * n, Poly.atom(fresh("undef", 0, (1 << (8 * n)) - 1)))
            acc = acc + self.bits(s, x, n) * (1 << (8 * o))
        return IVal(v.w, acc)

    def bits(self, s, v, n):
        """unsigned view of a stored value of n bytes"""
        if v is None or isinstance(v, UVal):
            return Poly.atom(fresh("undef", 0, (1 << (8 * n)) - 1))
        if isinstance(v, CVal):
            v = self.compose(s, v)
        if isinstance(v, FVal):
            return Poly.atom(Atom(("fn", "bits", (v.r,)), 0, (1 << (8 * n)) - 1))
        if isinstance(v, BVal):
            return self.b2i(s, v, 8).p
        if isinstance(v, PVal):
            v = self.ptr2int(s, v, 64)
        return uview(s.ctx, v.p, 8 * n)

    def cast(self, s, v, t):
        if isinstance(v, CVal):
            if t[0] == "i" and t[1] == v.w:
                return v
            live = [x for x in v.parts if x[2] is not None]
            if t[0] == "i" and t[1] < v.w and t[1] % 8 == 0:
                n = t[1] // 8
                if all(o + k <= n or o >= n for o, k, _ in v.parts):
                    ps = [x for x in v.parts if x[0] < n]
                    if len(ps) == 1 and ps[0][2] is not None:
                        return self.cast(s, ps[0][2], t)
                    return CVal(t[1], ps)
            if t[0] != "i" and len(live) == 1 and live[0][0] == 0 and live[0][1] == self.tsize(t):
                return self.cast(s, live[0][2], t)
            v = self.compose(s, v)
        if t[0] == "i":
            if t[1] == 1:
                if isinstance(v, BVal):
                    return v
                if isinstance(v, IVal):
                    return BVal(("not", ("eq", slc(s.ctx, v.p, 0, 1))))
            if isinstance(v, IVal):
                return v if v.w == t[1] else IVal(t[1], v.p)
            if isinstance(v, BVal):
                return self.b2i(s, v, t[1])
            if isinstance(v, PVal):
                return self.ptr2int(s, v, t[1])
            if isinstance(v, FVal):
                return IVal(t[1], Poly.atom(Atom(("fn", "bits", (v.r,)), 0, (1 << t[1]) - 1)))
        if t[0] == "f":
            if isinstance(v, FVal):
                return v
            if isinstance(v, IVal):
                p = s.ctx.norm(v.p)
                if p.is_const():
                    import struct
                    return FVal(rconst(Fraction(struct.unpack("<d", struct.pack("<Q", p.cval() % (1 << 64)))[0])))
                a = p.as_atom()
                if a is not None and a.key[0] == "fn" and a.key[1] == "bits":
                    return FVal(a.key[2][0])
                return FVal(Rat(Poly.atom(Atom(("fn", "frombits", (p,)), -INF, INF, False))))
        if t[0] == "p":
            if isinstance(v, PVal):
                return v
            if isinstance(v, IVal):
                return self.int2ptr(s, v)
        if isinstance(v, UVal):
            return self.undef(t)
        return v

    def store(self, s, p, v, t):
        if isinstance(p, IVal):
            p = self.int2ptr(s, p)
        if not isinstance(p, PVal):
            raise Undecided(f"store through undefined pointer at {self.where(s)}")
        if p.b is None:
            raise Stop("ub", "null dereference at " + self.where(s))
        if isinstance(v, CVal):
            off = self.norm_off(s, p.o)
            if not isinstance(off, int):
                v = self.compose(s, v)
            else:
                # clear the whole extent, then place the parts
                self.store(s, p, IVal(v.w, 0), ["i", v.w])
                del s.obj(p.b)[off]
                for o, n, x in v.parts:
                    if x is None or isinstance(x, UVal):
                        if p.b[0] not in ("alloca", "heap"):
                            s.obj(p.b)[off + o] = (n, IVal(8 * n, Poly.atom(fresh("undef", 0, (1 << (8 * n)) - 1))))
                        continue
                    if isinstance(x, CVal):
                        self.store(s, PVal(p.b, p.o + o), x, ["i", x.w])
                        continue
                    s.obj(p.b)[off + o] = (n, x)
                return
        if t[0] == "s":
            for (eo, et), e in zip(t[2], v.e):
                self.store(s, PVal(p.b, p.o + eo), e, et)
            return
        if t[0] == "a":
            for i, e in enumerate(v.e):
                self.store(s, PVal(p.b, p.o + i * t[2]), e, t[3])
            return
        size = self.tsize(t)
        off = self.norm_off(s, p.o)
        if p.b in s.tag.get("freed", ()):
            raise Stop("ub", "write to freed memory at " + self.where(s))
        if self.log_access:
            self.access(s, p.b, off, size, True)
        self.cells(s, p.b)
        if isinstance(off, int):
            if p.b[0] in ("alloca", "heap") and p.b[2] is not None and not (0 <= off and off + size <= p.b[2]):
                raise Stop("ub", f"out-of-bounds write at {self.where(s)}")
            cells = s.obj(p.b)
            for k in list(cells):
                c = cells[k]
                if isinstance(k, Poly):
                    if self._alias(s, Poly.const(off), size, k, c[0]):
                        del cells[k]
                    continue
                if k < off + size and off < k + c[0] and not (k >= off and k + c[0] <= off + size):
                    # keep the uncovered parts
                    cv = c[1]
                    if isinstance(cv, FVal):
                        cv = IVal(8 * c[0], Poly.atom(Atom(("fn", "bits", (cv.r,)), 0, (1 << (8 * c[0])) - 1)))
                    if isinstance(cv, PVal):
                        cv = self.ptr2int(s, cv, 64)
                    if isinstance(cv, BVal):
                        cv = self.b2i(s, cv, 8)
                    if isinstance(cv, UVal):
                        del cells[k]
                        continue
                    u = uview(s.ctx, cv.p, 8 * c[0])
                    if k < off:
                        cells[k] = (off - k, IVal(8 * (off - k), slc(s.ctx, u, 0, 8 * (off - k))))
                    else:
                        del cells[k]
                    e = k + c[0]
                    if e > off + size:
                        n = e - off - size
                        cells[off + size] = (n, IVal(8 * n, slc(s.ctx, u, 8 * (off + size - k), 8 * c[0])))
                elif k >= off and k + c[0] <= off + size:
                    del cells[k]
            cells[off] = (size, v)
            return
        for k in list(s.mem[p.b]):
            kp = k if isinstance(k, Poly) else Poly.const(k)
            if self._alias(s, off, size, kp, s.mem[p.b][k][0]):
                del s.obj(p.b)[k]
        s.obj(p.b)[off] = (size, v)

    def memcpy(self, s, d, r, n):
        if n == 0:
            return
        do, ro = self.norm_off(s, d.o), self.norm_off(s, r.o)
        if not isinstance(do, int) or not isinstance(ro, int):
            # chunked through symbolic offsets
            if n % 8 == 0 and n <= 128:
                vals = [self.load(s, PVal(r.b, r.o + 8 * i), ["i", 64]) for i in range(n // 8)]
                for i, v in enumerate(vals):
                    self.store(s, PVal(d.b, d.o + 8 * i), v, ["i", 64])
                return
            if n in (1, 2, 4):
                self.store(s, d, self.load(s, r, ["i", 8 * n]), ["i", 8 * n])
                return
            raise Undecided("memcpy at symbolic address " + self.where(s))
        src = self.cells(s, r.b)
        moved = []
        pos = ro
        ks = sorted(k for k in src if isinstance(k, int) and k < ro + n and k + src[k][0] > ro)
        if any(isinstance(k, Poly) for k in src):
            raise Undecided("memcpy over symbolic cells " + self.where(s))
        plan = []
        for k in ks:
            sz, v = src[k]
            if k > pos:
                plan.append((pos, k - pos, None))
            a, e = max(k, ro), min(k + sz, ro + n)
            plan.append((a, e - a, v if (a == k and e == k + sz) else "part"))
            pos = e
        if pos < ro + n:
            plan.append((pos, ro + n - pos, None))
        for a, sz, v in plan:
            if v is None and r.b[0] in ("alloca", "heap"):
                moved.append((a - ro, sz, None))
            elif v is None or v == "part":
                q = a
                while q < a + sz:
                    step = 8 if (q % 8 == 0 and a + sz - q >= 8) else (4 if q % 4 == 0 and a + sz - q >= 4 else 1)
                    moved.append((q - ro, step, self.load(s, PVal(r.b, Poly.const(q)), ["i", 8 * step])))
                    q += step
            else:
                moved.append((a - ro, sz, v))
        for o, sz, v in moved:
            if v is None:
                v = UNDEF
                # clear destination
                cells = s.obj(d.b) if d.b in s.mem else None
                if cells is not None:
                    for k in [k for k in cells if isinstance(k, int) and do + o <= k and k + cells[k][0] <= do + o + sz]:
                        del cells[k]
                continue
            t = ["i", 8 * sz]
            if isinstance(v, FVal):
                t = ["f", 8 * sz]
            elif isinstance(v, PVal):
                t = ["p", 64]
            self.store(s, PVal(d.b, Poly.const(do + o)), v, t)

    # ------------------------------------------------------------------ helpers
    def b2i(self, s, v, w):
        d = s.ctx.decide(v.l)
        if d is None:
            # a literal that is itself a 0/1 atom converts without splitting
            if v.l[0] == "not" and v.l[1][0] == "eq":
                p = s.ctx.norm(v.l[1][1])
                if is01(s.ctx, p):
                    return IVal(w, p)
            if v.l[0] == "eq":
                p = s.ctx.norm(v.l[1])
                if is01(s.ctx, p):
                    return IVal(w, ONE - p)
                if is01(s.ctx, -p):
                    return IVal(w, ONE + p)
            raise NeedSplit(v.l)
        return IVal(w, 1 if d else 0)

    def ival(self, s, v, w=None):
        if isinstance(v, IVal):
            return v
        if isinstance(v, CVal):
            return self.compose(s, v)
        if isinstance(v, BVal):
            return self.b2i(s, v, w or 1)
        if isinstance(v, PVal):
            return self.ptr2int(s, v, 64)
        if isinstance(v, UVal):
            return IVal(w or 64, Poly.atom(fresh("undef", 0, (1 << (w or 64)) - 1)))
        raise Undecided(f"integer expected at {self.where(s)}: {v}")

    def rat(self, s, v):
        if isinstance(v, FVal):
            return v.r
        if isinstance(v, UVal):
            return Rat(Poly.atom(fresh("undef", isint=False)))
        raise Undecided("float expected at " + self.where(s))

    def lit_i(self, s, pred, a, b):
        c = s.ctx
        w = a.w
        if pred in ("eq", "ne"):
            d = c.norm(a.p - b.p)
            lo, hi = c.range(d)
            n = 1 << w
            if not (lo > -n and hi < n):
                ua, ub = uview(c, a.p, w), uview(c, b.p, w)
                d = c.norm(ua - ub)
            if not d.t:
                l = TRUE
            else:
                l = ("eq", d)
            return l if pred == "eq" else lnot(l)
        if pred[0] == "u":
            x, y = uview(c, a.p, w), uview(c, b.p, w)
        else:
            x, y = sview(c, a.p, w), sview(c, b.p, w)
        op = pred[1:]
        if op == "ge":
            return ("ge", x - y)
        if op == "lt":
            return ("not", ("ge", x - y))
        if op == "le":
            return ("ge", y - x)
        if op == "gt":
            return ("not", ("ge", y - x))
        raise Undecided(pred)

    def lit_f(self, s, pred, a, b):
        if pred in ("ord", "true"):
            return TRUE
        if pred in ("uno", "false"):
            return FALSE
        a, b = a.norm(s.ctx), b.norm(s.ctx)
        p = cmp_poly(a, b)
        op = pred[1:]
        q = self.sqrt_cmp(s, p)
        if q is not None:
            p = q
        if not p.t:
            return TRUE if op in ("eq", "ge", "le") else FALSE
        # clear denominators of integer-valued comparisons
        if p.isint() is False and all(x.isint for m in p.t for x in m):
            den = 1
            for cc in p.t.values():
                den = den * Fraction(cc).denominator // __import__("math").gcd(den, Fraction(cc).denominator)
            p = p * den
        if all(Fraction(cc).denominator == 1 for cc in p.t.values()):
            p = Poly({m: int(cc) for m, cc in p.t.items()})
        if op == "eq":
            return ("eq", p)
        if op == "ne":
            return ("not", ("eq", p))
        if op == "ge":
            return ("ge", p)
        if op == "lt":
            return ("not", ("ge", p))
        if op == "le":
            return ("ge", -p)
        if op == "gt":
            return ("gt", p)
        raise Undecided(pred)

    def sqrt_cmp(self, s, p):
        """c * (sqrt(X) - t) for integers X < 2^50 and t has the sign of c * (X - t^2): the root is correctly rounded"""
        nc = [(m, c) for m, c in p.t.items() if m]
        if len(nc) != 1 or len(nc[0][0]) != 1:
            return None
        a, c = nc[0][0][0], Fraction(nc[0][1])
        if a.key[0] != "fn" or a.key[1] != "sqrt":
            return None
        x = a.key[2][0]
        if not isinstance(x, Rat) or x.den != ONE or not x.num.isint():
            return None
        t = -Fraction(p.t.get((), 0)) / c
        x = s.ctx.norm(x.num)
        lo, hi = s.ctx.range(x)
        if t.denominator != 1 or lo < 0 or hi >= 1 << 50 or abs(t) >= 1 << 24:
            return None
        sg = 1 if c > 0 else -1
        if t < 0:
            return P(sg)
        return (x - int(t) * int(t)) * sg

    def goto(self, s, fr, b):
        fr.prev = fr.bb
        fr.bb = b
        fr.ix = 0
        # phis in parallel
        blk = fr.f["blocks"][b]
        new = {}
        i = 0
        while i < len(blk) and blk[i]["op"] == "phi":
            for pb, o in blk[i]["in"]:
                if pb == fr.prev:
                    new[blk[i]["id"]] = self.val(s, o)
                    break
            i += 1
        fr.env.update(new)
        fr.ix = i
        n = fr.visits.get(b, 0) + 1
        fr.visits[b] = n
        if n > self.max_visits - 8 and self.endless_loop(s, fr, b):
            raise Stop("nontermination", f"endless loop at {self.where(s)} in {fr.f['dem']}")
        if n > self.max_visits:
            raise Undecided(f"loop bound at {self.where(s)} in {fr.f['dem']}")
        if self.block_hook is not None:
            self.block_hook(self, s, fr, b)

    # ------------------------------------------------------------------ step
    steps = 0

    def step(self, s):
        self.steps += 1
        fr = s.frames[-1]
        ins = fr.f["blocks"][fr.bb][fr.ix]
        op = ins["op"]
        h = getattr(self, "op_" + op, None)
        if h is None:
            raise Undecided(f"instruction {op} at {self.where(s)}")
        r = h(s, fr, ins)
        if isinstance(r, Outcome):
            return r
        return None

    def setv(self, fr, ins, v):
        fr.env[ins["id"]] = v
        fr.ix += 1

    def op_alloca(self, s, fr, ins):
        n = self.val(s, ins["ops"][0])
        self.objn += 1
        b = ("alloca", self.objn, ins["size"] * (n.p.cval() if isinstance(n, IVal) and n.p.is_const() else 1))
        s.mem[b] = {}
        s.owned.add(b)
        self.setv(fr, ins, PVal(b, ZERO))

    def op_load(self, s, fr, ins):
        p = self.val(s, ins["ops"][0])
        if self.log_access and ins.get("atomic"):
            self.atomic = frozenset(("atomic",))
        try:
            self.setv(fr, ins, self.load(s, p, ins["t"]))
        finally:
            self.atomic = frozenset()

    def op_store(self, s, fr, ins):
        if self.log_access and ins.get("atomic"):
            self.atomic = frozenset(("atomic",))
            try:
                return self._op_store(s, fr, ins)
            finally:
                self.atomic = frozenset()
        return self._op_store(s, fr, ins)

    def _op_store(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        p = self.val(s, ins["ops"][1])
        if isinstance(v, BVal):
            v = self.b2i(s, v, 8)
            self.store(s, p, v, ["i", 8])
        elif isinstance(v, UVal):
            pass
        else:
            self.store(s, p, v, ins["vt"])
        fr.ix += 1

    def op_getelementptr(self, s, fr, ins):
        b = self.val(s, ins["b"])
        if ins.get("bad"):
            raise Undecided("gep")
        o = Poly.const(ins["o"])
        for idx, sc, w in ins["idx"]:
            v = self.ival(s, self.val(s, idx), w)
            # offsets matter modulo 2^64 only: no view needed for 64-bit indices
            if w == 64:
                o = o + v.p * sc
            else:
                o = o + sview(s.ctx, v.p, w) * sc
        if isinstance(b, IVal):
            b = self.int2ptr(s, b)
        if isinstance(b, UVal):
            self.setv(fr, ins, UNDEF)
            return
        self.setv(fr, ins, PVal(b.b, b.o + o))

    def _bin(self, s, fr, ins):
        a = self.val(s, ins["ops"][0])
        b = self.val(s, ins["ops"][1])
        w = ins["t"][1]
        return a, b, w

    def _arith(self, s, fr, ins, f):
        a, b, w = self._bin(s, fr, ins)
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        c = s.ctx
        if ins.get("nsw") and w > 1:
            x, y = sview(c, a.p, w), sview(c, b.p, w)
            r = f(x, y)
            lo, hi = c.range(r)
            h = 1 << (w - 1)
            if not (lo >= -h and hi < h):
                if self.overflow == "wrap":
                    self.setv(fr, ins, IVal(w, c.norm(f(a.p, b.p))))
                    return
                if self.overflow == "ub":
                    # signed overflow is undefined: partitions on which it happens end there
                    for q in (r + h, P(h - 1) - r):
                        d = c.decide(("ge", q))
                        if d is False:
                            raise Stop("ub", "signed overflow at " + self.where(s))
                        if d is None:
                            raise NeedSplit(("ge", q))
                else:
                    # the result is in range on every defined execution
                    try:
                        c.assume(("ge", r + h))
                        c.assume(("ge", P(h - 1) - r))
                    except Contradiction:
                        raise Stop("ub", "signed overflow at " + self.where(s))
                r = c.norm(r)
        elif ins.get("nuw"):
            x, y = uview(c, a.p, w), uview(c, b.p, w)
            r = f(x, y)
        else:
            r = f(a.p, b.p)
        self.setv(fr, ins, IVal(w, c.norm(r)))

    def op_add(self, s, fr, ins):
        if ins["t"][1] == 1:
            return self.op_xor(s, fr, ins)
        a, b = self.val(s, ins["ops"][0]), self.val(s, ins["ops"][1])
        self._arith(s, fr, ins, lambda x, y: x + y)

    def op_sub(self, s, fr, ins):
        if ins["t"][1] == 1:
            return self.op_xor(s, fr, ins)
        self._arith(s, fr, ins, lambda x, y: x - y)

    def op_mul(self, s, fr, ins):
        if ins["t"][1] == 1:
            return self.op_and(s, fr, ins)
        self._arith(s, fr, ins, lambda x, y: x * y)

    def op_udiv(self, s, fr, ins):
        self._div(s, fr, ins, False, False)

    def op_urem(self, s, fr, ins):
        self._div(s, fr, ins, False, True)

    def op_sdiv(self, s, fr, ins):
        self._div(s, fr, ins, True, False)

    def op_srem(self, s, fr, ins):
        self._div(s, fr, ins, True, True)

    def _div(self, s, fr, ins, signed, rem):
        a, b, w = self._bin(s, fr, ins)
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        c = s.ctx
        if signed:
            x, y = sview(c, a.p, w), sview(c, b.p, w)
            for z in (x, y):
                if not c.ge0(z) and not c.ge0(-z):
                    raise NeedSplit(("ge", z))
            sx = 1 if c.ge0(x) else -1
            sy = 1 if c.ge0(y) else -1
            x, y = x * sx, y * sy
        else:
            x, y = uview(c, a.p, w), uview(c, b.p, w)
            sx = sy = 1
        if c.decide(("eq", y)) is True:
            raise Stop("ub", "division by zero at " + self.where(s))
        q = udivs(c, x, y)
        if not y.is_const() and q.as_atom() is not None and q.as_atom().key[0] == "udiv":
            c.assume(("ge", y - 1))
            m = x - y * q
            if c.decide(("ge", m)) is None:
                c.assume(("ge", m))
            if c.decide(("ge", y - 1 - m)) is None:
                c.assume(("ge", y - 1 - m))
        if rem and self.split_mod and sx == 1 and y.is_const() and y.cval() <= self.split_mod:
            # case distinction over the remainders of a small constant divisor
            m = c.norm(x - y * q)
            last = None
            for k in range(int(y.cval())):
                d = c.decide(("eq", m - k))
                if d is True:
                    return self.setv(fr, ins, IVal(w, k))
                if d is None:
                    if last is not None:
                        raise NeedSplit(("eq", m - last))
                    last = k
            if last is not None:
                return self.setv(fr, ins, IVal(w, last))
        r = (x - y * q) * sx if rem else q * (sx * sy)
        self.setv(fr, ins, IVal(w, c.norm(r)))

    def op_shl(self, s, fr, ins):
        a, b, w = self._bin(s, fr, ins)
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        k = s.ctx.norm(b.p)
        if not k.is_const():
            u = uview(s.ctx, k, w)
            r = Poly.atom(Atom(("fn", f"shl{w}", (uview(s.ctx, a.p, w), u)), 0, (1 << w) - 1))
            self.setv(fr, ins, IVal(w, r))
            return
        self.setv(fr, ins, IVal(w, a.p * (1 << int(k.cval()))))

    def _shr(self, s, fr, ins, signed):
        a, b, w = self._bin(s, fr, ins)
        if isinstance(a, CVal) and not signed:
            k = s.ctx.norm(self.ival(s, b, w).p)
            if k.is_const() and k.cval() % 8 == 0:
                n = k.cval() // 8
                if all(o + q <= n or o >= n for o, q, _ in a.parts):
                    ps = [(o - n, q, x) for o, q, x in a.parts if o >= n]
                    self.setv(fr, ins, CVal(w, ps + [(w // 8 - n, n, IVal(8 * n, 0))]))
                    return
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        c = s.ctx
        k = c.norm(b.p)
        x = sview(c, a.p, w) if signed else uview(c, a.p, w)
        if not k.is_const():
            l, h = c.range(x)
            self.setv(fr, ins, IVal(w, Poly.atom(Atom(("fn", "ashr" if signed else "lshr", (x, uview(c, k, w))), min(l, 0), max(h, 0)))))
            return
        self.setv(fr, ins, IVal(w, shr(c, x, k.cval())))

    def op_lshr(self, s, fr, ins):
        self._shr(s, fr, ins, False)

    def op_ashr(self, s, fr, ins):
        self._shr(s, fr, ins, True)

    def _bit(self, s, fr, ins, name, f):
        a, b, w = self._bin(s, fr, ins)
        if w == 1:
            if isinstance(a, BVal) and isinstance(b, BVal):
                self.setv(fr, ins, BVal(lbin(name, a.l, b.l)))
                return
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        # a 0/1 operand of undecided sign view is fine; masks only need residues
        self.setv(fr, ins, IVal(w, f(s.ctx, s.ctx.norm(a.p), s.ctx.norm(b.p), w)))

    def op_and(self, s, fr, ins):
        self._bit(s, fr, ins, "and", and_)

    def op_or(self, s, fr, ins):
        self._bit(s, fr, ins, "or", or_)

    def op_xor(self, s, fr, ins):
        self._bit(s, fr, ins, "xor", xor)

    def op_icmp(self, s, fr, ins):
        a = self.val(s, ins["ops"][0])
        b = self.val(s, ins["ops"][1])
        pred = ins["pred"]
        if ins["ot"][0] == "p":
            self.setv(fr, ins, BVal(self.pcmp(s, pred, a, b)))
            return
        w = ins["ot"][1]
        if w == 1 and isinstance(a, BVal) and isinstance(b, BVal) and pred in ("eq", "ne"):
            l = lbin("xor", a.l, b.l)
            self.setv(fr, ins, BVal(lnot(l) if pred == "eq" else l))
            return
        a, b = self.ival(s, a, w), self.ival(s, b, w)
        self.setv(fr, ins, BVal(self.lit_i(s, pred, a, b)))

    def pcmp(self, s, pred, a, b):
        def lift(v):
            if isinstance(v, IVal):
                return self.int2ptr(s, v)
            if isinstance(v, UVal):
                raise Undecided("comparison of undefined pointer at " + self.where(s))
            return v
        a, b = lift(a), lift(b)
        if a.b == b.b:
            d = s.ctx.norm(a.o - b.o)
            n = 1 << 64
            d = Poly({m: ((c + n // 2) % n) - n // 2 for m, c in d.t.items() if c % n})
            import math
            g = 0
            if all(isinstance(c, int) for c in d.t.values()):
                for c in d.t.values():
                    g = math.gcd(g, c)
            if g > 1:
                d = Poly({m: c // g for m, c in d.t.items()})
            if pred == "eq":
                return ("eq", d) if d.t else TRUE
            if pred == "ne":
                return ("not", ("eq", d)) if d.t else FALSE
            op = pred[1:]
            return {"ge": ("ge", d), "lt": ("not", ("ge", d)), "le": ("ge", -d), "gt": ("not", ("ge", -d))}[op]
        if pred in ("eq", "ne"):
            eq = None
            conc = ("alloca", "heap", "g", "fn")
            if a.b is None and b.b is not None:
                a, b = b, a
            if b.b is None:
                if a.b[0] in conc:
                    eq = FALSE
                elif a.b[0] == "opq" and s.ctx.norm(a.o) == ZERO and not b.o.t:
                    if a.b[1] in s.tag.get("nonnull", ()):
                        eq = FALSE
                    else:
                        eq = FALSE if a.b[1].lo >= 1 and not s.tag.get("maybe_null", {}).get(a.b[1]) else ("eq", Poly.atom(a.b[1]))
                elif a.b[0] == "opq":
                    eq = FALSE
            elif a.b[0] in conc and b.b[0] in conc:
                eq = FALSE
            elif {a.b[0], b.b[0]} == {"opq"}:
                eq = ("eq", Poly.atom(a.b[1]) + a.o - Poly.atom(b.b[1]) - b.o)
            else:
                # an opaque pointer cannot equal the address of a local object that never escaped; assume no alias
                eq = FALSE
            if eq is not None:
                return eq if pred == "eq" else lnot(eq)
        x, y = self.ptr2int(s, a, 64), self.ptr2int(s, b, 64)
        return self.lit_i(s, pred, x, y)

    def op_fcmp(self, s, fr, ins):
        a = self.rat(s, self.val(s, ins["ops"][0]))
        b = self.rat(s, self.val(s, ins["ops"][1]))
        self.setv(fr, ins, BVal(self.lit_f(s, ins["pred"], a, b)))

    def _fbin(self, s, fr, ins, f):
        a = self.rat(s, self.val(s, ins["ops"][0]))
        b = self.rat(s, self.val(s, ins["ops"][1]))
        self.setv(fr, ins, FVal(f(a, b)))

    def op_fadd(self, s, fr, ins):
        self._fbin(s, fr, ins, lambda a, b: a + b)

    def op_fsub(self, s, fr, ins):
        self._fbin(s, fr, ins, lambda a, b: a - b)

    def op_fmul(self, s, fr, ins):
        def mul(a, b):
            x = a.norm(s.ctx)
            if x.den == ONE and len(x.num.t) == 1:
                (m, c), = x.num.t.items()
                if len(m) == 1 and m[0].key[:2] == ("fn", "sqrt") and isinstance(m[0].key[2][0], Rat):
                    y = b.norm(s.ctx)
                    if y.num == x.num and y.den == ONE:
                        return m[0].key[2][0] * Rat(Poly.const(c * c))
            return a * b
        self._fbin(s, fr, ins, mul)

    def op_fdiv(self, s, fr, ins):
        def d(a, b):
            if not s.ctx.norm(b.num).t:
                # an infinity with the sign of the dividend
                for sg in (1, -1):
                    if s.ctx.decide(("gt", (a.num * a.den) * sg)):
                        return Rat(Poly.atom(fresh("inf", Fraction(10) ** 300, INF, isint=False)) * sg)
                return Rat(Poly.atom(fresh("fdiv0", isint=False)))
            return a * b.inv()
        self._fbin(s, fr, ins, d)

    def op_fneg(self, s, fr, ins):
        self.setv(fr, ins, FVal(-self.rat(s, self.val(s, ins["ops"][0]))))

    def op_zext(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        w = ins["t"][1]
        if isinstance(v, BVal):
            self.setv(fr, ins, self.b2i(s, v, w))
            return
        v = self.ival(s, v, ins["ot"][1])
        self.setv(fr, ins, IVal(w, uview(s.ctx, v.p, v.w)))

    def op_sext(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        w = ins["t"][1]
        if isinstance(v, BVal):
            x = self.b2i(s, v, w)
            self.setv(fr, ins, IVal(w, -x.p))
            return
        v = self.ival(s, v, ins["ot"][1])
        self.setv(fr, ins, IVal(w, sview(s.ctx, v.p, v.w)))

    def op_trunc(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        if isinstance(v, CVal) and ins["t"][1] % 8 == 0:
            self.setv(fr, ins, self.cast(s, v, ins["t"]))
            return
        v = self.ival(s, self.val(s, ins["ops"][0]), ins["ot"][1])
        w = ins["t"][1]
        if w == 1:
            p = slc(s.ctx, s.ctx.norm(v.p), 0, 1)
            self.setv(fr, ins, BVal(("not", ("eq", p))))
            return
        self.setv(fr, ins, IVal(w, v.p))

    def op_bitcast(self, s, fr, ins):
        self.setv(fr, ins, self.cast(s, self.val(s, ins["ops"][0]), ins["t"]))

    def op_freeze(self, s, fr, ins):
        self.setv(fr, ins, self.val(s, ins["ops"][0]))

    def op_ptrtoint(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        if isinstance(v, UVal):
            v = PVal(("opq", fresh("undefptr", 1, 1 << 47)))
        self.setv(fr, ins, self.ptr2int(s, v, ins["t"][1]))

    def op_inttoptr(self, s, fr, ins):
        self.setv(fr, ins, self.int2ptr(s, self.val(s, ins["ops"][0])))

    def op_sitofp(self, s, fr, ins):
        v = self.ival(s, self.val(s, ins["ops"][0]), ins["ot"][1])
        p = sview(s.ctx, v.p, ins["ot"][1])
        self.setv(fr, ins, self._i2f(s, p, ins["t"][1]))

    def op_uitofp(self, s, fr, ins):
        v = self.ival(s, self.val(s, ins["ops"][0]), ins["ot"][1])
        p = uview(s.ctx, v.p, ins["ot"][1])
        self.setv(fr, ins, self._i2f(s, p, ins["t"][1]))

    def _i2f(self, s, p, bits):
        # exact while the magnitude fits the mantissa; otherwise rounding is modelled by an opaque (monotone) function
        lim = 1 << (53 if bits == 64 else (24 if bits == 32 else 64))
        lo, hi = s.ctx.range(p)
        if lo >= -lim and hi <= lim:
            return FVal(Rat(p))
        return FVal(Rat(Poly.atom(Atom(("fn", f"round{bits}", (p,)), lo, hi, False))))

    def op_fptosi(self, s, fr, ins):
        r = self.rat(s, self.val(s, ins["ops"][0])).norm(s.ctx)
        w = ins["t"][1]
        if r.den == ONE and r.num.isint():
            p = Poly({m: int(c) for m, c in r.num.t.items()})
            self.setv(fr, ins, IVal(w, p))
            return
        a = Atom(("fn", "ftrunc", (r,)), -(1 << (w - 1)), (1 << (w - 1)) - 1, True)
        self.setv(fr, ins, IVal(w, Poly.atom(a)))

    def op_fptoui(self, s, fr, ins):
        r = self.rat(s, self.val(s, ins["ops"][0])).norm(s.ctx)
        w = ins["t"][1]
        if r.den == ONE and r.num.isint():
            p = Poly({m: int(c) for m, c in r.num.t.items()})
            self.setv(fr, ins, IVal(w, p))
            return
        self.setv(fr, ins, IVal(w, Poly.atom(Atom(("fn", "ftrunc", (r,)), 0, (1 << w) - 1, True))))

    def op_fpext(self, s, fr, ins):
        self.setv(fr, ins, self.val(s, ins["ops"][0]))

    def op_fptrunc(self, s, fr, ins):
        r = self.rat(s, self.val(s, ins["ops"][0])).norm(s.ctx)
        c = r.const()
        if r.den == ONE and r.num.isint():
            lo, hi = s.ctx.range(r.num)
            if lo >= -(1 << 24) and hi <= 1 << 24:
                self.setv(fr, ins, FVal(r))
                return
        self.setv(fr, ins, FVal(Rat(Poly.atom(Atom(("fn", "fround32", (r,)), -INF, INF, False)))))

    def op_select(self, s, fr, ins):
        c = self.val(s, ins["ops"][0])
        t, f = ins["ops"][1], ins["ops"][2]
        if ins["t"] == ["i", 1]:
            a, b = self.val(s, t), self.val(s, f)
            if isinstance(a, BVal) and isinstance(b, BVal) and isinstance(c, BVal):
                # c ? a : b
                self.setv(fr, ins, BVal(lor(land(c.l, a.l), land(lnot(c.l), b.l))))
                return
        self.setv(fr, ins, self.val(s, t if self.truth(s, c) else f))

    def op_phi(self, s, fr, ins):
        raise Undecided("phi")

    def op_br(self, s, fr, ins):
        if "ops" not in ins:
            self.goto(s, fr, ins["succ"][0])
            return
        c = self.val(s, ins["ops"][0])
        self.goto(s, fr, ins["succ"][0 if self.truth(s, c) else 1])

    def op_switch(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        w = ins["ot"][1]
        v = self.ival(s, v, w)
        for cv, b in ins["cases"]:
            k = self.ival(s, self.constant(s, cv), w)
            l = self.lit_i(s, "eq", v, k)
            d = s.ctx.decide(l)
            if d is None:
                raise NeedSplit(l)
            if d:
                self.goto(s, fr, b)
                return
        self.goto(s, fr, ins["def"])

    def op_unreachable(self, s, fr, ins):
        return Outcome("unreachable", self.where(s), s)

    def op_extractvalue(self, s, fr, ins):
        v = self.val(s, ins["ops"][0])
        for i in ins["ix"]:
            if isinstance(v, UVal):
                break
            v = v.e[i]
        self.setv(fr, ins, v)

    def op_insertvalue(self, s, fr, ins):
        a = self.val(s, ins["ops"][0])
        v = self.val(s, ins["ops"][1])

        def put(x, ix, t):
            if not ix:
                return v
            if isinstance(x, UVal):
                n = len(t[2]) if t[0] == "s" else t[1]
                x = AVal([UNDEF] * n)
            e = list(x.e)
            e[ix[0]] = put(e[ix[0]], ix[1:], t[2][ix[0]][1] if t[0] == "s" else t[3])
            return AVal(e)
        self.setv(fr, ins, put(a, ins["ix"], ins["t"]))

    def op_ret(self, s, fr, ins):
        v = self.val(s, ins["ops"][0]) if ins["ops"] else None
        return self.do_return(s, v)

    def do_return(self, s, v):
        fr = s.frames.pop()
        if not s.frames:
            return Outcome("ret", v, s)
        up = s.frames[-1]
        if fr.rid is not None:
            up.env[fr.rid] = v
        if isinstance(fr.meta, tuple) and fr.meta[0] == "thread":
            s.tag["thr"] = fr.meta[1]
            if fr.meta[2]:
                return None
        if fr.nd is not None:
            self.goto(s, up, fr.nd)
        elif fr.meta != "init":
            up.ix += 1

    def do_throw(self, s, what):
        """unwind: run cleanups/handlers of the innermost invoke, else leave the function"""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.f["blocks"][fr.bb][fr.ix]
            if ins["op"] == "invoke":
                s.tag["exc"] = what
                self.goto(s, fr, ins["ud"])
                return None
            s.frames.pop()
        return Outcome("throw", what, s)

    EXC_BASES = {
        "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
        "std::domain_error": "std::logic_error", "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
        "std::overflow_error": "std::runtime_error", "std::range_error": "std::runtime_error",
        "std::underflow_error": "std::runtime_error", "std::bad_alloc": "std::exception",
        "std::bad_array_new_length": "std::bad_alloc", "std::bad_function_call": "std::exception",
        "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_cast": "std::exception",
        "std::system_error": "std::runtime_error",
    }

    def exc_bases(self, what):
        """a thrown class and its base classes (standard hierarchy, else the type information of the unit)"""
        out = [what]
        todo = [what]
        while todo:
            x = todo.pop()
            b = []
            if x in self.EXC_BASES:
                b = [self.EXC_BASES[x]]
            else:
                for g in self.m.gl.values():
                    if g["dem"] == "typeinfo for " + x and isinstance(g.get("init"), dict):
                        for e in g["init"].get("el", []):
                            while e.get("k") == "ge":
                                e = e["b"]
                            d = self.m.gl.get(e.get("v"), {}).get("dem", "") if e.get("k") == "g" else ""
                            if d.startswith("typeinfo for "):
                                b.append(d[13:])
            for y in b:
                if y not in out:
                    out.append(y)
                    todo.append(y)
        return out

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 2)

    def op_landingpad(self, s, fr, ins):
        what, obj = s.tag.get("exc"), s.tag.get("excobj")
        if obj is None:
            obj = PVal(("opq", fresh("exc", 1, 1 << 47)))
        sel = None
        up = self.exc_bases(what)
        for kind, cl in ins.get("clauses", []):
            v = self.constant(s, cl)
            if kind != "catch":
                raise Undecided("exception filter at " + self.where(s))
            if isinstance(v, PVal) and v.b is None:
                sel = 1
            elif isinstance(v, PVal) and v.b[0] == "g":
                d = self.m.gl[v.b[1]]["dem"].replace("typeinfo for ", "")
                if d in up:
                    sel = self.typeid(d)
            if sel is not None:
                break
        if sel is None:
            if not ins.get("cleanup"):
                # no handler here: keep unwinding
                s.frames.pop()
                return self.do_throw(s, what)
            sel = 0
        self.setv(fr, ins, AVal([obj, IVal(32, sel)]))

    def op_resume(self, s, fr, ins):
        s.frames.pop()
        if not s.frames:
            return Outcome("throw", s.tag.get("exc"), s)
        # the caller's call instruction threw
        return self.do_throw(s, s.tag.get("exc"))

    def op_atomicrmw(self, s, fr, ins):
        self.atomic = frozenset(("atomic",))
        try:
            self._op_atomicrmw(s, fr, ins)
        finally:
            self.atomic = frozenset()

    def _op_atomicrmw(self, s, fr, ins):
        p, b = self.val(s, ins["ops"][0]), self.val(s, ins["ops"][1])
        old = self.load(s, p, ins["t"])
        if ins["rmw"] == "xchg":
            new = b
        elif ins["rmw"] in ("add", "sub") and ins["t"][0] == "i":
            w = ins["t"][1]
            x, y = self.ival(s, old, w).p, self.ival(s, b, w).p
            new = IVal(w, s.ctx.norm(x + y if ins["rmw"] == "add" else x - y))
        else:
            raise Undecided("atomicrmw " + ins["rmw"])
        self.store(s, p, new, ins["t"])
        self.setv(fr, ins, old)

    def op_fence(self, s, fr, ins):
        fr.ix += 1

    # ------------------------------------------------------------------ calls
    def op_call(self, s, fr, ins):
        return self.call(s, fr, ins)

    def op_invoke(self, s, fr, ins):
        return self.call(s, fr, ins)

    def finish(self, s, fr, ins, v):
        if v is not None and ins["t"][0] != "v":
            fr.env[ins["id"]] = v
        if ins["op"] == "invoke":
            self.goto(s, fr, ins["nd"])
        else:
            fr.ix += 1

    def call(self, s, fr, ins):
        c = ins["callee"]
        if c["k"] == "g":
            name = c["v"]
        elif c["k"] == "asm":
            raise Undecided("inline asm")
        else:
            p = self.val(s, c)
            if isinstance(p, PVal) and p.b is not None and p.b[0] == "fn":
                name = p.b[1]
            elif isinstance(p, PVal) and p.b is not None and p.b[0] == "opq":
                args = [self.val(s, o) for o in ins["ops"]]
                return self.extern(s, fr, ins, "indirect:" + str(p.b[1]), {"dem": "indirect", "mem": "rw"}, args)
            else:
                raise Undecided(f"indirect call at {self.where(s)}")
        f = self.m.fn.get(name)
        args = [self.val(s, o) for o in ins["ops"]]
        if name.startswith("llvm."):
            return self.intrinsic(s, fr, ins, name, args)
        if f is None:
            raise Undecided(f"call of unknown function {name} at {self.where(s)}")
        dem = f["dem"]
        h = self._modelcache.get(name)
        if h is None:
            h = False
            for r, hh in self.models:
                if r.search(dem):
                    h = hh
                    break
            if h is False:
                h = BUILTIN.get(name, False)
            self._modelcache[name] = h
        if h:
            r = h(self, s, fr, ins, name, args)
            if r is not NotImplemented:
                return r
        if f["blocks"]:
            # byval arguments are copied
            for i, bv in enumerate(ins["byv"]):
                if bv >= 0:
                    d = self.new_obj(s, bv, "alloca")
                    self.memcpy(s, d, args[i], bv)
                    args[i] = d
            self.push(s, name, args, rid=ins["id"], nd=ins.get("nd"), ud=ins.get("ud"))
            return None
        return self.extern(s, fr, ins, name, f, args)

    def extern(self, s, fr, ins, name, f, args):
        """declared-only function: an uninterpreted function if it does not access memory, otherwise an event"""
        base = name
        self.opaque.add(f["dem"])
        if f.get("mem") == "none":
            key = tuple(self.argkey(s, a, t) for a, t in zip(args, ins["tys"]))
            v = self.apply_fn(s, base, key, ins["t"])
        else:
            v = self.fresh_of(ins["t"], "ret:" + base)
            self.emit(s, "call", base, f["dem"], tuple(args), v, self.where(s))
        self.finish(s, fr, ins, v)

    def argkey(self, s, a, t):
        if isinstance(a, IVal):
            return uview(s.ctx, a.p, a.w)
        if isinstance(a, BVal):
            return self.b2i(s, a, 8).p
        if isinstance(a, FVal):
            return a.r.norm(s.ctx)
        if isinstance(a, PVal):
            return (a.b, a.o)
        raise Undecided("argument of uninterpreted function")

    def apply_fn(self, s, name, key, t):
        if t[0] == "i":
            if t[1] == 1:
                a = Atom(("fn", name, key), 0, 1)
                return BVal(("not", ("eq", Poly.atom(a))))
            return IVal(t[1], Poly.atom(Atom(("fn", name, key), 0, (1 << t[1]) - 1)))
        if t[0] == "f":
            return FVal(Rat(Poly.atom(Atom(("fn", name, key), -INF, INF, False))))
        if t[0] == "p":
            return PVal(("opq", Atom(("fn", name, key), 1, 1 << 47)))
        raise Undecided("uninterpreted result " + str(t))

    def ffn(self, s, name, args, lo=-INF, hi=INF):
        return FVal(Rat(Poly.atom(Atom(("fn", name, tuple(args)), lo, hi, False))))

    def fabs(self, s, r):
        r = r.norm(s.ctx)
        c = r.const()
        if c is not None:
            return FVal(rconst(abs(c)))
        p = cmp_poly(r, rconst(0))
        if s.ctx.ge0(p):
            return FVal(r)
        if s.ctx.ge0(-p):
            return FVal(-r)
        # canonical sign
        lead = r.num.t[min(r.num.t, key=lambda m: [a.id for a in m])]
        if lead < 0:
            r = -r
        return self.ffn(s, "fabs", (r,), 0)

    def intrinsic(self, s, fr, ins, name, args):
        n = name.split(".")
        k = n[1]
        if k in ("lifetime", "dbg", "invariant", "stackrestore", "donothing", "experimental", "prefetch", "va_start",
                 "va_end", "sideeffect"):
            fr.ix += 1
            return
        if k == "assume":
            t = self.truth(s, args[0])
            if not t:
                raise Contradiction()
            fr.ix += 1
            return
        if k == "stacksave":
            return self.finish(s, fr, ins, NULL)
        if k == "is" and n[2] == "fpclass":  # llvm.is.fpclass: every number is finite here
            mask = int(s.ctx.norm(args[1].p).cval())
            if mask & 0x1f8 in (0, 0x1f8):
                return self.finish(s, fr, ins, BVal(TRUE if mask & 0x1f8 else FALSE))
            raise Undecided("floating-point class")
        if k == "threadlocal":
            t = s.tag.get("thr", 0)
            p = args[0]
            if t and isinstance(p, PVal) and p.b is not None and p.b[0] == "g":
                p = PVal(("g", p.b[1], t), p.o)
            return self.finish(s, fr, ins, p)
        if k in ("memcpy", "memmove"):
            ln = s.ctx.norm(args[2].p)
            if not ln.is_const():
                lo, hi = s.ctx.range(ln)
                if lo == hi:
                    ln = Poly.const(lo)
                else:
                    raise Undecided(f"memcpy of symbolic length {ln} at {self.where(s)}")
            self.memcpy(s, args[0], args[1], ln.cval())
            fr.ix += 1
            return
        if k == "memset":
            ln = s.ctx.norm(args[2].p)
            if not ln.is_const():
                raise Undecided("memset of symbolic length at " + self.where(s))
            v = s.ctx.norm(args[1].p)
            ln = ln.cval()
            if v.is_const():
                q = 0
                b = v.cval() & 0xff
                while q < ln:
                    st = 8 if ln - q >= 8 else (4 if ln - q >= 4 else 1)
                    self.store(s, PVal(args[0].b, args[0].o + q), IVal(8 * st, int.from_bytes(bytes([b] * st), "little")),
                               ["i", 8 * st])
                    q += st
                fr.ix += 1
                return
            raise Undecided("memset of symbolic value")
        if k in ("umax", "umin", "smax", "smin"):
            a, b = args
            w = ins["t"][1]
            a, b = self.ival(s, a, w), self.ival(s, b, w)
            l = self.lit_i(s, k[0] + "ge", a, b)
            t = self.truth(s, BVal(l))
            return self.finish(s, fr, ins, a if (t == (k[1:] == "max")) else b)
        if k == "abs":
            v = self.ival(s, args[0], ins["t"][1])
            x = sview(s.ctx, v.p, v.w)
            t = self.truth(s, BVal(("ge", x)))
            return self.finish(s, fr, ins, IVal(v.w, x if t else -x))
        if k == "fabs":
            return self.finish(s, fr, ins, self.fabs(s, self.rat(s, args[0])))
        if k == "fmuladd" or k == "fma":
            a, b, c = (self.rat(s, x) for x in args)
            return self.finish(s, fr, ins, FVal(a * b + c))
        if k in ("sqrt", "exp", "log", "floor", "ceil", "round", "trunc", "exp2", "log2", "log10", "sin", "cos", "rint",
                 "nearbyint", "roundeven"):
            return self.libm(s, fr, ins, k, args)
        if k in ("pow", "powi", "copysign"):
            return self.libm(s, fr, ins, k, args)
        if k in ("maxnum", "minnum", "maximum", "minimum"):
            a, b = self.rat(s, args[0]), self.rat(s, args[1])
            l = self.lit_f(s, "oge", a, b)
            t = self.truth(s, BVal(l))
            return self.finish(s, fr, ins, args[0] if (t == k.startswith("max")) else args[1])
        if k in ("expect", "launder", "strip", "ssa", "annotation", "ptr"):
            return self.finish(s, fr, ins, args[0])
        if k == "is" and n[2] == "constant":
            return self.finish(s, fr, ins, BVal(FALSE))
        if k == "objectsize":
            return self.finish(s, fr, ins, IVal(64, -1))
        if k in ("sadd", "uadd", "ssub", "usub", "smul", "umul") and n[2] == "with":
            w = ins["t"][2][0][1][1]
            a, b = self.ival(s, args[0], w), self.ival(s, args[1], w)
            v = sview if k[0] == "s" else uview
            x, y = v(s.ctx, a.p, w), v(s.ctx, b.p, w)
            r = {"add": x + y, "sub": x - y, "mul": x * y}[k[1:]]
            if k[0] == "s":
                l = lor(lnot(("ge", r + (1 << (w - 1)))), lnot(("ge", P((1 << (w - 1)) - 1) - r)))
            else:
                l = lor(lnot(("ge", r)), lnot(("ge", P((1 << w) - 1) - r)))
            return self.finish(s, fr, ins, AVal([IVal(w, r), BVal(l)]))
        if k == "fshl" or k == "fshr":
            w = ins["t"][1]
            kk = s.ctx.norm(self.ival(s, args[2]).p)
            if kk.is_const():
                sh = kk.cval() % w
                if k == "fshr":
                    sh = (w - sh) % w
                x, y = uview(s.ctx, args[0].p, w), uview(s.ctx, args[1].p, w)
                r = x if sh == 0 else x * (1 << sh) + shr(s.ctx, y, w - sh)
                return self.finish(s, fr, ins, IVal(w, r))
        if k in ("ctpop", "ctlz", "cttz", "bswap", "bitreverse"):
            w = ins["t"][1]
            key = (s.ctx.norm(uview(s.ctx, self.ival(s, args[0]).p, w)),)
            if key[0].is_const():
                x = key[0].cval() % (1 << w)
                r = {"ctpop": bin(x).count("1"), "ctlz": w - x.bit_length(), "cttz": (x & -x).bit_length() - 1 if x else w,
                     "bswap": int.from_bytes(x.to_bytes(w // 8, "little"), "big") if w % 8 == 0 else 0,
                     "bitreverse": int(bin(x)[2:].zfill(w)[::-1], 2)}[k]
                return self.finish(s, fr, ins, IVal(w, r))
            return self.finish(s, fr, ins, self.apply_fn(s, k, key, ins["t"]))
        if k == "eh" and n[2] == "typeid":
            v = args[0]
            if isinstance(v, PVal) and v.b and v.b[0] == "g":
                return self.finish(s, fr, ins, IVal(32, self.typeid(self.m.gl[v.b[1]]["dem"].replace("typeinfo for ", ""))))
            return self.finish(s, fr, ins, IVal(32, 1))
        if k == "trap" or k == "ubsantrap":
            raise Stop("abort", "trap at " + self.where(s))
        raise Undecided("intrinsic " + name)

    def libm(self, s, fr, ins, k, args):
        rs = [self.rat(s, a).norm(s.ctx) if isinstance(a, FVal) else a for a in args]
        rs = [r if isinstance(r, Rat) else Rat(sview(s.ctx, r.p, r.w)) for r in rs]
        cs = [r.const() for r in rs]
        if all(c is not None for c in cs):
            import math
            try:
                v = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "floor": math.floor, "ceil": math.ceil,
                     "trunc": math.trunc, "pow": math.pow, "powi": math.pow, "exp2": lambda x: 2.0**x,
                     "log10": math.log10, "log2": math.log2, "sin": math.sin, "cos": math.cos,
                     "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1),
                     "copysign": math.copysign}[k](*[float(c) for c in cs])
                return self.finish(s, fr, ins, FVal(rconst(v)))
            except (ValueError, OverflowError, KeyError):
                pass
        if k in ("floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven") and rs[0].den == ONE and rs[0].num.isint():
            return self.finish(s, fr, ins, FVal(rs[0]))
        if k == "pow" and cs[1] == 1:
            return self.finish(s, fr, ins, FVal(rs[0]))
        if k == "pow" and cs[1] == 2:
            return self.finish(s, fr, ins, FVal(rs[0] * rs[0]))
        lo = -INF
        if k in ("sqrt", "exp", "exp2"):
            lo = 0
        if k == "pow" and cs[0] is not None and cs[0] > 0:
            lo = 0
        v = self.ffn(s, k, rs, lo)
        if lo == 0 and k in ("exp", "exp2", "pow"):
            try:
                s.ctx.assume(("gt", v.r.num))
            except Contradiction:
                pass
        return self.finish(s, fr, ins, v)


def lnot(l):
    if l[0] == "not":
        return l[1]
    if l[0] == "true":
        return FALSE
    if l[0] == "false":
        return TRUE
    return ("not", l)


def land(a, b):
    if a[0] == "false" or b[0] == "false":
        return FALSE
    if a[0] == "true":
        return b
    if b[0] == "true":
        return a
    return ("and", a, b)


def lor(a, b):
    if a[0] == "true" or b[0] == "true":
        return TRUE
    if a[0] == "false":
        return b
    if b[0] == "false":
        return a
    return ("or", a, b)


def lbin(n, a, b):
    if n == "and":
        return land(a, b)
    if n == "or":
        return lor(a, b)
    if a[0] in ("true", "false"):
        a, b = b, a
    if b[0] == "true":
        return lnot(a)
    if b[0] == "false":
        return a
    return ("xor", a, b)


# ---------------------------------------------------------------------- built-in models of the runtime
def m_new(m, s, fr, ins, name, args):
    n = s.ctx.norm(args[0].p)
    m.finish(s, fr, ins, m.new_obj(s, int(n.cval()) if n.is_const() else None))


def m_delete(m, s, fr, ins, name, args):
    p = args[0]
    if isinstance(p, PVal) and p.b is not None and p.b[0] == "heap":
        if p.b in s.tag.get("freed", ()):
            raise Stop("ub", "double free at " + m.where(s))
        o = s.ctx.norm(p.o)
        if o.is_const() and o.cval() == 0:
            s.tag["freed"] = s.tag.get("freed", frozenset()) | {p.b}
    m.finish(s, fr, ins, None)


def m_nop(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, m.fresh_of(ins["t"], "r:" + name) if ins["t"][0] != "v" else None)


def m_abort(m, s, fr, ins, name, args):
    raise Stop("abort", name + " at " + m.where(s))


def m_throw(m, s, fr, ins, name, args):
    ti = args[1]
    nm = m.m.gl.get(ti.b[1], {}).get("dem", str(ti.b)) if isinstance(ti, PVal) and ti.b else "?"
    s.tag["excobj"] = args[0]
    return m.do_throw(s, nm.replace("typeinfo for ", ""))


STDTHROW = {"length_error": "std::length_error", "bad_alloc": "std::bad_alloc", "bad_array_new_length": "std::bad_array_new_length",
            "out_of_range": "std::out_of_range", "logic_error": "std::logic_error", "bad_function_call": "std::bad_function_call",
            "runtime_error": "std::runtime_error", "domain_error": "std::domain_error", "overflow_error": "std::overflow_error",
            "range_error": "std::range_error",
            "bad_optional_access": "std::bad_optional_access", "invalid_argument": "std::invalid_argument"}


def m_stdthrow(m, s, fr, ins, name, args):
    d = m.m.fn[name]["dem"]
    s.tag["excobj"] = None
    for k, v in STDTHROW.items():
        if "__throw_" + k in d:
            return m.do_throw(s, v)
    return m.do_throw(s, d)


def m_rethrow(m, s, fr, ins, name, args):
    return m.do_throw(s, s.tag.get("exc"))


def m_guard(m, s, fr, ins, name, args):
    """entry of a function-local static initialisation: runs once, other threads wait for it"""
    b = args[0].b
    if b in s.tag.get("inited", ()):
        return m.finish(s, fr, ins, IVal(32, 0))
    s.tag["guard"] = s.tag.get("guard", 0) + 1
    m.finish(s, fr, ins, IVal(32, 1))


def m_guard_release(m, s, fr, ins, name, args):
    b = args[0].b
    s.tag["inited"] = s.tag.get("inited", frozenset()) | {b}
    s.tag["guard"] = s.tag.get("guard", 1) - 1
    s.mem[b] = {0: (1, IVal(8, 1)), 1: (7, IVal(56, 0))}
    s.owned.discard(b)
    m.finish(s, fr, ins, None)


def m_guard_abort(m, s, fr, ins, name, args):
    s.tag["guard"] = s.tag.get("guard", 1) - 1
    m.finish(s, fr, ins, None)


def m_allocexc(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, m.new_obj(s, None))


def _libm(k):
    def h(m, s, fr, ins, name, args):
        return m.libm(s, fr, ins, k, args)
    return h


def m_hypot(m, s, fr, ins, name, args):
    """the root of the sum of squares, neither overflowing nor rounding in between"""
    a, b = m.rat(s, args[0]), m.rat(s, args[1])
    m.libm(s, fr, ins, "sqrt", [FVal(a * a + b * b)])


def m_fabs(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, m.fabs(s, m.rat(s, args[0])))


def m_begincatch(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, args[0])


def m_memcmp(m, s, fr, ins, name, args):
    n = s.ctx.norm(args[2].p)
    if n.is_const() and n.cval() == 0:
        return m.finish(s, fr, ins, IVal(32, 0))
    if n.is_const() and n.cval() <= 256 and isinstance(args[0], PVal) and isinstance(args[1], PVal):
        n = n.cval()
        eq = TRUE
        i = 0
        a, b = args[0], args[1]
        # known bytes: the actual order
        for j in range(n):
            x = m.load(s, PVal(a.b, a.o + j), ["i", 8])
            y = m.load(s, PVal(b.b, b.o + j), ["i", 8])
            x = uview(s.ctx, x.p, 8) if isinstance(x, IVal) else None
            y = uview(s.ctx, y.p, 8) if isinstance(y, IVal) else None
            if x is None or y is None:
                break
            if x.is_const() and y.is_const():
                if x.cval() != y.cval():
                    return m.finish(s, fr, ins, IVal(32, 1 if x.cval() > y.cval() else (1 << 32) - 1))
            elif x != y:
                break
        else:
            return m.finish(s, fr, ins, IVal(32, 0))
        while i < n:
            oa = m.norm_off(s, a.o + i)
            k = 1
            c = m.cells(s, a.b).get(oa)
            if c is not None and c[0] in (1, 2, 4, 8) and c[0] <= n - i:
                k = c[0]
            else:
                ob = m.norm_off(s, b.o + i)
                c = m.cells(s, b.b).get(ob)
                if c is not None and c[0] in (1, 2, 4, 8) and c[0] <= n - i:
                    k = c[0]
            x = m.ival(s, m.load(s, PVal(a.b, a.o + i), ["i", 8 * k]), 8 * k)
            y = m.ival(s, m.load(s, PVal(b.b, b.o + i), ["i", 8 * k]), 8 * k)
            eq = land(eq, m.lit_i(s, "eq", x, y))
            i += k
        if m.truth(s, BVal(eq)):
            return m.finish(s, fr, ins, IVal(32, 0))
        return m.finish(s, fr, ins, IVal(32, Poly.atom(fresh("memcmp", 1, 255))))
    raise Undecided("memcmp at " + m.where(s))


def m_hashbytes(m, s, fr, ins, name, args):
    n = s.ctx.norm(args[1].p)
    if not n.is_const():
        raise Undecided("hash of symbolic length at " + m.where(s))
    n = n.cval()
    p = args[0]
    key = [n, uview(s.ctx, args[2].p, 64)]
    i = 0
    while i < n:
        c = m.cells(s, p.b).get(m.norm_off(s, p.o + i))
        if c is not None and c[0] <= n - i:
            v = c[1]
            key.append(m.argkey(s, v, None))
            i += c[0]
        else:
            key.append(uview(s.ctx, m.load(s, PVal(p.b, p.o + i), ["i", 8]).p, 8))
            i += 1
    m.finish(s, fr, ins, m.apply_fn(s, "hash_bytes", tuple(key), ins["t"]))


def m_strlen(m, s, fr, ins, name, args):
    p = args[0]
    n = 0
    while True:
        v = m.load(s, PVal(p.b, p.o + n), ["i", 8])
        q = s.ctx.norm(v.p)
        if not q.is_const():
            raise Undecided("strlen of symbolic string at " + m.where(s))
        if q.cval() % 256 == 0:
            break
        n += 1
    m.finish(s, fr, ins, IVal(64, n))


def m_case(lo, hi, d):
    """toupper / tolower in the "C" locale"""
    def f(m, s, fr, ins, name, args):
        c = s.ctx
        x = sview(c, m.ival(s, args[0], 32).p, 32)
        q = x.single()
        if q and q[0].isint and c.arange(q[0]) == (0, 1):
            # two characters, distinguished by one bit
            r = [v + d if lo <= v <= hi else v for v in (q[2], q[2] + q[1])]
            return m.finish(s, fr, ins, IVal(32, P(r[0]) + Poly.atom(q[0]) * (r[1] - r[0])))
        for lit in (("ge", x - lo), ("ge", P(hi) - x)):
            t = c.decide(lit)
            if t is None:
                raise NeedSplit(lit)
            if not t:
                return m.finish(s, fr, ins, IVal(32, x))
        m.finish(s, fr, ins, IVal(32, x + d))
    return f


BUILTIN = {
    "toupper": m_case(97, 122, -32), "tolower": m_case(65, 90, 32),
    "_Znwm": m_new, "_Znam": m_new, "_ZdlPv": m_delete, "_ZdlPvm": m_delete, "_ZdaPv": m_delete, "_ZdaPvm": m_delete,
    "_ZdlPvmSt11align_val_t": m_delete, "_ZnwmSt11align_val_t": m_new,
    "__assert_fail": m_abort, "abort": m_abort, "_ZSt9terminatev": m_abort, "__clang_call_terminate": m_abort,
    "_ZSt20__throw_length_errorPKc": m_stdthrow, "_ZSt17__throw_bad_allocv": m_stdthrow,
    "_ZSt28__throw_bad_array_new_lengthv": m_stdthrow, "_ZSt24__throw_out_of_range_fmtPKcz": m_stdthrow,
    "_ZSt20__throw_out_of_rangePKc": m_stdthrow, "_ZSt24__throw_invalid_argumentPKc": m_stdthrow,
    "_ZSt21__throw_runtime_errorPKc": m_stdthrow, "_ZSt20__throw_domain_errorPKc": m_stdthrow,
    "_ZSt22__throw_overflow_errorPKc": m_stdthrow, "_ZSt19__throw_range_errorPKc": m_stdthrow,
    "_ZSt19__throw_logic_errorPKc": m_stdthrow, "_ZSt25__throw_bad_function_callv": m_stdthrow,
    "_ZSt27__throw_bad_optional_accessv": m_stdthrow, "__cxa_rethrow": m_rethrow,
    "__cxa_throw": m_throw, "__cxa_allocate_exception": m_allocexc, "__cxa_free_exception": m_nop,
    "__cxa_begin_catch": m_begincatch, "__cxa_end_catch": m_nop, "__cxa_atexit": m_nop,
    "__cxa_thread_atexit": m_nop,
    "__cxa_guard_acquire": m_guard, "__cxa_guard_release": m_guard_release, "__cxa_guard_abort": m_guard_abort,
    "exp": _libm("exp"), "pow": _libm("pow"), "sqrt": _libm("sqrt"), "log": _libm("log"), "floor": _libm("floor"),
    "ceil": _libm("ceil"), "round": _libm("round"), "trunc": _libm("trunc"), "fabs": m_fabs, "hypot": m_hypot, "memcmp": m_memcmp,
    "strlen": m_strlen, "_ZSt11_Hash_bytesPKvmm": m_hashbytes,
}


# ---------------------------------------------------------------------- boolean obligations
class Verdict:
    def __init__(self, kind, detail="", trace=None, model=None):
        self.kind = kind  # proved | refuted | undecided | vacuous
        self.detail = detail
        self.trace = trace or []
        self.model = model
        self.partitions = 0

    def __repr__(self):
        return f"{self.kind} {self.detail}"


def mk_args(m, fname, names=None, ranges=None):
    f = m.m.fn[fname]
    args = []
    ats = []
    for i, a in enumerate(f["args"]):
        t = a[0]
        nm = names[i] if names else f"a{i}"
        if t[0] == "i":
            lo, hi = 0, (1 << t[1]) - 1
            if ranges and i in ranges:
                lo, hi = ranges[i]
            at = Atom(("var", nm, fname, i, lo, hi), lo, hi)
            ats.append(at)
            if t[1] == 1:
                args.append(BVal(("not", ("eq", Poly.atom(at)))))
            else:
                args.append(IVal(t[1], Poly.const(lo) if lo == hi else Poly.atom(at)))
        elif t[0] == "f":
            lo, hi = (-INF, INF)
            if ranges and i in ranges:
                lo, hi = ranges[i]
            at = Atom(("var", nm, fname, i, lo, hi), lo, hi, False)
            ats.append(at)
            args.append(FVal(Rat(Poly.const(Fraction(lo)) if lo == hi else Poly.atom(at))))
        elif t[0] == "p":
            at = Atom(("var", nm, fname, i), 1, 1 << 47)
            ats.append(at)
            args.append(PVal(("opq", at)))
        else:
            raise Undecided("argument type " + str(t))
    return args, ats


def prove_true(m, fname, names=None, ranges=None, init=False, allow_abort=False):
    """every partition of the boolean function fname returns true"""
    st = m.new_state()
    try:
        args, ats = mk_args(m, fname, names, ranges)
        m.push(st, fname, args)
        if init:
            # dynamic initialisation of namespace-scope variables runs first
            for g in m.m.fn:
                if g.startswith("_GLOBAL__sub_I_") and m.m.fn[g]["blocks"]:
                    m.push(st, g, [], meta="init")
            # so do the initialisers of inline variables, which stand on their own
            text = "".join(str(f["blocks"]) for g, f in m.m.fn.items() if g.startswith("_GLOBAL__sub_I_"))
            for g in sorted((g for g in m.m.fn if g.startswith("__cxx_global_var_init") and m.m.fn[g]["blocks"]), key=lambda g: -int((g + ".0").split(".")[1])):
                if f"'{g}'" not in text:
                    m.push(st, g, [], meta="init")
        n = 0
        for o in m.run(st):
            if allow_abort and o.kind in ("abort", "unreachable"):
                continue
            if o.kind != "ret" and o.st.ctx.infeasible():
                continue
            if o.kind == "ub":
                mod = find_model(o.st.ctx, ats)
                return Verdict("refuted" if mod is not None else "undecided", "undefined behaviour: " + str(o.val),
                               m.pathlist(o.st), mod)
            if o.kind != "ret":
                mod = find_model(o.st.ctx, ats)
                return Verdict("refuted" if mod is not None else "undecided", f"leaves with {o.kind} {o.val}",
                               m.pathlist(o.st), mod)
            n += 1
            v = o.val
            lit = v.l if isinstance(v, BVal) else ("not", ("eq", slc(o.st.ctx, v.p, 0, 1)))
            d = o.st.ctx.decide(lit)
            if d is True or o.st.ctx.infeasible():
                continue
            mod = find_model(o.st.ctx, ats, lit)
            if mod is not None:
                return Verdict("refuted", f"obligation evaluates to false where {show_lit(lit)} does not hold" if d is None
                               else "obligation evaluates to false", m.pathlist(o.st), mod)
            # split further on the open literal; an empty partition is no counterexample
            if try_close(o.st.ctx, lit):
                continue
            return Verdict("undecided", f"open: {show_lit(lit)} under " +
                           "; ".join(show_lit(l, v) for l, v in o.st.ctx.lits), m.pathlist(o.st))
        v = Verdict("proved" if n else "vacuous")
        v.partitions = n
        return v
    except Undecided as e:
        return Verdict("undecided", str(e))


def try_close(ctx, lit, depth=6):
    """split open elementary literals of a compound result"""
    d = ctx.decide(lit)
    if d is True:
        return True
    if d is False or depth == 0:
        return ctx.infeasible()
    l = ctx.first_open(lit)
    if l is lit and l[0] in ("ge", "gt", "eq"):
        # an elementary open literal: closed iff its negation is contradictory
        c = ctx.copy()
        try:
            c.assume(l, False)
        except Contradiction:
            return True
        return c.infeasible()
    for v in (True, False):
        c = ctx.copy()
        try:
            c.assume(l, v)
        except Contradiction:
            continue
        if not try_close(c, lit, depth - 1):
            return False
    return True


# ---------------------------------------------------------------------- concretisation of a refuting partition
class NoEval(Exception):
    pass


def ev_atom(a, env):
    if a in env:
        return env[a]
    k = a.key
    if k[0] == "var":
        raise NoEval(a)
    if k[0] == "hi":
        return int(ev_atom(k[1], env)) >> k[2]
    if k[0] == "fdiv":
        return int(ev_poly(k[1], env)) // k[2]
    if k[0] == "mod":
        return int(ev_poly(k[1], env)) % (1 << k[2])
    if k[0] == "udiv":
        d = ev_poly(k[2], env)
        if d == 0:
            raise NoEval(a)
        return int(ev_poly(k[1], env)) // int(d)
    if k[0] == "xor":
        r = 0
        for x in k[1]:
            r ^= int(ev_poly(x, env)) % (1 << k[2])
        return r
    if k[0] == "and":
        r = -1
        for x in k[1]:
            r &= int(ev_poly(x, env)) % (1 << k[2])
        return r
    if k[0] == "fn":
        vals = tuple(ev_poly(x, env) if isinstance(x, Poly) else (ev_rat(x, env) if isinstance(x, Rat) else x) for x in k[2])
        import math
        try:
            if k[1] == "fabs":
                return abs(vals[0])
            if k[1] == "ftrunc":
                return math.trunc(vals[0])
            if k[1] == "sqrt":
                return Fraction(math.sqrt(vals[0]))
            if k[1] == "exp":
                return Fraction(math.exp(vals[0]))
            if k[1] == "pow":
                return Fraction(float(vals[0]) ** float(vals[1]))
            if k[1] in ("floor", "ceil"):
                return Fraction(getattr(math, k[1])(vals[0]))
            if k[1] == "round":
                return Fraction(math.floor(abs(vals[0]) + Fraction(1, 2)) * (1 if vals[0] >= 0 else -1))
            if k[1] in ("round64",):
                return Fraction(float(vals[0]))
            if k[1] == "fround32":
                import struct
                return Fraction(struct.unpack("f", struct.pack("f", float(vals[0])))[0])
            if k[1].startswith("shl"):
                w = int(k[1][3:])
                return (vals[0] << vals[1]) % (1 << w)
            if k[1] in ("lshr", "ashr"):
                return vals[0] >> vals[1]
        except (ValueError, OverflowError, TypeError):
            raise NoEval(a)
        # any function will do, as long as it is a function
        kk = (a.key[1], vals)
        t = env.setdefault("__fn", {})
        if kk not in t:
            rnd = env["__rnd"]
            lo, hi = a.lo, a.hi
            if a.isint:
                lo = 0 if lo == -INF else int(lo)
                hi = (1 << 32) if hi == INF else int(hi)
                t[kk] = rnd.choice([lo, hi, rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 5))])
            else:
                lo = max(lo, -20)
                hi = min(hi, 20)
                t[kk] = Fraction(rnd.randint(int(lo * 4), int(hi * 4)), 4)
        return t[kk]
    raise NoEval(a)


def ev_poly(p, env):
    r = 0
    for m, c in p.t.items():
        x = c
        for a in m:
            x = x * ev_atom(a, env)
        r += x
    return r


def ev_rat(r, env):
    d = ev_poly(r.den, env)
    if d == 0:
        raise NoEval("zero denominator")
    return Fraction(ev_poly(r.num, env)) / Fraction(d)


def ev_lit(l, env):
    k = l[0]
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "not":
        return not ev_lit(l[1], env)
    if k == "and":
        return ev_lit(l[1], env) and ev_lit(l[2], env)
    if k == "or":
        return ev_lit(l[1], env) or ev_lit(l[2], env)
    if k == "xor":
        return ev_lit(l[1], env) != ev_lit(l[2], env)
    v = ev_poly(l[1], env)
    return v >= 0 if k == "ge" else (v > 0 if k == "gt" else v == 0)


def base_vars(x, acc):
    if isinstance(x, Atom):
        k = x.key
        if k[0] == "var":
            acc.add(x)
        elif k[0] == "hi":
            base_vars(k[1], acc)
        elif k[0] in ("fdiv", "mod"):
            base_vars(k[1], acc)
        elif k[0] == "udiv":
            base_vars(k[1], acc)
            base_vars(k[2], acc)
        elif k[0] in ("xor", "and"):
            for y in k[1]:
                base_vars(y, acc)
        elif k[0] == "fn":
            for y in k[2]:
                base_vars(y, acc)
    elif isinstance(x, Poly):
        for a in x.atoms():
            base_vars(a, acc)
    elif isinstance(x, Rat):
        base_vars(x.num, acc)
        base_vars(x.den, acc)
    elif isinstance(x, tuple):
        for y in x:
            base_vars(y, acc)
    return acc


def find_model(ctx, ats, goal=None, tries=6000, seed=1):
    """concrete values of the witness inputs that lie in this partition and violate `goal` (if given)"""
    import random
    rnd = random.Random(seed)
    vs = set(a for a in ats if isinstance(a, Atom))
    for l, _ in ctx.lits:
        base_vars(l, vs)
    for m, p in ctx.sub.items():
        base_vars(p, vs)
        for a in m:
            base_vars(a, vs)
    if goal is not None:
        base_vars(goal, vs)
    vs = sorted(vs, key=lambda a: a.id)
    # facts to satisfy: path literals (over all atoms)
    facts = [(l, v) for l, v in ctx.lits]
    solved = {m[0]: p for m, p in ctx.sub.items() if len(m) == 1 and m[0].key[0] == "var"}

    def cand(a):
        lo, hi = ctx.arange(a)
        r = []
        if a.isint:
            lo2 = -(1 << 31) if lo == -INF else int(lo)
            hi2 = (1 << 32) if hi == INF else int(hi)
            r = [lo2, hi2, lo2 + 1, hi2 - 1]
            for z in (0, 1, -1, 2, 3, -2, 5, 7, -3):
                if lo2 <= z <= hi2:
                    r.append(z)
            for _ in range(3):
                r.append(rnd.randint(lo2, hi2))
                r.append(rnd.randint(lo2, min(hi2, lo2 + 8)))
                m = (lo2 + hi2) // 2
                r.append(max(lo2, min(hi2, m + rnd.randint(-3, 3))))
            return [x for x in r if lo2 <= x <= hi2]
        lo2 = -8 if lo == -INF else lo
        hi2 = max(8, 2 * lo2) if hi == INF else hi
        lo2 = min(-8, 2 * hi2) if lo == -INF else lo2
        r = [Fraction(x) for x in (lo2, hi2, 0, 1, -1, Fraction(1, 2), 2, 3) if lo2 <= x <= hi2]
        for _ in range(4):
            r.append(Fraction(lo2) + Fraction(rnd.randint(0, 1000), 1000) * (Fraction(hi2) - Fraction(lo2)))
        return r

    for t in range(tries):
        env = {"__rnd": rnd}
        for a in vs:
            if a not in solved:
                c = cand(a)
                if not c:
                    break
                env[a] = rnd.choice(c)
        try:
            for _ in range(len(solved) + 1):
                pend = False
                for a, p in solved.items():
                    if a in env:
                        continue
                    try:
                        v = ev_poly(p, env)
                        if a.isint and Fraction(v).denominator != 1:
                            raise NoEval(a)
                        if not (a.lo <= v <= a.hi):
                            raise NoEval(a)
                        env[a] = int(v) if a.isint else v
                    except NoEval:
                        pend = True
                if not pend:
                    break
            ok = all(ev_lit(l, env) == v for l, v in facts)
            if ok:
                # eliminated monomials must agree
                for m, p in ctx.sub.items():
                    x = 1
                    for a in m:
                        x = x * ev_atom(a, env)
                    if x != ev_poly(p, env):
                        ok = False
                        break
            if ok and goal is not None and ev_lit(goal, env):
                ok = False
            if ok:
                return {a: env[a] for a in vs if a in env}
        except (NoEval, OverflowError, ZeroDivisionError):
            continue
    return None
