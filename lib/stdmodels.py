"""Abstract models of standard-library entities whose bodies live outside the translated headers (streams) or that the
analysis treats as primitives."""
import re
from poly import *
from absint import (IVal, BVal, FVal, PVal, AVal, NULL, Undecided, Stop)


# ---------------------------------------------------------------------- strings in memory (libstdc++ layout)
def read_string(m, s, p):
    """the characters (IVal 8) of the std::string object at p"""
    ptr = m.load(s, p, ["p"])
    n = s.ctx.norm(m.load(s, PVal(p.b, p.o + 8), ["i", 64]).p)
    if not n.is_const():
        raise Undecided("string of symbolic length at " + m.where(s))
    return tuple(m.load(s, PVal(ptr.b, ptr.o + i), ["i", 8]) for i in range(n.cval()))


def write_string(m, s, p, chars):
    """construct a std::string with the given characters at p"""
    n = len(chars)
    if n <= 15:
        d = PVal(p.b, p.o + 16)
    else:
        d = m.new_obj(s, n + 1)
        m.store(s, PVal(p.b, p.o + 16), IVal(64, n), ["i", 64])
    m.store(s, p, d, ["p"])
    m.store(s, PVal(p.b, p.o + 8), IVal(64, n), ["i", 64])
    for i, c in enumerate(chars):
        m.store(s, PVal(d.b, d.o + i), c, ["i", 8])
    m.store(s, PVal(d.b, d.o + n), IVal(8, 0), ["i", 8])


def read_bytes(m, s, p, n):
    return tuple(m.load(s, PVal(p.b, p.o + i), ["i", 8]) for i in range(n))


def read_cstr(m, s, p):
    out = []
    while True:
        v = m.load(s, PVal(p.b, p.o + len(out)), ["i", 8])
        q = s.ctx.norm(v.p)
        if not q.is_const():
            raise Undecided("symbolic C string at " + m.where(s))
        if q.cval() % 256 == 0:
            return tuple(out)
        out.append(v)
        if len(out) > 4096:
            raise Undecided("unterminated C string")


# ---------------------------------------------------------------------- output streams
def content(s, p):
    return s.tag.get(("stream", p.b), ())


def touched(m, s, p):
    """cells of the memory of an outside stream (reached through its address) that no longer hold their initial value"""
    out = []
    for b, cells in s.mem.items():
        if b[0] != "opq" or "*" + str(p.b[1]) not in str(b[1]) and b != p.b:
            continue
        for off, (size, v) in cells.items():
            if isinstance(v, IVal):
                a = v.p.as_atom()
                if a is not None and a.key[0] == "var" and len(a.key) > 2 and isinstance(a.key[2], tuple) and \
                        a.key[2][:1] == ("mem",) and a.key[2][1] == b and a.key[2][2] == off:
                    continue
                out.append((str(off), str(v)))
            elif isinstance(v, (FVal, BVal)):
                out.append((str(off), str(v)))
    return tuple(sorted(out))


def append(m, s, p, items):
    if p.b and p.b[0] == "opq":
        t = touched(m, s, p)
        if t:
            items = [("state", t)] + list(items)
    s.tag[("stream", p.b)] = content(s, p) + tuple(items)


def _ctor(m, s, fr, ins, name, args):
    dem = m.m.fn[name]["dem"]
    init = ()
    if "basic_string<char" in dem.split("::basic_", 1)[1].split("(", 1)[-1] and len(args) > 1 and isinstance(args[1], PVal):
        init = read_string(m, s, args[1])
    s.tag[("stream", args[0].b)] = tuple(init)
    m.finish(s, fr, ins, None)


def _nop(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, None)


def _ret0(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, args[0])


def _put(m, s, fr, ins, name, args):
    append(m, s, args[0], [args[1]])
    m.finish(s, fr, ins, args[0])


def _cstr(m, s, fr, ins, name, args):
    append(m, s, args[0], read_cstr(m, s, args[1]))
    m.finish(s, fr, ins, args[0])


def _write(m, s, fr, ins, name, args):
    n = s.ctx.norm(args[2].p)
    if not n.is_const():
        raise Undecided("write of symbolic length")
    append(m, s, args[0], read_bytes(m, s, args[1], n.cval()))
    m.finish(s, fr, ins, args[0])


def _str(m, s, fr, ins, name, args):
    append(m, s, args[0], read_string(m, s, args[1]))
    m.finish(s, fr, ins, args[0])


def _num(m, s, fr, ins, name, args):
    t = m.m.fn[name]["dem"].rsplit("(", 1)[1].rstrip(")")
    append(m, s, args[0], [("num", t, args[1])])
    m.finish(s, fr, ins, args[0])


def _manip(m, s, fr, ins, name, args):
    f = args[1]
    if isinstance(f, PVal) and f.b and f.b[0] == "fn":
        d = m.m.fn[f.b[1]]["dem"]
        if "std::endl" in d:
            append(m, s, args[0], [IVal(8, 10), ("flush",)])
        elif "std::flush" in d:
            append(m, s, args[0], [("flush",)])
        elif "std::ends" in d:
            append(m, s, args[0], [IVal(8, 0)])
        else:
            append(m, s, args[0], [("manip", d)])
        return m.finish(s, fr, ins, args[0])
    raise Undecided("stream manipulator")


def _endl(m, s, fr, ins, name, args):
    append(m, s, args[0], [IVal(8, 10), ("flush",)])
    m.finish(s, fr, ins, args[0])


def _flush(m, s, fr, ins, name, args):
    append(m, s, args[0], [("flush",)])
    m.finish(s, fr, ins, args[0])


def _getstr(m, s, fr, ins, name, args):
    if "() const" not in m.m.fn[name]["dem"] and "() &&" not in m.m.fn[name]["dem"] and len(args) < 2:
        return NotImplemented
    if ins["t"][0] == "v" and len(args) == 2:
        out, p = args
        cs = [c for c in content(s, p) if not (isinstance(c, tuple) and c[0] == "flush")]
        if any(isinstance(c, tuple) for c in cs):
            raise Undecided("string of a stream holding formatted values")
        write_string(m, s, out, cs)
        return m.finish(s, fr, ins, None)
    raise Undecided("stringstream::str shape")


_C = r"(std::char_traits<char>|char_traits<char>)"
_SS = r"^std::(__cxx11::)?basic_o?stringstream<char, std::char_traits<char>, std::allocator<char> ?>::"
_OS = r"^std::(basic_ostream<char, std::char_traits<char> ?>|ostream)::"
STREAMS = [
    (_SS + r"basic_o?stringstream\(", _ctor),
    (_SS + r"~basic_o?stringstream\(", _nop),
    (_SS + r"str\(", _getstr),
    (r"basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<.*\(std::basic_ostream<char, std::char_traits<char> ?>&, "
     r"(signed |unsigned )?char\)$", _put),
    (r"basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<.*\(std::basic_ostream<char, std::char_traits<char> ?>&, "
     r"(signed |unsigned )?char const\*\)$", _cstr),
    (r"basic_ostream<char, std::char_traits<char> ?>& std::operator<< ?<char, std::char_traits<char>, std::allocator<char> ?>\(.*"
     r"basic_string<char, std::char_traits<char>, std::allocator<char> ?> const&\)$", _str),
    (_OS + r"operator<<\(std::(basic_)?ostream.*\(\*\)\(", _manip),
    (_OS + r"operator<<\((bool|short|int|long|long long|unsigned short|unsigned int|unsigned long|unsigned long long|float|double|"
     r"long double|void const\*)\)$", _num),
    (_OS + r"put\(char\)$", _put),
    (_OS + r"write\(char const\*, long\)$", _write),
    (_OS + r"flush\(\)$", _flush),
    (r"std::__ostream_insert<char, std::char_traits<char> ?>\(", _write),
    (r"^std::basic_ostream<char, std::char_traits<char> ?>& std::endl<", _endl),
    (r"^std::basic_ostream<char, std::char_traits<char> ?>& std::flush<", _flush),
]


# ---------------------------------------------------------------------- random numbers: every draw is an arbitrary value
def _rd_touch(m, s, p):
    """drawing a number changes the state of the generator"""
    if m.log_access and isinstance(p, PVal) and p.b is not None:
        o = s.ctx.norm(p.o)
        m.access(s, p.b, int(o.cval()) if o.is_const() else None, 8, True)


def _rd_draw(m, s, fr, ins, name, args):
    if args:
        _rd_touch(m, s, args[0])
    m.finish(s, fr, ins, m.fresh_of(ins["t"], "rnd"))


def _rd_dist(m, s, fr, ins, name, args):
    """k-th draw of a real distribution over [a, b): a + (b - a) * u_k with u_k in [0, 1)"""
    k = s.tag.get("draws", 0)
    s.tag["draws"] = k + 1
    if len(args) > 1:
        _rd_touch(m, s, args[1])
    u = Rat(Poly.atom(Atom(("fn", "draw", (Poly.const(k),)), 0, 1, False)))
    p = args[2] if len(args) > 2 and isinstance(args[2], PVal) else args[0]
    a = m.rat(s, m.load(s, p, ["f", 64]))
    b = m.rat(s, m.load(s, PVal(p.b, p.o + 8), ["f", 64]))
    m.finish(s, fr, ins, FVal((a + (b - a) * u).norm(s.ctx)))


def _rd_count(m, s, fr, ins, name, args):
    m.finish(s, fr, ins, IVal(32, s.tag.get("draws", 0)))


def _rd_value(m, s, fr, ins, name, args):
    k = s.ctx.norm(args[0].p)
    m.finish(s, fr, ins, FVal(Rat(Poly.atom(Atom(("fn", "draw", (k,)), 0, 1, False)))))


def _rd_canon(m, s, fr, ins, name, args):
    _rd_touch(m, s, args[0])
    k = s.tag.get("draws", 0)
    s.tag["draws"] = k + 1
    m.finish(s, fr, ins, FVal(Rat(Poly.atom(Atom(("fn", "draw", (Poly.const(k),)), 0, 1, False)))))


def _rd_int(m, s, fr, ins, name, args):
    """a draw of an integer distribution: any value of [a, b], which must not be empty"""
    dem = m.m.fn[name]["dem"]
    w = ins["t"][1]
    view = uview if dem.startswith("unsigned") else sview
    p = args[2] if len(args) > 2 and isinstance(args[2], PVal) else args[0]
    a = view(s.ctx, m.load(s, p, ["i", w]).p, w)
    b = view(s.ctx, m.load(s, PVal(p.b, p.o + w // 8), ["i", w]).p, w)
    ok = s.ctx.decide(("ge", b - a))
    if ok is None:
        raise NeedSplit(("ge", b - a))
    if not ok:
        raise Stop("ub", "a distribution over an empty range at " + m.where(s))
    if len(args) > 1:
        _rd_touch(m, s, args[1])
    lo, hi = s.ctx.range(a)[0], s.ctx.range(b)[1]
    r = Poly.atom(fresh("draw", lo, hi))
    s.ctx.assume(("ge", r - a))
    s.ctx.assume(("ge", b - r))
    m.finish(s, fr, ins, IVal(w, r))


_ENG = r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine)<.*>::"
RANDOM = [
    (r"^std::random_device::(random_device|~random_device)\(", _nop),
    (r"^std::random_device::operator\(\)\(\)", _rd_draw),
    (r"^std::random_device::_M_", _rd_draw),
    (_ENG + r"(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|seed|discard)\b", _nop),
    (_ENG + r"operator\(\)\(\)", _rd_draw),
    (r"^(double|float) std::uniform_real_distribution<(double|float)>::operator\(\)<", _rd_dist),
    (r"^(int|long|long long|short|unsigned int|unsigned long|unsigned long long|unsigned short) std::uniform_int_distribution<[a-z ]*>::operator\(\)<", _rd_int),
    (r"^(double|float) std::generate_canonical<", _rd_canon),
    (r"^verif_draw_count$", _rd_count), (r"^verif_draw_value$", _rd_value),
]


# ---------------------------------------------------------------------- threads (libstdc++ std::thread over _M_start_thread)
def _clock(s):
    s.tag["clock"] = s.tag.get("clock", 0) + 1
    return s.tag["clock"]


def _thr_run(m, s, fr, ins, k, st, stay):
    """execute the body of thread k on the current path; `stay`: the calling instruction is not finished by its return"""
    vt = m.load(s, st, ["p"])
    f = m.load(s, PVal(vt.b, vt.o + 16), ["p"])
    if not (isinstance(f, PVal) and f.b and f.b[0] == "fn"):
        raise Undecided("thread body")
    m.push(s, f.b[1], [st], nd=None if stay else ins.get("nd"), meta=("thread", s.tag.get("thr", 0), stay))
    s.tag["thr"] = k


def _thr_start(m, s, fr, ins, name, args):
    if s.tag.get("thr", 0):
        raise Undecided("nested threads")
    st = m.load(s, args[1], ["p"])
    m.store(s, args[1], NULL, ["p"])
    k = s.tag.get("nthr", 0) + 1
    s.tag["nthr"] = k
    m.store(s, args[0], IVal(64, k), ["i", 64])
    t = _clock(s)
    s.tag["span"] = {**s.tag.get("span", {}), k: (t, 1 << 60)}
    s.tag["live"] = s.tag.get("live", frozenset()) | {k}
    if m.thread_mode == "deferred":
        s.tag["pend"] = {**s.tag.get("pend", {}), k: st}
        return m.finish(s, fr, ins, None)
    _thr_run(m, s, fr, ins, k, st, False)


def _thr_join(m, s, fr, ins, name, args):
    k = s.ctx.norm(m.load(s, args[0], ["i", 64]).p)
    if not k.is_const():
        raise Undecided("join of an unknown thread")
    k = k.cval()
    if k == 0 or k not in s.tag.get("live", ()):
        return m.do_throw(s, "std::system_error")
    pend = s.tag.get("pend", {})
    if k in pend:
        s.tag["pend"] = {a: b for a, b in pend.items() if a != k}
        return _thr_run(m, s, fr, ins, k, pend[k], True)
    m.store(s, args[0], IVal(64, 0), ["i", 64])
    sp = dict(s.tag["span"])
    sp[k] = (sp[k][0], _clock(s))
    s.tag["span"] = sp
    s.tag["live"] = s.tag["live"] - {k}
    m.finish(s, fr, ins, None)


def _lock(m, s, fr, ins, name, args):
    s.tag["locks"] = s.tag.get("locks", frozenset()) | {args[0].b}
    m.finish(s, fr, ins, IVal(32, 0) if ins["t"][0] != "v" else None)


def _unlock(m, s, fr, ins, name, args):
    s.tag["locks"] = s.tag.get("locks", frozenset()) - {args[0].b}
    m.finish(s, fr, ins, IVal(32, 0) if ins["t"][0] != "v" else None)


def _tick(m, s, fr, ins, name, args):
    k = s.tag.get("tick", 0)
    s.tag["tick"] = k + 1
    m.finish(s, fr, ins, IVal(32, k))


def _now(m, s, fr, ins, name, args):
    """a clock: no time passes"""
    m.finish(s, fr, ins, IVal(64, P(1000000000)))


def _race(m, s, fr, ins, name, args):
    r = m.races(s)
    if r:
        x, y = r[0]
        raise Stop("ub", f"data race: thread {x[0]} {'writes' if x[5] else 'reads'} and thread {y[0]} "
                         f"{'writes' if y[5] else 'reads'} {show_block(m, x[2])} without synchronisation, at {x[7]} and {y[7]}")
    if s.tag.get("live"):
        raise Stop("ub", "a thread is still running")
    m.finish(s, fr, ins, None)


def show_block(m, b):
    return m.m.gl[b[1]]["dem"] if b[0] == "g" and b[1] in m.m.gl else str(b[0]) + " object"


THREADS = [
    (r"^std::thread::_M_start_thread\(", _thr_start), (r"^std::thread::join\(\)", _thr_join),
    (r"^std::thread::hardware_concurrency\(\)", lambda m, s, fr, ins, name, args: m.finish(s, fr, ins, m.fresh_of(ins["t"], "hw"))),
    (r"^pthread_mutex_lock$", _lock), (r"^pthread_mutex_unlock$", _unlock),
    (r"^(std::mutex::lock|std::lock_guard<std::mutex>::lock_guard)\(", _lock), (r"^std::mutex::unlock\(", _unlock),
    (r"^std::chrono::_V2::(system|steady)_clock::now\(\)", _now),
    (r"^verif_tick$", _tick), (r"^verif_no_race$", _race),
]
