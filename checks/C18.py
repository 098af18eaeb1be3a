"""C18: technology mapping gate library."""
import itertools
import os
import re
import absint as A_
import stdmodels
import vf
from absint import IVal, BVal, TRUE
from poly import Poly, uview

L = "include/fiction/technology/technology_mapping_library.hpp"
T = "include/fiction/algorithms/network_transformation/technology_mapping.hpp"
META = dict(
    title="Technology mapping offers exactly the requested gates with right functions",
    statement="Every gate of the technology mapping library has the function its name stands for, and the decay gates are exactly the non-constant "
              "functions a three-input gate takes when one input is tied to a constant. For any parameters the mapper is handed the constants, the "
              "buffer and exactly the gates and decay gates selected (with decay set, the decay gates only), as a library for at least as many inputs "
              "as the requested gates have, along with the user's mapper parameters, and the predefined parameter sets select exactly the gates they "
              "name. The network returned is the mapped one with names restored, and an empty one if mapping fails or no gate is selected; statistics "
              "are handed out, and AIG, XAG and MIG networks are refused exactly if a gate they need is missing.",
    forall="each gate flag with all others unset or all others set, decay on or off, mapping failing or not; all input assignments of every gate",
    over=["inputs", "configurations"],
    why="a wrong function in one library entry or a flag that selects another's gate yields layouts whose gates do not compute the network",
    files=[L, T],
    mechanism=["GATE_*, DECAY_* @ " + L + ":17-97", "parameter sets @ " + T + ":140-270", "technology_mapping_impl @ " + T + ":295-600"],
    technique="abstract interpretation of LLVM IR against stand-ins for mockturtle, and evaluation of the constant gate expressions",
    note="mockturtle's parser and mapper are replaced by stand-ins which record what they are handed; GENLIB expressions are evaluated with the usual precedence.",
)
F = {
    "zero": (0, lambda: 0), "one": (0, lambda: 1), "buf": (1, lambda a: a), "inv1": (1, lambda a: 1 - a), "and2": (2, lambda a, b: a & b),
    "nand2": (2, lambda a, b: 1 - (a & b)), "or2": (2, lambda a, b: a | b), "nor2": (2, lambda a, b: 1 - (a | b)), "xor2": (2, lambda a, b: a ^ b),
    "xnor2": (2, lambda a, b: 1 - (a ^ b)), "lt2": (2, lambda a, b: int(a < b)), "gt2": (2, lambda a, b: int(a > b)), "le2": (2, lambda a, b: int(a <= b)),
    "ge2": (2, lambda a, b: int(a >= b)), "and3": (3, lambda a, b, c: a & b & c), "xor_and": (3, lambda a, b, c: a & (b ^ c)),
    "or_and": (3, lambda a, b, c: a & (b | c)), "onehot": (3, lambda a, b, c: int(a + b + c == 1)), "maj3": (3, lambda a, b, c: int(a + b + c >= 2)),
    "gamble": (3, lambda a, b, c: int(a == b == c)), "dot": (3, lambda a, b, c: a ^ (c | (a & b))), "mux": (3, lambda a, b, c: b if c else a),
    "and_xor": (3, lambda a, b, c: a ^ (b & c)),
}
FLAGS = ["inv", "and2", "nand2", "or2", "nor2", "xor2", "xnor2", "lt2", "gt2", "le2", "ge2", "and3", "xor_and", "or_and", "onehot", "maj3", "gamble", "dot",
         "mux", "and_xor"]
TWO, THREE = FLAGS[1:11], FLAGS[11:]
SETS = {
    "and_or_not": ["inv", "and2", "or2"], "and_or_not_maj": ["inv", "and2", "or2", "maj3"], "all_standard_2_input_functions": FLAGS[:7],
    "all_2_input_functions": FLAGS[:11], "all_standard_3_input_functions": ["inv"] + THREE, "all_supported_standard_functions": FLAGS[:7] + THREE,
    "all_supported_functions": FLAGS,
}


def table(n, f):
    return tuple(f(*v) for v in itertools.product((0, 1), repeat=n))


def variants(n, f):
    """the truth tables of f under renaming of its inputs"""
    return {table(n, lambda *v, p=p: f(*[v[i] for i in p])) for p in itertools.permutations(range(n))}


class Bad(Exception):
    pass


def expr(txt):
    """(inputs, truth table) of a GENLIB expression: ! (or postfix ') binds tightest, then *, then ^, then +"""
    toks = re.findall(r"CONST[01]|[A-Za-z_]\w*|[!*+^()']", txt)
    if "".join(toks) != re.sub(r"\s", "", txt):
        raise Bad("expression " + txt)
    names = sorted({t for t in toks if re.match(r"[A-Za-z_]", t) and not t.startswith("CONST")})
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def prim():
        t = peek()
        if t is None or t in "*+^)'":
            raise Bad("expression " + txt)
        take()
        if t == "!":
            x = prim()
            return lambda e: 1 - x(e)
        if t == "(":
            x = lvl("+")
            if peek() != ")":
                raise Bad("expression " + txt)
            take()
        elif t.startswith("CONST"):
            x = lambda e: int(t[-1])
        else:
            x = lambda e: e[t]
        while peek() == "'":
            take()
            x = (lambda y: lambda e: 1 - y(e))(x)
        return x

    def lvl(op):
        sub = {"+": lambda: lvl("^"), "^": lambda: lvl("*"), "*": prim}[op]
        fn = {"+": lambda p, q: p | q, "^": lambda p, q: p ^ q, "*": lambda p, q: p & q}[op]
        x = sub()
        while peek() == op:
            take()
            x = (lambda p, q: lambda e: fn(p(e), q(e)))(x, sub())
        return x
    f = lvl("+")
    if peek() is not None:
        raise Bad("expression " + txt)
    return len(names), table(len(names), lambda *v: f(dict(zip(names, v))))


def parse(txt):
    """gates of a GENLIB text: [(name, inputs, table)]"""
    out = []
    for line in filter(None, (x.strip() for x in txt.split("\n"))):
        m = re.match(r"GATE\s+(\S+)\s+(\d+(?:\.\d+)?)\s+(\w+)\s*=\s*([^;]+);\s*(.*)$", line)
        if not m:
            raise Bad("line " + line)
        n, t = expr(m.group(4))
        pin = m.group(5)
        if n and not re.match(r"PIN\s+\*\s+(INV|NONINV|UNKNOWN)(\s+[\d.]+){6}$", pin):
            raise Bad("pins of " + line)
        out.append((m.group(1), n, t))
    return out


def cofactors(n, f):
    """non-constant functions of f with one input tied, each as its class under renaming of its support"""
    out = set()
    for i in range(n):
        for v in (0, 1):
            t = table(n - 1, lambda *w, i=i, v=v: f(*(w[:i] + (v,) + w[i:])))
            out.add(canon(n - 1, t))
    return out


def canon(n, t):
    """(support size, least truth table over renamings)"""
    rows = list(itertools.product((0, 1), repeat=n))
    d = dict(zip(rows, t))
    dep = [i for i in range(n) if any(d[r] != d[r[:i] + (1 - r[i],) + r[i + 1:]] for r in rows)]
    k = len(dep)

    def g(*w):
        r = [0] * n
        for i, x in zip(dep, w):
            r[i] = x
        return d[tuple(r)]
    return k, min(variants(k, g))


def run(c):
    code = """#include <sstream>
#include <string_view>
#include <fiction/algorithms/network_transformation/technology_mapping.hpp>
#include <cstdint>
using namespace fiction;
template <class B> struct net { using base_type = B; uint32_t id; };
using none = net<int>;
static technology_mapping_params all(bool o, bool decay) { technology_mapping_params p{}; p.decay = decay; """ + " ".join(
        f"p.{f} = o;" for f in FLAGS) + """ return p; }
template <class B> static bool refused(const technology_mapping_params& p)
{
    try { const auto r = technology_mapping(net<B>{5}, p); (void)r; return false; } catch (const missing_required_gates_exception&) { return true; }
}
"""
    for f in FLAGS:
        code += f"""extern "C" unsigned lib_{f}(bool others, bool f, bool decay, uint32_t id, uint32_t tag)
{{
    auto p = all(others, decay); p.{f} = f; p.mapper_params.tag = tag; technology_mapping_stats st{{}};
    const auto r = technology_mapping(none{{id}}, p, &st);
    if (r.inputs == 0) {{ return r.id == 0 && !r.names && (st.mapper_stats.tag == 77) == st.mapper_stats.mapping_error ? 0u : 99u; }}
    return r.id == id && r.ps == tag && r.names && st.mapper_stats.tag == 77 && !st.mapper_stats.mapping_error ? r.inputs : 98u;
}}
"""
    src = open(os.path.join(vf.REPO, L)).read()
    consts = ["GATE_ZERO", "GATE_ONE", "GATE_BUF", "GATE_INV"] + ["GATE_" + x.upper() for x in FLAGS[1:]] + ["DECAY_" + x.upper() for x in THREE]
    # further entries of the library, whatever their type
    consts += sorted(set(re.findall(r"^\s*(?:inline|constexpr|const)\b[^=\n]*?\b((?:GATE|DECAY)_\w+)\s*(?:=|\{)", src, re.M)) - set(consts))
    for x in consts:
        code += f'extern "C" const char* str_{x}() {{ return std::string_view{{fiction::{x}}}.data(); }}\n'
    for s, fl in SETS.items():
        code += f'extern "C" bool w_set_{s}() {{ const auto p = {s}(); return !p.decay && ' + " && ".join(
            f"p.{f} == {'true' if f in fl else 'false'}" for f in FLAGS) + "; }\n"
    code += 'extern "C" bool w_set_default() { const technology_mapping_params p{}; return !p.decay && ' + " && ".join("!p." + f for f in FLAGS) + "; }\n"
    for b, need in (("aig", ["inv", "and2"]), ("xag", ["inv", "and2", "xor2"]), ("mig", ["inv", "maj3"]), ("other", [])):
        ty = "int" if b == "other" else f"mockturtle::{b}_network"
        fl = ["inv", "and2", "xor2", "maj3"]
        code += f'extern "C" bool w_refused_{b}({", ".join("bool " + f for f in fl)}, bool o, bool d) {{ auto p = all(o, d); ' + " ".join(
            f"p.{f} = {f};" for f in fl) + f' return refused<{ty}>(p) == !({" && ".join(need) or "true"}); }}\n'
    sd = os.path.join(vf.STUBS, "techmap")
    mod = c.tu("c18", code, flags=["-iquote", sd, "-I", sd, "-D_GLIBCXX_EXTERN_TEMPLATE=0"])

    def genlib(m, s, fr, ins, name, args):
        b = []
        for x in stdmodels.content(s, args[0]):
            p = s.ctx.norm(x.p) if isinstance(x, IVal) else None
            if p is None or not p.is_const():
                raise A_.Undecided("library text of unknown content")
            b.append(p.cval() % 256)
        m.emit(s, "genlib", bytes(b).decode("latin-1"))
        m.finish(s, fr, ins, None)

    def maperr(m, s, fr, ins, name, args):
        b = m.truth(s, BVal(("eq", Poly.atom(s.tag["err"]) - 1)))
        m.emit(s, "err", b)
        m.finish(s, fr, ins, BVal(TRUE if b else ("false",)))
    models = [("^verif_genlib$", genlib), ("^verif_mapping_error$", maperr)] + stdmodels.STREAMS

    def setup(m, st, args):
        from poly import fresh
        st.tag["err"] = fresh("mapping_error", 0, 1)
        return args

    # ---- constant gate texts
    text = {}
    for x in consts:
        m, args, ats, outs, why = c.explore(mod, "str_" + x)
        v = outs[0].val if len(outs) == 1 and outs[0].kind == "ret" else None
        if not isinstance(v, A_.PVal) or not v.b or v.b[0] != "g":
            c.ob("text_" + x, "undecided", "gate-text", f"not a constant text: {why}", L)
            continue
        st = outs[0].st
        text[x] = "".join(chr(st.ctx.norm(q.p).cval() % 256) for q in stdmodels.read_cstr(m, st, v))
    gates = {}
    for x, t in text.items():
        try:
            gates[x] = parse(t)
        except Bad as e:
            c.ob("parse_" + x, "refuted", "genlib-syntax", f"{x}: {e}", L)
            continue
        for name, n, tt in gates[x]:
            base = re.sub(r"^d\d+_", "", name)
            if base not in F:
                c.ob("gate_" + name, "refuted", "gate-function", f"{x} defines the unknown gate {name}", L)
            elif base == name:
                k, f = F[name]
                ok = n == k and (tt == table(k, f) if k < 3 else tt in variants(k, f))
                c.expect("gate_" + name, ok, "gate-function", f"{x}: gate {name} has {n} inputs and truth table {tt}", L)
            else:
                k, tab = canon(n, tt)
                c.expect("gate_" + name, k == n and k > 0 and (k, tab) in cofactors(*F[base]), "decay-is-cofactor",
                         f"{x}: decay gate {name} computes {tt}, which {base} computes for no constant input", L)
    for f in THREE:
        have = {canon(n, tt) for x in gates for name, n, tt in gates[x] if re.match(r"d\d+_" + f + "$", name)}
        miss = [q for q in cofactors(*F[f]) if q[0] == 2 and q not in have]
        c.expect("decays_" + f, not miss, "decay-complete", f"{f} with a constant input computes {miss}, which no decay gate offers", L)
    # ---- what the mapper is handed
    gname = {f: ("inv1" if f == "inv" else f) for f in FLAGS}
    for f in FLAGS:
        m, args, ats, outs, why = c.explore(mod, "lib_" + f, ["others", "f", "decay", "id", "tag"], models=models, setup=setup, limit=300)
        if why:
            c.ob("library_" + f, "undecided", "offered-gates", why, T)
            continue
        bad = []
        seen = set()
        for o in outs:
            if o.kind != "ret":
                bad.append(f"ends with {o.kind}: {o.val}")
                continue
            ev = m.events(o.st)

            def arg(i):
                p = o.st.ctx.norm(args[i].p) if isinstance(args[i], IVal) else None
                if isinstance(args[i], BVal):
                    d = o.st.ctx.decide(args[i].l)
                    return d
                return bool(p.cval()) if p is not None and p.is_const() else None
            vals = [arg(0), arg(1), arg(2)]
            lib = [e[1] for e in ev if e[0] == "genlib"]
            err = [e[1] for e in ev if e[0] == "err"]
            rv = o.st.ctx.norm(uview(o.st.ctx, o.val.p, 32))
            ret = rv.cval() if rv.is_const() else None
            for ot, fv, dc in itertools.product(*[(x,) if x is not None else (False, True) for x in vals]):
                seen.add((ot, fv, dc, bool(err and err[0])))
                sel = {g for g in FLAGS if (fv if g == f else ot)}
                if len(lib) != 1:
                    bad.append(f"the parser is handed {len(lib)} libraries")
                    continue
                want = {"zero", "one", "buf"}
                for g in sel:
                    if g not in THREE or not dc:
                        want.add(gname[g])
                    if g in THREE:
                        want |= {n for x in gates for n, _, _ in gates[x] if re.match(r"d\d+_" + g + "$", n)}
                try:
                    got = {n for n, _, _ in parse(lib[0])}
                except Bad as e:
                    bad.append(str(e))
                    continue
                if got != want:
                    bad.append(f"others={ot} {f}={fv} decay={dc}: offered but not selected {sorted(got - want)}, selected but not offered {sorted(want - got)}")
                need = 3 if sel & set(THREE) else 2 if sel & set(TWO) else 1 if sel else 0
                fail = bool(err and err[0]) or need == 0
                if bool(err) != (need > 0):
                    bad.append(f"others={ot} {f}={fv}: the mapper runs {len(err)} times")
                elif fail and ret != 0:
                    bad.append(f"others={ot} {f}={fv}: returns a network ({ret}) although there is no mapping")
                elif not fail and (ret is None or not need <= ret <= 6):
                    bad.append(f"others={ot} {f}={fv} decay={dc}: result {ret if ret is not None else rv} for gates of {need} inputs (98: network, parameters, names or statistics lost)")
        c.expect("library_" + f, not bad, "offered-gates", "; ".join(bad[:4]), T)
        if not bad and len(seen) < 12:
            c.ob("library_all_" + f, "undecided", "offered-gates", f"only {len(seen)} configurations seen", T)
    for s in list(SETS) + ["default"]:
        c.prove(mod, "w_set_" + s, [], {}, "parameter-set", T)
    for b in ("aig", "xag", "mig", "other"):
        c.prove(mod, "w_refused_" + b, ["inv", "and2", "xor2", "maj3", "o", "d"], {}, "required-gates", T, models=[
            ("^verif_genlib$", lambda m, s, fr, ins, name, args: m.finish(s, fr, ins, None)),
            ("^verif_mapping_error$", lambda m, s, fr, ins, name, args: m.finish(s, fr, ins, BVal(("false",))))] + stdmodels.STREAMS)
