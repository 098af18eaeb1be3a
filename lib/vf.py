"""Shared driver of the checks: translates witness units against /repo's current tree, collects obligations, writes the
evidence file and decides the exit status.

exit 0  every obligation holds (or is a listed known finding)
exit 1  a VIOLATION line was printed
exit 2  the check could not decide (vanished anchor, witness does not translate, engine limit)
"""
import argparse
import importlib.util
import gc
import json
import os
import pickle
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, HERE)

import absint as A  # noqa: E402
from absint import Machine, Module, Verdict, prove_true, find_model, show_lit  # noqa: E402
import poly as PL  # noqa: E402

STUBS = os.path.join(ROOT, "stubs")
INCS = ["include", "vendors/undirected_graph/source", "vendors/combinations", "vendors/graph-coloring/Header"]


class Broken(Exception):
    """the analysis cannot be carried out on this tree"""


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def ensure_tools():
    """build the tools (normally done by setup_cmd)"""
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["make", "-s", "-C", os.path.join(ROOT, "tools"), f"BUILD={BUILD}"], capture_output=True, text=True)
    if r.returncode:
        raise Broken("building the analysis tools failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])


class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obl = []  # dicts
        self.funcs = {}
        self.findings = []  # (key, text, where, trace)
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.assumptions = []
        self.partitions = 0
        self.rules = {}
        self.units = []
        self.external = set()
        self.deadline = self.t0 + (600 if tier == "quick" else 800)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ translation
    def tu(self, name, code, flags=(), passes="function(sroa,early-cse)", opt="-O1"):
        """translate a witness unit against the current tree to IR and load it"""
        src = os.path.join(self.tmp, name + ".cpp")
        with open(src, "w") as f:
            f.write(code)
        ll = os.path.join(self.tmp, name + ".ll")
        cmd = ["clang++-18", "-std=c++20", opt, "-Xclang", "-disable-llvm-passes", "-g", "-S", "-emit-llvm", "-w",
               "-ferror-limit=5"]
        cmd += ["-I", STUBS]
        for i in INCS:
            cmd += ["-I", os.path.join(REPO, i)]
        cmd += list(flags) + [src, "-o", ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken(f"witness unit {name} does not translate against this tree:\n" + r.stderr[-3000:])
        l2 = os.path.join(self.tmp, name + ".2.ll")
        r = subprocess.run(["opt-18", "-S", "-passes=" + passes, ll, "-o", l2], capture_output=True, text=True)
        if r.returncode:
            raise Broken("opt failed: " + r.stderr[-2000:])
        js = os.path.join(self.tmp, name + ".json")
        with open(js, "w") as f:
            r = subprocess.run([os.path.join(BUILD, "irdump"), l2], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise Broken("irdump failed: " + r.stderr[-2000:])
        m = Module(js)
        m.unit = name
        self.units.append(name)
        for p in (ll, l2, js):
            os.unlink(p)
        return m

    # ------------------------------------------------------------------ bookkeeping
    def note_cover(self, m):
        """functions of the repository the interpreter walked through"""
        for fn in m.covered:
            f = m.m.fn[fn]
            loc = None
            for b in f["blocks"]:
                for i in b:
                    if "fl" in i and "ln" in i:
                        loc = (i["fl"], i["ln"])
                        break
                if loc:
                    break
            fl = f.get("file") or (loc[0] if loc else "")
            if REPO in fl or "/repo/" in fl:
                self.funcs[f["dem"][:160]] = fl
        self.external |= m.opaque

    def ob(self, name, status, rule, detail="", where=""):
        """record one obligation; status: proved | refuted | reduced | undecided"""
        self.obl.append({"name": name, "status": status, "rule": rule, "detail": detail[:600], "where": where})
        self.rules.setdefault(rule, 0)
        self.rules[rule] += 1
        if status == "refuted":
            self.findings.append((name, rule, detail, where))

    def expect(self, name, cond, rule, detail="", where=""):
        self.ob(name, "proved" if cond else "refuted", rule, "" if cond else detail, where)
        return cond

    # ------------------------------------------------------------------ boolean witnesses
    def prove(self, mod, fname, names=None, ranges=None, rule="", anchor="", models=None, limit=60, reduce=True, hook=None,
              max_states=20000, init=False, allow_abort=False, overflow="ub", thread_mode="eager", log_access=False, split_mod=0):
        """obligation: the boolean witness `fname` is true on every partition"""
        if fname not in mod.fn:
            raise Broken("witness vanished: " + fname)
        f = mod.fn[fname]
        if names is None:
            names = [f"a{i}" for i in range(len(f["args"]))]
        m = Machine(mod, models, max_states=max_states)
        m.block_hook = hook
        m.overflow = overflow
        m.split_mod = split_mod
        m.thread_mode = thread_mode
        m.log_access = log_access
        t1 = time.time()
        limit = min(limit, max(3, self.deadline - t1))
        old = signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, limit)
        try:
            v = prove_true(m, fname, names, ranges, init, allow_abort)
        except Timeout:
            v = Verdict("undecided", "time limit")
        except RecursionError:
            v = Verdict("undecided", "recursion")
        except (ArithmeticError, TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            v = Verdict("undecided", f"engine: {type(e).__name__} {e}")
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        self.note_cover(m)
        self.partitions += m.partitions
        detail = v.detail
        if os.environ.get("VERIF_DEBUG"):
            print(f"  {fname}: {v.kind} {m.partitions} partitions {m.steps} steps {time.time() - t1:.1f}s", file=sys.stderr)
        if v.kind == "undecided" and reduce:
            r = self.reduce(mod, fname, names, ranges, models, hook, init, allow_abort, overflow)
            if r is not None:
                v2, n = r
                if v2 is not None:
                    v = v2
                    detail = v.detail
                elif n:
                    self.ob(fname, "reduced", rule, f"{detail} -> decided on {n} constant cells only", anchor)
                    return "reduced"
        if v.kind == "refuted":
            mod_txt = ", ".join(f"{a}={show(v.model[a])}" for a in sorted(v.model, key=lambda a: a.id)
                                if a.key[0] == "var" and len(a.key) > 2 and a.key[2] == fname) if v.model else ""
            tr = "; ".join(f"{w}: {show_lit(l, b)}" for w, l, b in v.trace[-6:])
            detail = f"{detail}; counterexample [{mod_txt}]; path: {tr}"
        if v.kind == "vacuous":
            detail = "no partition reaches the end of the witness"
            self.ob(fname, "undecided", rule, detail, anchor)
            return "undecided"
        self.ob(fname, v.kind, rule, detail, anchor)
        return v.kind

    def prove_all(self, mod, jobs):
        """the given obligations, distributed over worker processes; recorded in the given order"""
        only = os.environ.get("VERIF_ONLY")  # development: a regular expression on obligation names
        if only:
            jobs = [j for j in jobs if re.search(only, j[0])]
        n = min(WORKERS, len(jobs))
        if n <= 1 or os.environ.get("VERIF_DEBUG"):
            for fn, names, r, rule, anchor, kw in jobs:
                self.prove(mod, fn, names, r, rule, anchor, **kw)
            return
        # one process per obligation: each starts from the same state, so the outcome does not depend on the schedule
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        gc.freeze()
        live, nxt = {}, 0
        known, found, skipped = load_known(self.pid), None, set()
        try:
            while nxt < len(jobs) or live:
                if found and time.time() - found > GRACE:
                    # a violation is certain: the remaining obligations cannot change the answer
                    skipped = set(live.values()) | set(range(nxt, len(jobs)))
                    break
                while nxt < len(jobs) and len(live) < n:
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            self._job(mod, jobs[nxt], nxt)
                            code = 0
                        finally:
                            os._exit(code)
                    live[pid] = nxt
                    nxt += 1
                pid = wait_child(1 if found else None)
                i = live.pop(pid, None)
                if i is not None and not found and any(not known_match(known, a, d, w) for a, _, d, w in self._peek(i)):
                    found = time.time()
        finally:
            for pid in live:
                os.kill(pid, signal.SIGKILL)
            for pid in live:
                os.waitpid(pid, 0)
        for i, (fn, names, r, rule, anchor, kw) in enumerate(jobs):
            p = os.path.join(self.tmp, f"job{i}")
            if i in skipped and not os.path.exists(p):
                self.ob(fn, "skipped", rule, "not decided: another obligation was already violated", anchor)
                continue
            if not os.path.exists(p):
                self.ob(fn, "undecided", rule, "the analysis process ended early", anchor)
                continue
            with open(p, "rb") as f:
                obl, findings, funcs, ext, parts, broken = pickle.load(f)
            os.unlink(p)
            if broken:
                raise Broken(broken)
            for o in obl:
                self.obl.append(o)
                self.rules[o["rule"]] = self.rules.get(o["rule"], 0) + 1
            self.findings += findings
            self.funcs.update(funcs)
            self.external |= ext
            self.partitions += parts

    def _peek(self, i):
        p = os.path.join(self.tmp, f"job{i}")
        if not os.path.exists(p):
            return []
        with open(p, "rb") as f:
            return pickle.load(f)[1]

    def _job(self, mod, job, i):
        self.obl, self.findings, self.funcs, self.external, self.partitions = [], [], {}, set(), 0
        fn, names, r, rule, anchor, kw = job
        broken = None
        try:
            self.prove(mod, fn, names, r, rule, anchor, **kw)
        except Broken as e:
            broken = str(e)
        p = os.path.join(self.tmp, f"job{i}")
        with open(p + ".tmp", "wb") as f:
            pickle.dump((self.obl, self.findings, self.funcs, self.external, self.partitions, broken), f)
        os.rename(p + ".tmp", p)

    def explore(self, mod, fname, names=None, ranges=None, models=None, limit=60, hook=None, max_states=20000, setup=None):
        """all partitions of `fname` as a list of outcomes (None when the engine cannot decide; the reason is returned)"""
        if fname not in mod.fn:
            raise Broken("witness vanished: " + fname)
        f = mod.fn[fname]
        if names is None:
            names = [f"a{i}" for i in range(len(f["args"]))]
        m = Machine(mod, models, max_states=max_states)
        m.block_hook = hook
        st = m.new_state()
        outs = []
        why = None
        old = signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, limit)
        try:
            args, ats = A.mk_args(m, fname, names, ranges)
            if setup:
                args = setup(m, st, args)
            m.push(st, fname, args)
            for o in m.run(st):
                outs.append(o)
        except Timeout:
            why = "time limit"
        except RecursionError:
            why = "recursion"
        except A.Undecided as e:
            why = str(e)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        self.note_cover(m)
        self.partitions += m.partitions
        return m, args, ats, outs, why

    def reduce(self, mod, fname, names, ranges, models, hook, init=False, allow_abort=False, overflow="ub", cells=400):
        """fallback when the numeric domain is too weak on the tree at hand: decide the obligation by constant
        propagation on a fixed family of constant cells (bounds and small values of every input)"""
        f = mod.fn[fname]
        rnd = random.Random(7)
        dom = []
        for i, a in enumerate(f["args"]):
            t = a[0]
            if t[0] == "i":
                lo, hi = (0, (1 << t[1]) - 1)
                if ranges and i in ranges:
                    lo, hi = ranges[i]
                c = {lo, hi, lo + 1, hi - 1, (lo + hi) // 2}
                for z in (0, 1, 2, 3, 4, 5, 7, 8, 63, 64, 100, -1, -2, -3, -7):
                    c.add(z)
                c = sorted(x for x in c if lo <= x <= hi)
                dom.append(("i", c, lo, hi))
            elif t[0] == "f":
                lo, hi = (-8, 8)
                if ranges and i in ranges:
                    lo, hi = ranges[i]
                    lo = max(lo, -1000)
                    hi = min(hi, 1000)
                c = [x for x in (lo, hi, 0, 1, -1, PL.Fraction(1, 2), PL.Fraction(3, 2), 2, 3) if lo <= x <= hi]
                dom.append(("f", c, lo, hi))
            else:
                return None
        n = 0
        t0 = time.time()
        old = signal.signal(signal.SIGPROF, _alarm)
        budget = min(45, max(3, self.deadline + 30 - t0))
        try:
            for k in range(cells):
                if time.time() - t0 > budget:
                    break
                rg = {}
                for i, (kd, c, lo, hi) in enumerate(dom):
                    if kd == "i":
                        v = rnd.choice(c) if rnd.random() < 0.7 else rnd.randint(lo, hi)
                    else:
                        v = rnd.choice(c)
                    rg[i] = (v, v)
                m = Machine(mod, models)
                m.block_hook = hook
                m.overflow = overflow
                signal.setitimer(signal.ITIMER_PROF, min(5, budget))
                try:
                    v = prove_true(m, fname, names, rg, init, allow_abort)
                except (Timeout, RecursionError):
                    continue
                except (ArithmeticError, TypeError, ValueError, KeyError, IndexError, AttributeError):
                    continue
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
                if v.kind == "refuted":
                    self.note_cover(m)
                    return v, n
                if v.kind == "proved":
                    n += 1
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
        return None, n

    # ------------------------------------------------------------------ result
    def finish(self):
        known = load_known(self.pid)
        shutil.rmtree(self.tmp, ignore_errors=True)
        und = [o for o in self.obl if o["status"] == "undecided"]
        viol = []
        for name, rule, detail, where in self.findings:
            k = known_match(known, name, detail, where)
            if k:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                viol.append((name, rule, detail, where))
        proved = sum(o["status"] == "proved" for o in self.obl)
        reduced = [o for o in self.obl if o["status"] == "reduced"]
        samples = [o for o in self.obl[:200]]
        level = LEVEL.get(self.pid, "proof")
        cov = {
            "obligations": len(self.obl),
            "discharged": proved,
            "checker_cmd": f"python3 /verif/run.py {self.pid} --tier {self.tier}",
            "trusted_base": ["clang 18 front end (source -> LLVM IR)", "opt 18 sroa/early-cse", "/verif/tools (IR / AST readers)",
                             "/verif/lib/absint.py, /verif/lib/poly.py (abstract interpreter and numeric domain)"],
            "explanation": f"{len(self.obl)} obligations over {len(self.funcs)} functions of the repository; {proved} hold on all "
                           f"partitions, {len(reduced)} decided on constant cells only, {len(und)} undecided, "
                           f"{len(self.findings)} findings ({len(viol)} not listed as known).",
            "rules": self.rules,
            "partitions": self.partitions,
            "functions_analysed": [f"{k} [{v.replace(REPO + '/', '')}]" for k, v in sorted(self.funcs.items())][:400],
            "units": self.units,
            "obligation_list": samples,
            "reduced": [o["name"] for o in reduced],
            "externals_uninterpreted": sorted(self.external)[:100],
        }
        cov.update(getattr(self, "extra", {}))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in und:
            print(f"UNDECIDED {o['name']} [{o['rule']}] {o['detail']}")
        for o in reduced:
            print(f"REDUCED {o['name']} [{o['rule']}] {o['detail']}")
        if viol:
            rp = os.path.join(ROOT, "evidence", f"replay-{self.pid}.txt")
            with open(rp, "w") as f:
                f.write(f"property {self.pid}: violated obligations (re-derive with: python3 /verif/run.py {self.pid})\n\n")
                for name, rule, detail, where in viol:
                    f.write(f"obligation: {name}\nrule:       {rule}\nwhere:      {where}\nwhy:        {detail}\n\n")
            for name, rule, detail, where in viol:
                print(f"  {where}: {rule}: {name}: {detail}"[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if und:
            return 2
        if not self.obl:
            print("no obligations: analysis broken")
            return 2
        print(f"OK property={self.pid} obligations={len(self.obl)} proved={proved} reduced={len(reduced)} "
              f"functions={len(self.funcs)} partitions={self.partitions} wall={time.time() - self.t0:.1f}s")
        return 0


GRACE = 20  # seconds the other obligations get once one is violated


def wait_child(timeout=None):
    if timeout is None:
        return os.wait()[0]
    end = time.time() + timeout
    while time.time() < end:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid:
            return pid
        time.sleep(0.05)
    return None


WORKERS = min(8, os.cpu_count() or 1)


class Wit:
    """a witness unit: boolean functions over scalar arguments, each one obligation"""

    def __init__(self, c, name, prelude, anchor, flags=(), models=None, passes=None):
        self.c, self.name, self.code, self.anchor, self.flags, self.models = c, name, [prelude], anchor, flags, models
        self.passes = {"passes": passes} if passes else {}
        self.obs = []

    def add(self, txt):
        self.code.append(txt)

    def ob(self, fn, sig, body, ranges=None, rule="", anchor=None, **kw):
        fn = "w_" + fn
        names = [a.strip().split()[-1].lstrip("*&") for a in sig.split(",")] if sig.strip() else []
        r = {names.index(k): v for k, v in (ranges or {}).items() if k in names}
        self.code.append(f'extern "C" bool {fn}({sig}) {{ {body} }}')
        self.obs.append((fn, names, r, rule, anchor or self.anchor, kw))

    def run(self):
        m = self.c.tu(self.name, "\n".join(self.code), self.flags, **self.passes)
        jobs = [(fn, names, r, rule, anchor, dict(kw, models=self.models)) for fn, names, r, rule, anchor, kw in self.obs]
        self.c.prove_all(m, jobs)
        return m


LEVEL = {}


def show(v):
    if isinstance(v, PL.Fraction):
        return str(v.numerator) if v.denominator == 1 else repr(float(v))
    return str(v)


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def known_match(known, name, detail, where):
    for k in known:
        if k["obligation"] == name and all(s in (detail + " " + where) for s in k.get("contains", [])):
            return k
    return None


def load_check(pid):
    p = os.path.join(ROOT, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = None
    try:
        ensure_tools()
        mod = load_check(a.pid)
        LEVEL[a.pid] = getattr(mod, "LEVEL", "proof")
        c = Check(a.pid, tier, seed)
        c.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        mod.run(c)
        rc = c.finish()
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={a.pid}: {e}")
        rc = 2
        # obligations already refuted are still findings
        if c is not None and c.findings:
            rc = c.finish()
    finally:
        if c is not None:
            shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
