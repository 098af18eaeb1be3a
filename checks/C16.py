"""C16: charge states."""
from vf import Wit
import stdmodels

A = "include/fiction/technology/sidb_charge_state.hpp"
META = dict(
    title="Charge states, signs, base lists and configuration strings agree",
    statement="Negative, neutral and positive charge states have the signs -1, 0 and +1 and converting a state to its sign and back yields "
              "the state; a state outside of these has sign 0 and a sign outside of -1, 0, +1 yields the state 'none'. The states of "
              "base 2 are negative and neutral, those of every other base negative, neutral and positive, in this order. The textual "
              "form of a charge configuration lists one character per DB in order, '-', '0' or '+', and nothing for DBs without a state.",
    forall="all 256 signs and state values; configurations of up to four DBs, each in any of the four states",
    why="the test checks a few strings and the three signs; the mapping must be total and position-independent",
    files=[A],
    mechanism=["charge_state_to_sign, sign_to_charge_state, sidb_charge_states_for_base_number, charge_configuration_to_string @ " + A +
               ":20-160"],
    technique="abstract interpretation of LLVM IR with abstract string streams over witness units",
    note="Proved for all signs and states; the string form is decided for all configurations of up to four DBs; longer "
         "configurations are not explored; trusts clang and lib/.",
)
VALID = "(q == -1 || q == 0 || q == 1)"


def run(c):
    w = Wit(c, "c16", "#include <fiction/technology/sidb_charge_state.hpp>\n#include <cstdint>\n#include <string>\n#include <vector>\n"
            "using CS = fiction::sidb_charge_state;\n"
            "static inline bool known(int8_t a) { return a == -1 || a == 0 || a == 1 || a == 127; }\n"
            "static inline void put(char* e, unsigned& n, int8_t a) { if (a == 127) { return; } e[n] = a == -1 ? '-' : a == 0 ? '0' : "
            "'+'; ++n; }", A, models=stdmodels.STREAMS)
    w.ob("enum", "", "return static_cast<int>(CS::NEGATIVE) == -1 && static_cast<int>(CS::NEUTRAL) == 0 && static_cast<int>("
         "CS::POSITIVE) == 1 && CS::NONE != CS::NEGATIVE && CS::NONE != CS::NEUTRAL && CS::NONE != CS::POSITIVE;", {}, "enumerators")
    s8 = {"q": (-128, 127)}
    w.ob("to_sign", "int8_t q", "return fiction::charge_state_to_sign(static_cast<CS>(q)) == (q == -1 ? -1 : q == 1 ? 1 : 0);", s8,
         "sign-of-state")
    w.ob("to_state", "int8_t q", "return fiction::sign_to_charge_state(q) == (q == -1 ? CS::NEGATIVE : q == 0 ? CS::NEUTRAL : q == 1 ? "
         "CS::POSITIVE : CS::NONE);", s8, "state-of-sign")
    w.ob("inverse", "int8_t q", f"if (!{VALID}) {{ return true; }} return fiction::charge_state_to_sign(fiction::sign_to_charge_state(q)) "
         "== q && static_cast<int8_t>(fiction::sign_to_charge_state(fiction::charge_state_to_sign(static_cast<CS>(q)))) == q;", s8,
         "mutually-inverse")
    w.ob("base", "uint8_t b", "const auto v = fiction::sidb_charge_states_for_base_number(b); if (b == 2) { return v.size() == 2 && v[0] "
         "== CS::NEGATIVE && v[1] == CS::NEUTRAL; } return v.size() == 3 && v[0] == CS::NEGATIVE && v[1] == CS::NEUTRAL && v[2] == "
         "CS::POSITIVE;", {}, "states-of-base", init=True)
    w.ob("empty", "", "return fiction::charge_configuration_to_string({}).size() == 0;", {}, "string-form")
    for n in range(1, 5):
        a = [f"q{i}" for i in range(n)]
        w.ob(f"string{n}", ", ".join("int8_t " + x for x in a),
             "if (!(" + " && ".join(f"known({x})" for x in a) + ")) { return true; } std::vector<CS> v{" +
             ", ".join(f"static_cast<CS>({x})" for x in a) + "}; const std::string s = fiction::charge_configuration_to_string(v); "
             "char e[8]; unsigned n = 0; " + " ".join(f"put(e, n, {x});" for x in a) +
             " if (s.size() != n) { return false; } for (unsigned i = 0; i < n; ++i) { if (s[i] != e[i]) { return false; } } return true;",
             {x: (-128, 127) for x in a}, "string-form")
    w.run()
