"""C15: cell technology predicates."""
from vf import Wit

A = "include/fiction/technology/cell_technologies.hpp"
META = dict(
    title="Each cell technology classifies every cell type and mode unambiguously",
    statement="For every technology, each cell-type predicate is true for exactly the cell type it is named after (collective predicates - "
              "normal molQCA cells, constant cells, slanted-edge magnets - for exactly the union of their members), so no cell type is "
              "accepted by two basic predicates, and no other byte value is accepted at all. Cell modes are classified the same way "
              "(iNML and SiDB cells are always in normal mode); molQCA clock numbers are 0, 1, 2, 3 for the four normal cell types and 0 "
              "for every other cell. Cell types have the documented characters, cell marks have the value of the equally named cell type, "
              "and the cell dimensions are those documented (QCA 18x18 nm spaced 2 nm, molQCA 2x2 spaced 0, iNML 50x100 spaced 10 and "
              "25, SiDB 0x0 spaced 0.384).",
    forall="all 256 byte values of a cell type or mode in each of the four technologies",
    why="no test that builds here touches the predicates; the classification must be exact for every cell type",
    over=["inputs", "configurations"],
    files=[A],
    mechanism=["is_*_cell, is_*_cell_mode, cell_clock_number, enumerations @ " + A + ":20-420"],
    technique="abstract interpretation of LLVM IR over all byte values of each predicate's argument",
    note="Proved for all 256 values of each enumeration's underlying type; trusts clang and lib/.",
)

TYPES = {
    "qca": dict(t={"EMPTY": "' '", "NORMAL": "'x'", "INPUT": "'i'", "OUTPUT": "'o'", "CONST_0": "'0'", "CONST_1": "'1'"},
                p={"is_empty_cell": ["EMPTY"], "is_normal_cell": ["NORMAL"], "is_input_cell": ["INPUT"], "is_output_cell": ["OUTPUT"],
                   "is_const_0_cell": ["CONST_0"], "is_const_1_cell": ["CONST_1"], "is_constant_cell": ["CONST_0", "CONST_1"]},
                m=["EMPTY", "INPUT", "OUTPUT"], mode=True, dim=("18", "18", "2", "2")),
    "mol_qca": dict(t={"EMPTY": "' '", "NORMAL1": "'a'", "NORMAL2": "'b'", "NORMAL3": "'c'", "NORMAL4": "'d'", "INPUT": "'i'",
                       "OUTPUT": "'o'", "CONST_0": "'0'", "CONST_1": "'1'"},
                    p={"is_empty_cell": ["EMPTY"], "is_normal_cell": ["NORMAL1", "NORMAL2", "NORMAL3", "NORMAL4"],
                       "is_normal_cell1": ["NORMAL1"], "is_normal_cell2": ["NORMAL2"], "is_normal_cell3": ["NORMAL3"],
                       "is_normal_cell4": ["NORMAL4"], "is_input_cell": ["INPUT"], "is_output_cell": ["OUTPUT"],
                       "is_const_0_cell": ["CONST_0"], "is_const_1_cell": ["CONST_1"], "is_constant_cell": ["CONST_0", "CONST_1"]},
                    m=["EMPTY", "INPUT", "OUTPUT"], mode=True, dim=("2", "2", "0", "0")),
    "inml": dict(t={"EMPTY": "' '", "NORMAL": "'x'", "INPUT": "'i'", "OUTPUT": "'o'", "SLANTED_EDGE_UP_MAGNET": "'u'",
                    "SLANTED_EDGE_DOWN_MAGNET": "'d'", "INVERTER_MAGNET": "'n'", "CROSSWIRE_MAGNET": "'c'",
                    "FANOUT_COUPLER_MAGNET": "'f'"},
                 p={"is_empty_cell": ["EMPTY"], "is_normal_cell": ["NORMAL"], "is_input_cell": ["INPUT"], "is_output_cell": ["OUTPUT"],
                    "is_slanted_edge_up_magnet": ["SLANTED_EDGE_UP_MAGNET"], "is_slanted_edge_down_magnet": ["SLANTED_EDGE_DOWN_MAGNET"],
                    "is_slanted_edge_magnet": ["SLANTED_EDGE_UP_MAGNET", "SLANTED_EDGE_DOWN_MAGNET"],
                    "is_inverter_magnet": ["INVERTER_MAGNET"], "is_crosswire_magnet": ["CROSSWIRE_MAGNET"],
                    "is_fanout_coupler_magnet": ["FANOUT_COUPLER_MAGNET"]},
                 m=["EMPTY", "INPUT", "OUTPUT"], mode=False, dim=("50", "100", "10", "25")),
    "sidb": dict(t={"EMPTY": "' '", "NORMAL": "'x'", "INPUT": "'i'", "OUTPUT": "'o'", "LOGIC": "'l'"},
                 p={"is_empty_cell": ["EMPTY"], "is_normal_cell": ["NORMAL"], "is_input_cell": ["INPUT"], "is_output_cell": ["OUTPUT"],
                    "is_logic_cell": ["LOGIC"]},
                 m=["EMPTY", "INPUT", "OUTPUT", "LOGIC"], mode=False, dim=("0.0", "0.0", "0.384", "0.384")),
}
MODES = {"is_normal_cell_mode": ("NORMAL", 0), "is_rotated_cell_mode": ("ROTATED", 1), "is_vertical_cell_mode": ("VERTICAL", 2),
         "is_crossover_cell_mode": ("CROSSOVER", 3)}


def run(c):
    w = Wit(c, "c15", "#include <fiction/technology/cell_technologies.hpp>\n#include <cstdint>", A)
    for t, d in TYPES.items():
        T = f"fiction::{t}_technology"
        for p, members in d["p"].items():
            spec = " || ".join(f"v == {d['t'][m]}" for m in members)
            w.ob(f"{t}_{p}", "uint8_t v", f"return {T}::{p}(static_cast<{T}::cell_type>(v)) == ({spec});", {}, "predicate-exact")
        for n, ch in d["t"].items():
            w.ob(f"{t}_type_{n}", "", f"return static_cast<uint8_t>({T}::cell_type::{n}) == {ch};", {}, "documented-character")
        for n in d["m"]:
            w.ob(f"{t}_mark_{n}", "", f"return static_cast<uint8_t>({T}::cell_mark::{n}) == {d['t'][n]};", {}, "mark-equals-type")
        if d["mode"]:
            for p, (n, v) in MODES.items():
                w.ob(f"{t}_{p}", "uint8_t v", f"return {T}::{p}(static_cast<{T}::cell_mode>(v)) == (v == {v}) && "
                     f"static_cast<uint8_t>({T}::cell_mode::{n}) == {v};", {}, "predicate-exact")
        else:
            w.ob(f"{t}_is_normal_cell_mode", "", f"return {T}::is_normal_cell_mode({T}::cell_mode{{}});", {}, "predicate-exact")
        for n, v in zip(("CELL_WIDTH", "CELL_HEIGHT", "CELL_HSPACE", "CELL_VSPACE"), d["dim"]):
            w.ob(f"{t}_{n}", "", f"return {T}::{n} == {v};", {}, "documented-dimension")
    w.ob("mol_clock", "uint8_t v", "return fiction::mol_qca_technology::cell_clock_number(static_cast<fiction::mol_qca_technology::"
         "cell_type>(v)) == (v == 'b' ? 1u : v == 'c' ? 2u : v == 'd' ? 3u : 0u);", {}, "clock-number")
    w.run()
