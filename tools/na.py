"""properties static analysis cannot decide here, with the reason"""
PD = "include/fiction/algorithms/physical_design/"
SI = "include/fiction/algorithms/simulation/sidb/"


def na(title, statement, forall, why, files, mechanism, reason, over=("inputs",)):
    return dict(title=title, statement=statement, forall=forall, why=why, files=files, mechanism=mechanism, reason=reason, over=list(over))


NA = {
    "N01": na("Placed and routed layouts implement the network they were made from",
              "Every physical design algorithm returns a layout that computes the same function as the network it was given and violates no design rule, "
              "or no layout at all.", "all networks, clocking schemes and parameters", "tests place a few benchmark networks",
              [PD + "orthogonal.hpp", PD + "exact.hpp", PD + "graph_oriented_layout_design.hpp", PD + "hexagonalization.hpp"],
              ["orthogonal_impl @ " + PD + "orthogonal.hpp", "exact_impl @ " + PD + "exact.hpp"],
              "The result is a heap-allocated layout built through mockturtle networks (not installed here) by whole-network search; its function is an invariant "
              "over unbounded networks, out of reach for a sound static domain. The building blocks below it (coordinates, topologies, coloring, libraries) are claimed."),
    "N02": na("Exact physical design finds a layout of minimal size",
              "The first layout exact physical design returns has the smallest area for which any valid layout exists.", "all networks and clocking schemes",
              "minimality is a statement about all smaller layouts", [PD + "exact.hpp"], ["exact_impl @ " + PD + "exact.hpp"],
              "The decision is delegated to Z3 at run time; whether the constraints generated are complete quantifies over all layouts of all networks. The "
              "enumeration order of sizes, which minimality also rests on, is claimed (C08)."),
    "N03": na("All ground-state simulators agree on the ground state",
              "Exhaustive, exact and cluster-complete simulation return the same ground states of every SiDB layout, and QuickSim's results are among the "
              "physically valid states.", "all SiDB layouts and parameters", "tests compare a handful of layouts",
              [SI + "quickexact.hpp", SI + "clustercomplete.hpp", SI + "exhaustive_ground_state_simulation.hpp", SI + "quicksim.hpp"],
              ["quickexact_impl @ " + SI + "quickexact.hpp"],
              "Equality of two search results over real-valued potentials of unbounded layouts; no static argument in reach relates the pruning rules to the "
              "exhaustive semantics with floating-point rounding."),
    "N04": na("Time limits are honoured",
              "Algorithms with a timeout return soon after it elapsed.", "all inputs and schedules", "timing is a property of executions",
              [PD + "exact.hpp", PD + "graph_oriented_layout_design.hpp"], ["timeout @ " + PD + "exact.hpp"],
              "Wall-clock time is not visible to static analysis; the number of steps between two checks of the clock depends on the solver and the search.",
              ("inputs", "schedules")),
    "N05": na("Simulated annealing approaches the optimum",
              "With enough cycles the state returned by simulated annealing is close to optimal.", "all cost landscapes", "it is a statistical statement",
              ["include/fiction/algorithms/optimization/simulated_annealing.hpp"],
              ["simulated_annealing @ include/fiction/algorithms/optimization/simulated_annealing.hpp"],
              "A probabilistic statement about unbounded random walks; what is decidable about each step and the result is claimed (C09, C10)."),
    "N06": na("Post-layout optimization never changes a layout's function and never enlarges it",
              "Optimizing a layout keeps its function and its design-rule cleanliness and does not increase its area.", "all layouts", "tests optimize a few layouts",
              [PD + "post_layout_optimization.hpp", PD + "wiring_reduction.hpp"], ["post_layout_optimization @ " + PD + "post_layout_optimization.hpp"],
              "The same obstacle as N01: an invariant over the whole layout graph maintained by search-based rewiring of unbounded depth."),
    "N07": na("File writers and readers round-trip every layout",
              "Reading a written layout gives a layout with the same dimensions, gates, cells, clocking and connections.", "all layouts", "tests cover a few files",
              ["include/fiction/io/write_fgl_layout.hpp", "include/fiction/io/read_fgl_layout.hpp", "include/fiction/io/read_sqd_layout.hpp"],
              ["read_fgl_layout @ include/fiction/io/read_fgl_layout.hpp"],
              "Parsing goes through tinyxml2 and std::regex, neither of which is available as analysable source here; the text between the two sides is unbounded."),
}
FIXED = []
NOTED = []
MISSED = {}
