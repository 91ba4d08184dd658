"""Source of properties.jsonl and MANIFEST.json: python3 tools/catalog.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/oemof/solph/"
INP, CFG, PRG, HIST = "inputs", "configurations", "programs", "histories"
FAULT = "fault_sequences"
MON = ("runtime monitoring: random systems are built, solved and read back "
       "through the public API; ")
REFT = MON + ("an independent reference model (row residuals on the observed "
              "trajectory, optimum bracket, recomputed costs, expected "
              "rejections) is the oracle")
TRUST = ("Held on the executions counted in the evidence file; trusts glpk/"
         "cbc/HiGHS on small models (a mismatch must show with two solvers) "
         "and the hand-written reference semantics in vf/ref.py.")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=REFT,
         note=TRUST, claimed=True, reason=None, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=[S + f for f in files],
        mech=[{"name": a, "where": S + b} for a, b in mech],
        technique=technique, note=note, claimed=claimed, reason=reason,
        observe=observe or ["variable values of the solved model",
                            "objective value", "solve outcome"]))


prop("C01", "Every balanced bus is balanced in every timestep",
     "In every solution, the flows into a balanced bus add up to the flows "
     "out of it in every timestep, also for buses connected directly to "
     "other buses and for arbitrary topologies. A bus declared unbalanced "
     "imposes nothing. The balance never excludes a dispatch the other "
     "limits allow.",
     [INP, CFG], "all topologies, flow parameters and time axes",
     "Tests use a few fixed networks and compare single totals.",
     ["buses/_bus.py", "_models.py"],
     [("bus balance rule", "buses/_bus.py: BusBlock"),
      ("flow registration", "_models.py: Model._add_parent_block_sets")])

prop("C02", "Flows respect capacity, limits, fixed profiles and integrality",
     "Every flow of a solution lies between its minimum and maximum times "
     "its nominal capacity in every timestep, equals a given fixed profile "
     "times the capacity, and is a whole number if declared integer; flows "
     "are non-negative unless a negative minimum declares them "
     "bidirectional. Nothing tighter than these limits is imposed, so the "
     "cheapest admissible dispatch stays reachable.",
     [INP, CFG], "all scalar and per-timestep limit profiles, also partly "
     "negative minima, zero capacities and contradictory limits",
     "Tests check a handful of profiles; mixtures of scalar/sequence limits, "
     "integer and bidirectional flows are not sampled.",
     ["flows/_flow.py", "flows/_simple_flow_block.py", "_models.py"],
     [("bounds and fixing", "_models.py: Model._add_parent_block_variables"),
      ("integer coupling", "flows/_simple_flow_block.py")])

prop("C03", "Full load time and gradient limits of flows hold",
     "The energy of a flow over the whole horizon (sum of power times "
     "interval length) is at most/at least the given full load time times "
     "the nominal capacity, and the change of a flow from one timestep to "
     "the next stays within the given positive and negative gradient limits "
     "times the nominal capacity. A schedule within these limits is never "
     "excluded.",
     [INP, CFG], "all limit values, interval lengths and horizons",
     "Tests have one example per option on equidistant axes.",
     ["flows/_simple_flow_block.py", "flows/_flow.py"],
     [("full load time", "flows/_simple_flow_block.py"),
      ("gradient constraints", "flows/_simple_flow_block.py")])

prop("C04", "Converter and Link couple their flows by the given factors",
     "A converter's inputs and outputs are proportional in every timestep: "
     "input times the output's factor equals output times the input's "
     "factor, for every input-output pair and every number of inputs and "
     "outputs, with unspecified factors being one. A link's output equals "
     "its input times the factor of that pair for each declared direction.",
     [INP, CFG], "all port counts, factor profiles and time axes",
     "Tests check single fixed factors.",
     ["components/_converter.py", "components/_link.py"],
     [("conversion relation", "components/_converter.py: ConverterBlock"),
      ("link relation", "components/_link.py: LinkBlock")])

prop("C05", "OffsetConverter follows its affine part-load curve",
     "While an offset converter runs, each other flow equals the reference "
     "flow times its conversion factor plus the normed offset times the "
     "nominal capacity; while it is off all its flows are zero, for inputs "
     "and outputs as the reference and for given or optimised capacity. "
     "The helper functions that derive slope and offset from the "
     "efficiencies at minimum and maximum load yield a curve through both "
     "of these points, for any loads and either reference side, and the "
     "part-load plot shows the curve that is used.",
     [INP, CFG], "all factors, offsets, loads, profiles, capacities",
     "Tests cover a few coefficient sets with maximum load 1.",
     ["components/_offset_converter.py"],
     [("relation block",
       "components/_offset_converter.py: OffsetConverterBlock"),
      ("slope/offset helpers", "components/_offset_converter.py: "
       "slope_offset_from_nonconvex_input/_output")])

prop("C06", "ExtractionTurbineCHP stays in its operating region",
     "The fuel use of an extraction turbine is exactly the equivalent power "
     "in full condensation mode (power plus heat weighted by the power-loss "
     "index) divided by the full-condensation efficiency, and power never "
     "falls below the backpressure ratio to heat given by the two "
     "conversion factors. Every point of that region is reachable.",
     [INP, CFG], "all efficiencies, profiles, whichever output is tapped",
     "Tests check one fixed parameter set.",
     ["components/_extraction_turbine_chp.py"],
     [("fuel and ratio relations", "components/_extraction_turbine_chp.py")])

prop("C07", "GenericCHP stays on its fuel curve and in its operating region",
     "While a generic CHP runs, its fuel use lies between the values at "
     "minimum and maximum power without heat extraction and follows the "
     "line through these points at the equivalent power (power plus "
     "power-loss index times heat); power, heat, minimal cooling and the "
     "given flue gas losses respect the fuel balance as an inequality (an "
     "equation for back-pressure operation). When off all flows are zero.",
     [INP, CFG], "all parameter profiles, back-pressure and extraction",
     "Tests have one model per operation mode.",
     ["components/_generic_chp.py"],
     [("CHP relations", "components/_generic_chp.py: GenericCHPBlock"),
      ("line through operating points", "components/_generic_chp.py: "
       "GenericCHP._calculate_alphas")])

prop("C08", "A storage of given size follows its energy ledger",
     "The content of a storage after each timestep equals the content "
     "before, reduced by the relative self-discharge compounded over the "
     "interval and the fixed losses, plus charged energy times inflow "
     "efficiency minus discharged energy over outflow efficiency, for any "
     "interval length. Content stays within the level limits at every "
     "point in time, starts at the given level, and ends where it started "
     "if the storage is balanced; saturation-dependent charging limits hold "
     "where configured. Every trajectory obeying this is available.",
     [INP, CFG], "all loss, efficiency, level profiles and interval lengths",
     "Tests sample a few parameter sets on mostly hourly axes.",
     ["components/_generic_storage.py"],
     [("storage balance", "components/_generic_storage.py: "
       "GenericStorageBlock"),
      ("saturation", "components/_generic_storage.py")])

prop("C10", "Optimised flow capacities bound the flow and are sized right",
     "With an optimised capacity the available capacity is the invested "
     "amount plus the existing capacity; all limits, fixed profiles and full "
     "load times of the flow scale with it. The invested amount lies within "
     "the given minimum and maximum, or is zero if the investment is "
     "optional, and costs its specific costs plus, if made, the offset; "
     "the least-cost sizing is found.",
     [INP, CFG], "all investment parameters, profiles, topologies",
     "Tests check a few generated LP files and one optimum.",
     ["flows/_investment_flow_block.py", "_options.py"],
     [("capacity and limits", "flows/_investment_flow_block.py: "
       "InvestmentFlowBlock"), ("parameters", "_options.py: Investment")])

prop("C11", "Optimised storage sizes, couplings and levels are consistent",
     "With an optimised storage size, content never exceeds the maximal "
     "level times invested plus existing size nor falls below the minimal "
     "level, the initial content and the fixed relative losses scale with "
     "that size, and given ratios between charging capacity, discharging "
     "capacity and storage size hold exactly. Size limits, optional "
     "investment with offset and the resulting costs follow the same rules "
     "as for flows, and the least-cost size is found.",
     [INP, CFG], "all size, coupling, loss and level parameters",
     "Tests compare a few LP files.",
     ["components/_generic_storage.py"],
     [("investment storage", "components/_generic_storage.py: "
       "GenericInvestmentStorageBlock")])

prop("C12", "On/off operation: status, start-ups, shutdowns and gradients",
     "A flow with on/off operation is zero when off and within its minimum "
     "and maximum load when on; start-ups and shutdowns (counted against the "
     "initial status as well) are charged and limited as given, activity and "
     "inactivity costs are charged per timestep on or off, and gradient "
     "limits bound the change between timesteps in which it stays on. Every "
     "schedule allowed by these rules is available at exactly these costs.",
     [INP, CFG], "all nonconvex parameters, initial states and profiles",
     "Tests check one option each.",
     ["flows/_non_convex_flow_block.py", "flows/_shared.py", "_options.py"],
     [("status, startup, shutdown", "flows/_shared.py"),
      ("nonconvex flow", "flows/_non_convex_flow_block.py"),
      ("parameters", "_options.py: NonConvex")])

prop("C13", "Minimum up- and downtimes and initial states are kept",
     "After switching on (off), a flow stays on (off) for at least the given "
     "number of timesteps or to the end of the horizon, for scalar and "
     "per-timestep minimum times; the initial status is held for the "
     "corresponding minimum time from the start, and switching right after "
     "it counts as switching. Nothing else is forbidden.",
     [INP, CFG], "all minimum times, initial states, horizons from one step",
     "Tests cover three hand-made schedules.",
     ["flows/_shared.py", "flows/_non_convex_flow_block.py",
      "flows/_invest_non_convex_flow_block.py", "_options.py"],
     [("minimum up/downtime", "flows/_shared.py"),
      ("first flexible timestep", "_options.py: NonConvex")],
     note=TRUST + " Whether a switch near the end of the horizon may be cut "
     "off is left open by the documentation; both readings are accepted.")

prop("C14", "On/off operation with optimised capacity is exact",
     "A flow with both on/off operation and an optimised capacity is zero "
     "when off and between its minimum and maximum load times the total "
     "(invested plus existing) capacity when on; invested amount, offset, "
     "start-up and activity costs are charged as for the separate options. "
     "No admissible combination of size and schedule is excluded.",
     [INP, CFG], "all investment and on/off parameters",
     "Tests compare two LP files and one system.",
     ["flows/_invest_non_convex_flow_block.py", "flows/_shared.py"],
     [("product of status and capacity",
       "flows/_invest_non_convex_flow_block.py")])

sys.path.insert(0, os.path.join(HERE, "tools"))
try:
    import catalog_more
    catalog_more.add(prop, MON, REFT, TRUST)
except ImportError:
    pass


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"],
                            "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 3, p["id"]
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick",
            "thorough_cmd":
                f"/opt/venv/bin/python check.py {p['id']} thorough",
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"]} for p in P if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                           for p in P if not p["claimed"]],
        "notes": "No hooks in /repo: every monitor observes public results "
                 "and the variables of the solved model. Known findings and "
                 "repaired defects: known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(man["checks"]), "claimed")


if __name__ == "__main__":
    main()
