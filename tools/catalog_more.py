"""Catalogue entries C15 onwards (see catalog.py)."""
INP, CFG, PRG, HIST = "inputs", "configurations", "programs", "histories"
FAULT = "fault_sequences"


def add(prop, MON, REFT, TRUST):
    prop("C15", "The objective is exactly the sum of all declared costs",
         "The reported objective value equals the sum of the declared cost "
         "terms evaluated on the reported schedule and sizes: variable costs "
         "weighted by interval length and objective weighting, investment, "
         "on/off and storage costs, and the cost expressions of the model's "
         "blocks add up to it. No term is lost, counted twice or charged "
         "to an undeclared item, in any combination of component kinds.",
         [INP, CFG], "all compositions of components, objective weightings "
         "and period structures",
         "Tests compare totals of fixed systems.",
         ["_models.py", "flows/_simple_flow_block.py",
          "flows/_investment_flow_block.py", "flows/_shared.py",
          "components/_generic_storage.py"],
         [("objective assembly", "_models.py: Model._add_objective"),
          ("meta results", "processing.py: meta_results")],
         observe=["objective value", "meta results",
                  "variable values of the solved model"])

    prop("C16", "Composed systems are solved to the specified optimum",
         "For any composition of component kinds that share buses, the "
         "optimum equals that of the documented mathematical description: "
         "components neither interfere with each other nor lose constraints "
         "when combined, and infeasible descriptions are rejected while "
         "feasible ones are accepted.",
         [CFG, INP], "all mixtures of components, flows and options",
         "Tests build each feature alone or in two fixed large systems.",
         ["_models.py", "_groupings.py"],
         [("grouping into blocks", "_groupings.py"),
          ("model assembly", "_models.py: Model")])

    prop("C18", "Integral and emission limits bound the weighted sum of flows",
         "An emission limit or generic integral limit keeps the sum of flow "
         "times factor times interval length over exactly the flows that "
         "carry the keyword (or those given) within the upper and lower "
         "limits, over the horizon or within each period; it excludes "
         "nothing else and its recorded total equals that sum.",
         [INP, CFG], "all flow selections, factor profiles, limits, periods",
         "Tests check one limit per function and API errors.",
         ["constraints/integral_limit.py"],
         [("limits", "constraints/integral_limit.py")])

    prop("C19", "Limits on investment costs and invested resources hold",
         "An investment limit keeps the total investment expenses, and an "
         "additional investment limit the sum of invested amounts times the "
         "declared property, within the limit, counting every flow and "
         "storage with investment (only those carrying the keyword for the "
         "latter), over the horizon or per period. Models without such "
         "investments and mixtures of investment kinds are handled alike.",
         [INP, CFG], "all mixtures of investment kinds and limits",
         "Tests check one fixed system per function.",
         ["constraints/investment_limit.py"],
         [("limits", "constraints/investment_limit.py")])

    prop("C20", "Coupling constraints: equated, shared and counted flows",
         "Equated flows or variables keep the given ratio in every timestep, "
         "a shared limit keeps the weighted sum of the listed quantities "
         "within its limits in every timestep, and the number of active "
         "flows stays within the given counts in every timestep. Exactly the "
         "listed (or keyword-carrying) items are affected.",
         [INP, CFG], "all selections, factors, weights, limits",
         "Tests check one LP file each.",
         ["constraints/equate_flows.py", "constraints/equate_variables.py",
          "constraints/shared_limit.py", "constraints/flow_count_limit.py"],
         [("equality", "constraints/equate_flows.py"),
          ("shared limit", "constraints/shared_limit.py"),
          ("active flow count", "constraints/flow_count_limit.py")])

    prop("C21", "Storage level constraints gate ports by the content",
         "An output gated by a storage level can only be used in timesteps "
         "in which the content is at or above its level, an input only when "
         "the content is at or below its level; the multiplexer connects the "
         "ports to the storage without losses and forbids nothing else.",
         [INP, CFG], "all level sets, port sets and storage parameters",
         "Tests check one fixed example.",
         ["constraints/storage_level.py"],
         [("level-dependent activation", "constraints/storage_level.py")])

    prop("C31", "Multi-period models carry capacities along as documented",
         "The available capacity of an optimised flow or storage in a period "
         "is what was invested in this and earlier periods plus what exists, "
         "less whatever has reached the end of its lifetime, counted in "
         "years; limits per period and overall limits hold in every period. "
         "Schedules and storage contents respect the capacity of the period "
         "they fall into, and storages carry content over period borders.",
         [INP, CFG, HIST], "all sequences of periods, lifetimes, ages and "
         "investments",
         "Tests solve a few fixed multi-period systems with LP files.",
         ["flows/_investment_flow_block.py",
          "components/_generic_storage.py", "_energy_system.py"],
         [("capacity ledger", "flows/_investment_flow_block.py"),
          ("storage capacity ledger", "components/_generic_storage.py"),
          ("period lengths", "_energy_system.py")])

    prop("C32", "Multi-period models charge annuities, fixed costs, discounts",
         "The objective of a multi-period model charges every investment the "
         "annuity of its specific costs over its lifetime for the years it "
         "is in use within the horizon, yearly fixed costs for each year in "
         "use (existing capacity until it retires), and variable costs of a "
         "period, all discounted to the first year with the discount rate; "
         "a remaining value is credited only if asked for.",
         [INP, CFG, HIST], "all discount rates, lifetimes, ages, period "
         "structures and cost profiles",
         "Tests compare LP files of fixed systems.",
         ["flows/_investment_flow_block.py",
          "components/_generic_storage.py",
          "flows/_simple_flow_block.py"],
         [("investment costs", "flows/_investment_flow_block.py"),
          ("storage investment costs", "components/_generic_storage.py"),
          ("variable and fixed costs", "flows/_simple_flow_block.py")],
         note=TRUST + " Investments, annuities and fixed costs are discounted "
         "year by year as the code and its LP tests do; the prose of the "
         "documentation is not precise there.")

    prop("C22", "Time axes: interval lengths are elapsed time",
         "The length of a timestep is the elapsed time between its "
         "boundaries in hours, for regular and irregular indices, across "
         "time zone shifts, with inferred last interval or given increments; "
         "result labels are the given points in time. Ambiguous or "
         "contradictory axes are refused, helper functions create the axis "
         "they promise, and period matrices count whole years.",
         [INP, CFG], "all indices, frequencies, time zones and increments",
         "Tests use hourly 2012 indices and a few hand-made cases.",
         ["_energy_system.py"],
         [("time index handling", "_energy_system.py: EnergySystem.__init__"),
          ("default index", "_energy_system.py: create_time_index"),
          ("period bookkeeping", "_energy_system.py: "
           "_extract_periods_years")],
         technique=MON + "labels, increments and period data of random time "
         "axes are compared with elapsed time between UTC stamps",
         note="Held on the axes counted in the evidence file; trusts pandas "
         "and the time zone database.",
         observe=["time increments", "result index", "period data",
                  "exceptions"])

    prop("C23", "Results do not depend on resolution and units chosen",
         "Splitting intervals of constant parameters leaves the optimum "
         "unchanged, expressing time, power or money in another unit scales "
         "all results accordingly, and systems without inter-temporal "
         "coupling decompose into their timesteps.",
         [INP, CFG, HIST], "all dispatch and investment systems with "
         "per-energy, per-power and per-event parameters",
         "Tests never run the same system in two resolutions.",
         ["flows/_simple_flow_block.py", "flows/_non_convex_flow_block.py",
          "flows/_investment_flow_block.py",
          "components/_generic_storage.py", "_models.py"],
         [("interval weighting", "flows/_simple_flow_block.py"),
          ("losses per hour", "components/_generic_storage.py"),
          ("objective weighting", "_models.py")],
         technique=MON + "metamorphic monitors compare two runs of the same "
         "system in different resolutions or units",
         note="Held on the pairs of runs counted in the evidence file; "
         "trusts the solvers on small models.",
         observe=["objective values of paired runs"])

    prop("C24", "The Results object is a faithful view of the solved model",
         "Every optimisation variable is available under its name with its "
         "solved values, for exactly the flows and components that carry "
         "it, labelled with the points in time (or periods) it belongs to; "
         "derived cost columns equal what was charged in the objective.",
         [CFG, HIST], "all component mixtures, time axes, single- and "
         "multi-period models",
         "Tests access single entries of fixed systems.",
         ["_results.py"],
         [("variable lookup", "_results.py: Results.__getitem__, get, to_df"),
          ("variable costs", "_results.py: Results._calc_variable_costs"),
          ("investment costs", "_results.py: Results._calc_capex, _calc_offset")],
         technique=MON + "every entry of the Results object is compared with "
         "the variable values read from the model",
         note="Held on the solved systems counted in the evidence file.",
         observe=["Results frames", "variable values of the solved model"])

    prop("C25", "Result dictionary and views lose or mislabel nothing",
         "processing.results returns, for exactly the flows and nodes of the "
         "model, all variable values as sequences, scalars and per-period "
         "values under the right labels, and they survive being stored with "
         "the system; node, type and filter views select "
         "exactly the entries they name, keep their values, and the net "
         "storage flow is discharge minus charge.",
         [CFG, HIST], "all component mixtures, time axes and view selections",
         "Tests read single columns of fixed systems.",
         ["processing.py", "views.py"],
         [("result extraction", "processing.py: results"),
          ("label conversion", "processing.py: convert_keys_to_strings"),
          ("views", "views.py: node, filter_nodes, node_weight_by_type, "
           "node_output_by_type, net_storage_flow")],
         technique=MON + "the dictionary and all views are compared entry by "
         "entry with the variable values read from the model",
         note="Held on the solved systems counted in the evidence file. "
         "Whether the last (empty) time point is kept follows the code; the "
         "docstring promises it differently.",
         observe=["result dictionary", "views",
                  "variable values of the solved model"])

    prop("C17", "Only proven optima are presented as results",
         "Model.solve returns results exactly if the solver reports success "
         "and optimality; otherwise it raises an error naming status and "
         "termination condition or, if tolerated, warns and hands back the "
         "solver's answer. Options reach the solver unchanged, repeated "
         "solves of one model report the latest run, and relaxing or "
         "building the model stepwise changes nothing else.",
         [FAULT, HIST, CFG], "all statuses, termination conditions, solver "
         "crashes, option sets and sequences of solves",
         "Tests check one infeasible model.",
         ["_models.py", "processing.py"],
         [("status check", "_models.py: Model.solve"),
          ("relaxation", "_models.py: Model.relax_problem"),
          ("stepwise construction", "_models.py: Model._construct")],
         technique=MON + "a recording stand-in for the solver injects every "
         "status, termination condition and crash; histories of solves on "
         "one model are compared with fresh runs",
         note="Held on the runs counted in the evidence file; the stand-in "
         "answers through pyomo's solver interface.",
         observe=["return value, exception and warnings of Model.solve",
                  "calls the solver received", "objective value"])

    prop("C26", "The parameter dictionary holds the parameters given",
         "parameter_as_dict lists every flow and node of an energy system or "
         "model exactly once, with every parameter that was given, constants "
         "as scalars and series as sequences with unchanged values, "
         "including nested investment and custom parameters. Excluding None "
         "or named attributes removes these and nothing else.",
         [CFG, INP], "all component kinds, parameter shapes and exclusions",
         "Tests look at a fixed system of a few components.",
         ["processing.py"],
         [("attribute extraction", "processing.py: __separate_attrs"),
          ("parameter dictionary", "processing.py: parameter_as_dict")],
         technique=MON + "the dictionary is compared attribute by attribute "
         "with the parameters handed to the constructors",
         note="Held on the systems counted in the evidence file.",
         observe=["parameter dictionary"])

    prop("C28", "Equivalent notations describe the same model",
         "Constants and constant series (in any container), former and "
         "current parameter names, documented defaults given or left out, "
         "flows attached at either end, equivalent time axes and keyword or "
         "explicit forms of constraint helpers all lead to the same "
         "optimisation model. Sequence helpers return the value given for "
         "every index and refuse tables and wrong lengths.",
         [INP, CFG, PRG], "all systems and all combinations of notations",
         "Tests use one notation per feature.",
         ["_plumbing.py", "flows/_flow.py", "_options.py",
          "components/_generic_storage.py", "_energy_system.py"],
         [("sequences", "_plumbing.py: sequence, valid_sequence, "
           "_FakeSequence"),
          ("former names", "flows/_flow.py: Flow.__init__"),
          ("options", "_options.py: Investment, NonConvex")],
         technique=MON + "models built from two notations are compared row "
         "by row in a canonical form (ties broken by solving both)",
         note="Held on the pairs counted in the evidence file; trusts "
         "pyomo's standard form of linear expressions.",
         observe=["rows, bounds and objective of the built models",
                  "warnings"])

    prop("C29", "Models depend on the system, not on how it is told",
         "The optimisation model does not depend on the order in which nodes "
         "are created or added (in one or several steps), on their labels, "
         "on hashing or on use in an earlier system; unconnected "
         "nodes and unused properties add nothing, independent systems in "
         "one model do not influence each other. Building, solving and "
         "reading results leave the energy system and all data handed over "
         "unchanged: a model takes the values its components have when it is "
         "built, and a second model is identical to the first.",
         [PRG, HIST, CFG], "all systems, orders, labels and build histories",
         "Tests build every system once and in one order.",
         ["_models.py", "_groupings.py", "_energy_system.py",
          "processing.py"],
         [("grouping", "_groupings.py"), ("model assembly", "_models.py"),
          ("parameter handling", "flows/_flow.py, components")],
         technique=MON + "models of transformed descriptions are compared "
         "row by row in a canonical form (ties broken by solving both); "
         "copies of all arguments are kept and compared afterwards",
         note="Held on the pairs counted in the evidence file; trusts "
         "pyomo's standard form of linear expressions.",
         observe=["rows, bounds and objective of the built models",
                  "argument objects before and after"])

    prop("C34", "Contradictory descriptions are refused, valid ones accepted",
         "Limits or profiles without a capacity, infinite capacities, fixed "
         "profiles with limits, both names of a renamed parameter, "
         "inconsistent investment, storage, converter and constraint "
         "parameters, too short series, duplicate labels and inconsistent "
         "time axes raise an error before solving, wherever in a series the "
         "fault is. The closest well-formed description is accepted, and "
         "suspicious ones cause a warning.",
         [INP, CFG], "all parameter values and positions violating a rule",
         "Tests try one value per rule, mostly scalars.",
         ["flows/_flow.py", "_options.py", "components/_generic_storage.py",
          "components/_offset_converter.py", "_energy_system.py",
          "constraints/integral_limit.py", "constraints/investment_limit.py"],
         [("flow checks", "flows/_flow.py: Flow.__init__"),
          ("investment checks", "_options.py: Investment"),
          ("storage checks", "components/_generic_storage.py: "
           "GenericStorage._check_*"),
          ("converter checks", "components/_offset_converter.py")],
         technique=MON + "every rule is exercised with random ill-formed "
         "and neighbouring well-formed descriptions; the exception monitor "
         "decides",
         note="Held on the descriptions counted in the evidence file. Any "
         "error counts as a refusal, its wording is not judged.",
         observe=["exceptions", "warnings"])

    prop("C33", "Aggregated time series stand for the original time axis",
         "A model with typical periods takes exactly the decisions, and "
         "reports exactly the costs, of the system with the typical periods "
         "repeated in the given order and operation decided once for each: "
         "storage contents run on over the whole horizon, limits, budgets, "
         "full load times and costs count every repetition. Results are "
         "labelled and unfolded accordingly.",
         [INP, CFG], "all orders, numbers and lengths of typical periods and "
         "segments, one and several investment periods",
         "Tests compare single results of five fixed systems.",
         ["_models.py", "_energy_system.py", "processing.py",
          "components/_generic_storage.py", "flows/_simple_flow_block.py",
          "constraints/integral_limit.py"],
         [("weights", "_models.py: Model.tsam_weighting"),
          ("inter and intra contents", "components/_generic_storage.py: "
           "_inter_storage_balance_rule, _intra_storage_balance_rule"),
          ("unfolding", "processing.py: _disaggregate_tsa_result")],
         technique=MON + REFT, note=TRUST + " Contents of sized storages at "
         "the end of the horizon are known findings; transition costs, "
         "content-dependent constraints and duals are not combined with "
         "aggregation.")

    prop("C35", "Compressed air storages follow their published equations",
         "A GenericCAES compresses, stores and expands as stated: power "
         "limits rise with the cavern level of the step before, exergy and "
         "heat are drawn in proportion to power and status only, heat is "
         "split by the given shares, levels integrate the interval length "
         "and stay within their size; nothing else restricts operation.",
         [INP, CFG], "all parameter sets, ports, prices and interval lengths",
         "Tests compare one LP file of one plant.",
         ["components/experimental/_generic_caes.py"],
         [("equations (1) to (27)", "components/experimental/"
           "_generic_caes.py: GenericCAESBlock._create")],
         technique=MON + REFT, note=TRUST)

    prop("C36", "Piecewise linear converters follow their function",
         "The output of a PiecewiseLinearConverter equals the conversion "
         "function at the breakpoints and its linear interpolation in "
         "between, for rising, falling and any other function, within and "
         "only within the range of the breakpoints, however the input is "
         "limited and whichever exact representation is chosen.",
         [INP, CFG], "all functions, breakpoints, representations, limits",
         "Tests compare one LP file of one rising function.",
         ["components/experimental/_piecewise_linear_converter.py"],
         [("bounds", "components/experimental/_piecewise_linear_converter.py:"
           " get_inflow_bounds, get_outflow_bounds"),
          ("curve", "components/experimental/_piecewise_linear_converter.py:"
           " PiecewiseLinearConverterBlock.piecewise")],
         technique=MON + REFT,
         note=TRUST + " Representations CC, DCC, MC, INC and DLOG; "
         "special ordered sets need another solver.")

    prop("C37", "Reported duals are the marginal costs of demand",
         "If duals are requested, every balanced bus with flows, and nothing "
         "else, reports one dual for each interval under the label of its "
         "beginning. For models without integers, the duals, and the reduced "
         "costs (Model.rc) of the flows, are a subgradient of the optimum: "
         "no change of demand, or of limits of flows, at any intervals "
         "changes the optimum by less than they say.",
         [CFG, HIST], "all linear systems, time axes, changes of demand and limits",
         "Tests read single duals of fixed systems.",
         ["processing.py", "_models.py", "buses/_bus.py"],
         [("suffixes", "_models.py: Model.receive_duals"),
          ("collection", "processing.py: results"),
          ("bus balance", "buses/_bus.py: BusBlock._create")],
         technique=MON + "reported duals are compared with optima of an "
         "independent reference model after random demand changes",
         note="Held on the runs counted in the evidence file; trusts the "
         "reference solver on small models.",
         observe=["duals in the result dictionary", "views.node"])

    prop("C38", "Nested and extended descriptions add exactly what they say",
         "Components described as sub-nodes at any depth of a tree, or as "
         "instances of classes derived from the component classes, lead to "
         "the model and results of the flat description. User-written "
         "components with a block of their own, and groupings and blocks "
         "handed to the energy system and the model (or listed by a class "
         "derived from Model), add exactly the rows and costs they declare "
         "for exactly the members of their group, once, and leave other "
         "models and the lists handed over untouched. Constraints added to "
         "a built or solved model bind and change nothing else.",
         [PRG, HIST, CFG], "all trees, groupings, extension blocks, build "
         "histories",
         "Tests build single flat systems without extensions.",
         ["_models.py", "_groupings.py", "_energy_system.py",
          "components/_converter.py", "buses/_bus.py"],
         [("constraint groups", "_models.py: Model.__init__, "
           "_add_child_blocks, _add_objective"),
          ("groupings", "_groupings.py, _energy_system.py: EnergySystem"),
          ("sub-nodes", "components: parent_node")],
         technique=MON + "models of nested or extended descriptions are "
         "compared row by row with flat models to which the declared rows "
         "were added by hand",
         note="Held on the pairs counted in the evidence file; trusts "
         "pyomo's standard form of linear expressions.",
         observe=["rows, bounds and objective of the built models",
                  "Results and result dictionary"])
