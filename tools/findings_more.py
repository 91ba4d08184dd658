FINDINGS = [
    ("C29", "other-horizon", "scalar parameters keep the number of time steps "
     "of the first model (valid_sequence, pinned by test_valid_sequence), so "
     "that costs given as scalars are silently ignored when the same nodes "
     "are used in an energy system with another number of time steps"),
    ("C17", "idle-flow", "a flow that no constraint mentions and that has no "
     "costs is unknown to the solver; Model.solve then raises ValueError (no "
     "value for uninitialized variable) although an optimum was found"),
    ("C32", "zero-discount-rate", "a discount rate of zero in a multi-period "
     "model with storage investment raises ZeroDivisionError "
     "(oemof.tools.economics.annuity divides by zero)"),
    ("C32", "fixed-costs-per-period", "fixed_costs of an Investment given as "
     "one value per period is indexed by year and raises IndexError as soon "
     "as a period spans more than one year"),
    ("C33", "final-content-of-sized-storage", "with aggregated time series, "
     "the content of a storage with Investment may exceed its size at the "
     "end of the horizon (GenericInvestmentStorageBlock limits "
     "inter_storage_content at the beginning of periods only; a further row "
     "makes cbc choose another of several optima in test_storage_invest_"
     "tsam_integration_without_mp, which pins one of them)"),
    ("C33", "balance-of-sized-storage", "with aggregated time series, "
     "balanced=True is ignored for storages with Investment (pinned by "
     "test_storage_invest_tsam_integration_without_mp)"),
]
FIXED = [
    ("C19", "8440636", "investment_limit raised on models without "
     "investment flows and ignored investments of nonconvex flows"),
    ("C20", "dd1379f", "limit on active flow counts raised for nonconvex "
     "flows with investment"),
    ("C19", "3556cd1", "additional investment limit raised TypeError when "
     "some investments carry no properties"),
    ("C31", "246a54b", "storage content at the end of a multi-period "
     "horizon was not bounded by the capacity"),
    ("C32", "09f3976", "yearly fixed costs of flows with a lifetime were "
     "charged wrongly"),
    ("C15", "7934732", "meta results of a model whose objective is zero "
     "raised / reported no objective"),
    ("C22", "4c2e90d", "create_time_index for one year with a given start "
     "ended before or after one year"),
    ("C24", "901c859", "'in' denied names the Results object gives access "
     "to"),
    ("C24", "6d8b789", "Results of multi-period models raised a length "
     "mismatch"),
    ("C24", "dae2dd9", "investment costs contained the offset of nonconvex "
     "investments that are not made"),
    ("C24", "ecabb5e", "variable costs in Results ignored the interval "
     "length"),
    ("C25", "b1b9ad8", "results of multi-period models carried shifted time "
     "labels"),
    ("C25", "2fbc3cc", "results of multi-period models with optional "
     "investments raised"),
    ("C25", "136c8b6", "results of models with one timestep raised or lost "
     "scalars"),
    ("C26", "21c182a", "parameter_as_dict raised for sequences of different "
     "lengths in one component"),
    ("C26", "0d0ecfe", "parameter_as_dict raised for components that keep "
     "flows in attributes"),
    ("C18", "031b4ac", "a second periodical integral limit replaced the "
     "first one"),
    ("C34", "5ea49b4", "limits without a capacity and infinite maxima were "
     "noticed in the first entry of a series only"),
    ("C34", "02a5d1b", "offset and unlimited maximum of investments were "
     "noticed in the first period only"),
    ("C34", "163893b", "only one of the two parameters of soc-dependent "
     "charging was silently ignored"),
    ("C35", "945cf72", "exergy of compressed air storages contained "
     "the offset of its linear relation at standstill, too"),
    ("C36", "b6af736", "piecewise linear converters without a nominal "
     "capacity at the input raised TypeError"),
    ("C36", "964c718", "output of decreasing piecewise linear functions was "
     "bounded by the values at the ends in the wrong order"),
    ("C37", "016d2e9", "duals of multi-period models with an additional last "
     "time point raised a length mismatch"),
    ("C33", "4c42c6c", "typical periods were looked up at wrong time steps "
     "if the number of typical periods or steps differs between periods"),
    ("C33", "34ac625", "losses of aggregated storages used rates of time "
     "steps of the original axis or of one step only"),
    ("C33", "236e2aa", "initial content of sized storages was ignored with "
     "aggregated time series"),
    ("C33", "bfbf0b3", "storages could end an aggregated horizon with more "
     "than their capacity"),
    ("C33", "1c4a05d", "storage costs raised AttributeError with aggregated "
     "time series"),
    ("C33", "e9e7a52", "full load times of sized flows counted every typical "
     "period once"),
    ("C33", "ea855b2", "integral limits counted every typical period once"),
    ("C33", "be0a925", "unfolded storage contents used losses of other time "
     "steps and ignored the interval length"),
    ("C05", "f86aacf", "series of the deprecated coefficients of an "
     "OffsetConverter were reduced to their first entry if the maximum of "
     "the flow is constant"),
    ("C34", "931ff46", "absolute losses in multi-period models were noticed "
     "in the first entry of a series only"),
    ("C33", "ca81e38", "storage level constraints with aggregated time "
     "series raised KeyError"),
    ("C33", "99f985e", "unfolded results lacked the gates of storage level "
     "constraints"),
    ("C33", "e72c084", "start-ups of aggregated time series were counted "
     "and paid once instead of once per repetition"),
    ("C28", "1dd7ce2", "flags given as numpy booleans (balanced storages, "
     "back pressure plants, infer_last_interval) were ignored"),
    ("C22", "cde9bc8", "inferring the last interval set the frequency of the "
     "time index handed over"),
]
