"""Writes /verif/properties.jsonl (the list of properties, in one readable place)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

GLPK = "pywr/solvers/cython_glpk.pyx"; CORE = "pywr/_core.pyx"; MODEL = "pywr/_model.pyx"
PAR = "pywr/parameters/_parameters.pyx"; REC = "pywr/recorders/_recorders.pyx"

p("P01", "The allocation problem solved each step is the one the network describes",
  "In every timestep and scenario, the linear programme given to a GLPK solver bounds the flow through every node by that node's current minimum and maximum flow, bounds the change of every storage and every active virtual storage by the water above its minimum volume and the space below its maximum volume divided by the length of the timestep in days (an inactive virtual storage is unconstrained), bounds aggregated nodes by their limits and ratios, and prices every route or edge with the current costs of its nodes. Magnitudes below 1e-8 are treated as zero and nothing left over from another scenario or an earlier step remains in it.",
  ["inputs", "histories", "configurations"],
  "for every network, every value of the limits, costs and volumes, every number of nodes, routes, scenarios and timestep length, and every order of solves",
  "The tests solve a few dozen small networks and look at the resulting flows, so a bound or cost that only bites for other numbers, node counts, scenario positions or timestep lengths is never observed.",
  [GLPK], [("per-scenario update of objective and row bounds, route formulation", "CythonGLPKSolver._solve_scenario"),
           ("per-scenario update of objective and row bounds, edge formulation", "CythonGLPKEdgeSolver._solve_scenario"),
           ("bounds and factors fixed at reset", "_update_nonstorage_constant_bounds, _update_constant_agg_factors"),
           ("bound kind", "constraint_type, inf_to_dbl_max")],
  [("LP rows and columns", "row bounds, matrix rows and objective coefficients held by GLPK")], ["arguments of the calls into GLPK"])

p("P02", "Solved flows are credited to nodes exactly, and mass balances",
  "After each solve every node's flow for that scenario equals the total of the solution flow on the routes or edges using it, a storage's flow is its inflow minus its outflow, and a compound or aggregate node reports the combination of its parts it is documented to report. The flow a node reports as that of the previous timestep is the flow it had at the end of that timestep.",
  ["inputs", "histories"],
  "for every solution vector, network shape, number of scenarios and sequence of timesteps",
  "Tests assert flows at a few nodes of fixed networks; they cannot cover all combinations of shared links, storages, scenarios and compound nodes over arbitrary histories.",
  [GLPK, CORE, "pywr/nodes.py"],
  [("crediting the solution", "_solve_scenario (result update), Node.commit, Storage.commit, StorageInput.commit, StorageOutput.commit"),
   ("start and end of step", "AbstractNode.before, AbstractNode.after, AggregatedNode.after, AggregatedStorage.after"),
   ("compound nodes", "PiecewiseLink.after, BreakLink.after, DelayNode.after, LossLink.after")],
  [("flow", "per-scenario flow of a node in this timestep"), ("prev_flow", "per-scenario flow in the previous timestep")])

p("P03", "Storage volumes are accounted exactly and kept within their limits",
  "At the end of every timestep each storage's volume in each scenario is its volume at the start plus its net flow times the length of the timestep in days, snapped to the minimum or maximum only within the solver tolerance, and its proportional volume is that volume over the maximum volume. At reset the volume is the stated initial volume (absolute or proportional) and an aggregated storage always equals the sum of its members.",
  ["inputs", "histories"],
  "for every net flow, limit (constant or parameter), initial condition, timestep length, number of scenarios and number of member storages",
  "Unit tests run a handful of reservoirs with constant limits for a few days; rounding tolerance, parameter limits, zero maximum volumes and multi-scenario combinations are sampled at best once.",
  [CORE], [("end-of-step update", "Storage.after, AbstractStorage"), ("initial volume and reset", "Storage.reset, Storage.get_initial_volume, Storage._reset_storage_only"),
           ("proportion", "AbstractStorage.get_current_pc"), ("aggregation", "AggregatedStorage.reset, AggregatedStorage.after")],
  [("volume", "per-scenario volume"), ("current_pc", "per-scenario proportional volume")])

p("P04", "Virtual storages deplete with weighted use and reset only when documented",
  "A virtual storage that is active loses exactly the factor-weighted flow of its nodes times the timestep length each step and an inactive one keeps its volume; a rolling one gets back what was used one rolling period ago. Annual, seasonal and monthly virtual storages reset to the documented volume at the first timestep on or after the reset date and at no other time, for every start date and timestep.",
  ["inputs", "histories"],
  "for every sequence of flows, factor list, start date, timestep length, reset date, end date and number of scenarios",
  "The tests use daily models starting on a few dates; reset logic depends on the calendar position of arbitrary starts and steps, and re-runs, which they do not enumerate.",
  [CORE, "pywr/nodes.py"], [("weighted use", "VirtualStorage.after, VirtualStorage.reset"), ("rolling period", "RollingVirtualStorage.after, RollingVirtualStorage.reset"),
           ("calendar resets", "AnnualVirtualStorage.before, SeasonalVirtualStorage.before, MonthlyVirtualStorage.before")],
  [("active", "whether the licence period applies"), ("memory", "ring of past utilisation")])

p("P05", "A node attribute reads the same whichever way it is asked for",
  "For every node and storage the limits, costs, volumes, level and area obtained for one scenario equal the corresponding entry of the all-scenario query, and both equal the constant given or the current value of the parameter given. Costs of the inlet of a storage are the negative, and of its outlet the negative with opposite sign convention, of the storage cost exactly as documented.",
  ["inputs", "configurations"],
  "for every attribute, every constant or parameter, every scenario, and every number of scenarios",
  "Tests read one accessor per attribute, usually with one scenario, so a disagreement between the scalar and the vector path or an index slip is invisible.",
  [CORE], [("node accessors", "Node.get_min_flow, get_max_flow, get_cost, get_all_min_flow, get_all_max_flow, get_all_cost"),
           ("storage accessors", "Storage.get_min_volume, get_max_volume, get_level, get_area, get_cost"),
           ("aggregated ratios", "AggregatedNode.get_factors, get_factors_norm, get_min_flow, get_max_flow"),
           ("storage inlet and outlet costs", "StorageInput.get_cost, StorageOutput.get_cost")])

p("P06", "The simulation calendar covers the period once and dates map to fixed slots",
  "The timestepper yields consecutive, non-overlapping timesteps indexed 0,1,2,... from the start date, covering the period to the end date, each with its true length in days. Every date maps to the same day-of-year slot (0 to 365, 29 February having its own slot) and week slot in leap and common years.",
  ["inputs", "histories"],
  "for every start date, end date and step, and every calendar date including 29 February and 31 December",
  "Tests step over a few years at daily or weekly frequency; the mapping has to hold for all dates of leap and common years and all offsets.",
  ["pywr/timestepper.py", CORE], [("step sequence", "Timestepper.reset, __next__, __len__"), ("slots", "Timestep.__init__, Timestep.dayofyear_index, Timestep.week_index, is_leap_year")])

p("P07", "Scenario combinations enumerate exactly the requested cross product",
  "The combinations run by a model are exactly the full cross product of the scenarios' (sliced) members in row-major order, or exactly the user's list when one is given, with global identifiers 0..n-1 and each combination holding the member index of every scenario. Shapes, member names and the index of result tables agree with that enumeration.",
  ["inputs", "configurations"],
  "for every number of scenarios, sizes, slices and user combination list",
  "The tests use two or three scenarios of size below ten; order and indices for arbitrary sizes, slices and combinations are not covered.",
  [CORE, MODEL], [("enumeration", "ScenarioCollection.get_combinations, ScenarioCollection.setup, ScenarioCollection.shape"), ("table index", "ScenarioCollection.multiindex, ScenarioIndex")])

p("P08", "Everything is evaluated before what depends on it, once per timestep",
  "In each timestep every component's before-step work and value calculation runs exactly once, after that of every component it depends on and before the solver, and end-of-step work runs exactly once after the solver, nodes before components. A dependency cycle is rejected with an error instead of being evaluated in some order.",
  ["inputs", "programs", "histories"],
  "for every dependency graph of components and every sequence of steps, including re-parenting during construction",
  "Tests build small acyclic graphs and check results; the ordering guarantee is about all graphs and all insertion orders.",
  [MODEL, "pywr/_component.pyx"], [("ordering", "Model.flatten_component_tree, Model.component_tree_flat"), ("phases", "Model._step, Model.before, Model.after, Model.step"),
            ("edges", "ComponentCollection / Component.children, Component.parents, parameter_property")],
  [("component graph", "edges from the root and from dependency to dependent")])

p("P09", "A reset model forgets its past: running again gives the same results",
  "Resetting any model, node or parameter puts all of its per-run state back to the state before its first timestep, so that running the same model again without changes produces the same flows, volumes, parameter values and recorder results.",
  ["histories", "inputs"],
  "for every prior history of steps and every length of run, for every stateful node and parameter",
  "Tests run each model once, occasionally twice; state that leaks only after particular histories (mid-year stops, partially filled memories, deactivated licences) is not seen.",
  [CORE, "pywr/nodes.py", PAR, MODEL, "pywr/parameters/licenses.py"], [("node reset", "AbstractNode.reset, Storage.reset, VirtualStorage.reset, RollingVirtualStorage.reset, SeasonalVirtualStorage.reset"),
            ("parameter reset", "FlowDelayParameter.reset, RollingMeanFlowNodeParameter.reset, AnnualLicense.reset"), ("order", "Model.reset")])

p("P10", "Profiles return the value stored for the calendar slot of the date",
  "Daily, weekly, monthly and scenario profile parameters return, for every date, exactly the value their input gives for that day, week or month (29 February and week 53 included), an interpolated monthly profile lies linearly between adjacent months, and a uniform drawdown profile falls linearly between its reset dates to its residual.",
  ["inputs"],
  "for every profile, every date of leap and common years and every scenario index",
  "Tests check a few dates; the edges (29 February, last week, month ends, reset days) need all dates and all profile values.",
  [PAR], [("lookups", "DailyProfileParameter.value, WeeklyProfileParameter.value, MonthlyProfileParameter.value, ScenarioDailyProfileParameter.value, ScenarioWeeklyProfileParameter.value, ScenarioMonthlyProfileParameter.value"),
          ("interpolation", "MonthlyProfileParameter._interpolate, MonthlyProfileParameter.reset"), ("drawdown", "UniformDrawdownProfileParameter.value")])

p("P11", "Control curves select or interpolate by position of the storage between curves",
  "For every storage proportion and every list of curve values, a control curve parameter returns the value (or index) of the first curve, from the top, that the proportion is at or above, and the interpolating ones return the linear interpolation between the values of the two bounding curves with the outer limits at full and empty. The result never depends on curves below the one selected.",
  ["inputs"],
  "for every proportion in [0,1], every number of curves and values, and every scenario",
  "Tests place the storage at a few levels with one or two curves; equality with a curve, coincident curves and any number of curves are not enumerated.",
  ["pywr/parameters/_control_curves.pyx"], [("selection", "ControlCurveParameter.calc_values, ControlCurveIndexParameter.calc_values"),
          ("interpolation", "_interpolate, ControlCurveInterpolatedParameter.value, ControlCurvePiecewiseInterpolatedParameter.value, WeightedAverageProfileParameter.value")])

p("P12", "Arithmetic parameters compute their documented function of the current inputs",
  "Aggregating parameters return the named aggregate (sum, product, mean, minimum, maximum, median, any, all) of all their members' current values in every scenario, and the offset, division, negative, minimum, maximum and constant parameters return their documented function of the inputs' current values.",
  ["inputs", "configurations"],
  "for every number of members, all values including negative ones, and every scenario",
  "Tests use two or three positive constants; order of members, sign, empty and single lists and all scenarios are not covered together.",
  [PAR], [("aggregates", "AggregatedParameter.calc_values, AggregatedIndexParameter.calc_values"), ("operators", "DivisionParameter, NegativeParameter, MaxParameter, MinParameter, NegativeMaxParameter, NegativeMinParameter, OffsetParameter, IndexedArrayParameter")])

p("P13", "Threshold parameters switch exactly when their condition holds",
  "A threshold parameter's index is 1 exactly in the timesteps and scenarios where the watched value compares true with its current threshold (and, for ratcheting ones, in all later ones until reset), its value is the corresponding entry, and a multiple-threshold index is that of the first threshold the watched value is at or above (their number, if none).",
  ["inputs", "histories"],
  "for every watched value, threshold, predicate and history of crossings, in every scenario",
  "Tests drive one crossing per predicate; equality cases, several scenarios with different histories and re-crossing need all histories.",
  ["pywr/parameters/_thresholds.pyx"], [("index", "AbstractThresholdParameter.index, AbstractThresholdParameter.value"), ("multiple thresholds", "MultipleThresholdIndexParameter.index, MultipleThresholdParameterIndexParameter.index"),
          ("watched values", "StorageThresholdParameter, NodeThresholdParameter, ParameterThresholdParameter, RecorderThresholdParameter, CurrentYearThresholdParameter, CurrentOrdinalDayThresholdParameter")])

p("P14", "Delayed and rolling parameters reproduce the right part of the history",
  "A delayed-flow parameter returns, in every timestep and scenario, the watched flow of exactly the configured number of timesteps earlier (the initial value before that), and a rolling-mean parameter returns the mean of the last configured number of recorded values (of all of them before the window is full).",
  ["histories", "inputs"],
  "for every delay or window length, history of flows and number of timesteps and scenarios",
  "Tests check windows of a few steps over short runs; wrap-around of the ring memory at all positions is a statement over all histories.",
  [PAR], [("delay ring", "FlowDelayParameter.calc_values, FlowDelayParameter.after, FlowDelayParameter.reset"), ("rolling mean", "RollingMeanFlowNodeParameter.value, RollingMeanFlowNodeParameter.after")],
  [("memory", "ring buffer of past values"), ("position", "ring position")])

p("P15", "Array-backed parameters return the entry of this timestep and scenario",
  "An array or table parameter returns, for every timestep and scenario, the entry stored for that timestep (shifted by the stated offset and clamped to the ends of the record) and for that scenario's member, and a constant scenario parameter the entry of the scenario's member.",
  ["inputs", "configurations"],
  "for every array shape, offset, timestep and scenario combination",
  "Tests use one small array; all timesteps, offsets beyond either end and multi-scenario indices are not covered together.",
  [PAR], [("lookup", "DataFrameParameter.value, ArrayIndexedParameter.value, ArrayIndexedScenarioParameter.value, ArrayIndexedScenarioMonthlyFactorsParameter.value, ConstantScenarioParameter.value, ConstantScenarioIndexParameter.index, TablesArrayParameter.value")])

p("P16", "A licence never permits more than remains of its allowance",
  "A timestep licence always permits its fixed amount; an annual licence permits at any step no more than the unused part of the year's allowance spread over the remaining days (or as documented for the exponential and hyperbolic forms), deducts what was actually taken, and renews only at the start of a year.",
  ["histories", "inputs"],
  "for every history of takes, allowance, timestep length and year boundary, in every scenario",
  "Tests follow one licence through a short run; exhaustion, over-use and year ends at arbitrary positions are statements over all histories.",
  ["pywr/parameters/licenses.py"], [("permitted take", "TimestepLicense.value, AnnualLicense.value, AnnualExponentialLicense.value, AnnualHyperbolaLicense.value"), ("deduction and renewal", "AnnualLicense.after, AnnualLicense.before, AnnualLicense.reset")],
  [("remaining", "per-scenario remaining allowance")])

p("P17", "Transforms evaluate their published formulae, and inverses invert",
  "Hydropower, polynomial, discount, piecewise-integral, rectifier, logistic, binary-step, volume-interpolation and groundwater parameters return their published formula of the current inputs; the hydropower target flow is the flow that produces the target power, within its flow limits.",
  ["inputs"],
  "for all real inputs and coefficients and any number of coefficients",
  "Tests evaluate a few points per formula; clamping branches and the inverse relation hold over all reals.",
  ["pywr/parameters/_hydropower.pyx", "pywr/recorders/_hydropower.pyx", "pywr/parameters/_polynomial.pyx", "pywr/parameters/_activation_functions.pyx", PAR, "pywr/parameters/groundwater.py"],
  [("hydropower", "inverse_hydropower_calculation, hydropower_calculation, HydropowerTargetParameter.value"), ("polynomials", "Polynomial1DParameter.value, Polynomial2DStorageParameter.value"),
   ("activation", "BinaryStepParameter, RectifierParameter, LogisticParameter"), ("others", "PiecewiseIntegralParameter.calc_values, DiscountFactorParameter.calc_values")])

p("P18", "Optimisation variables round-trip and stay inside their declared bounds",
  "For every parameter usable as an optimisation variable, the number of variables equals the length of its variable, lower-bound and upper-bound vectors, setting the variables and reading them back gives the same vector, and the parameter's value afterwards is that implied by the vector.",
  ["inputs", "configurations"],
  "for every parameter kind, size and vector of variable values",
  "Tests set one vector on a few kinds; round trip and sizes are universal statements over all vectors.",
  [PAR, "pywr/parameters/_activation_functions.pyx", "pywr/parameters/_control_curves.pyx"], [("variables", "set_double_variables, get_double_variables, get_double_lower_bounds, get_double_upper_bounds, set_integer_variables, get_integer_variables"), ("sizes", "double_size, integer_size")])

p("P19", "Time-series recorders hold, for each step and scenario, the value of that step",
  "After a run an array recorder holds in every row and column exactly the flow, volume, proportion, deficit, supplied ratio, curtailment, cost, level, area or parameter value that its subject had at that timestep in that scenario, and writes nothing else.",
  ["histories", "inputs"],
  "for every history of values and every number of timesteps and scenarios",
  "Tests compare arrays for a few constant flows; arbitrary histories, zero demands and every scenario column are not covered.",
  [REC], [("recording", "NumpyArrayNodeRecorder.after, NumpyArrayStorageRecorder.after, NumpyArrayNodeDeficitRecorder.after, NumpyArrayNodeSuppliedRatioRecorder.after, NumpyArrayNodeCurtailmentRatioRecorder.after, NumpyArrayNodeCostRecorder.after, NumpyArrayParameterRecorder.after, NumpyArrayIndexParameterRecorder.after")],
  [("data", "array of timestep by scenario")])

p("P20", "Running statistics equal the statistic of the whole recorded history",
  "Total, mean, minimum, maximum, deficit, frequency and threshold-count recorders hold in every scenario, after every step or at the end of the run, exactly that statistic of all values since the last reset (integrated over the length of each timestep where so documented).",
  ["histories", "inputs"],
  "for every history of values, timestep lengths and number of scenarios",
  "Tests use short runs with constant values, for which several wrong accumulations agree with the right one.",
  [REC, "pywr/recorders/_thresholds.pyx", "pywr/recorders/_hydropower.pyx"], [("accumulation", "TotalDeficitNodeRecorder.after, TotalFlowNodeRecorder.after, MeanFlowNodeRecorder.after, DeficitFrequencyNodeRecorder.after, MinimumVolumeStorageRecorder.after, MinimumThresholdVolumeStorageRecorder.after, TotalParameterRecorder.after, MeanParameterRecorder.after, TotalHydroEnergyRecorder.after, RollingMeanFlowNodeRecorder.after")])

p("P21", "Annual and seasonal counts reset once a year and count each day once",
  "Annual count and annual total recorders and annual count thresholds attribute each timestep to exactly one reporting year, whose boundary is the configured date, and accumulate within it the documented count or total for every scenario.",
  ["histories", "inputs"],
  "for every start date, reset date, timestep length and history of values",
  "Tests start on 1 January with daily steps; other starts, resets and steps determine which year a step belongs to.",
  [REC], [("attribution", "AnnualCountIndexThresholdRecorder.after, AnnualTotalFlowRecorder.after, AnnualCountIndexParameterRecorder.after, SeasonalFlowDurationCurveRecorder")])

p("P22", "Events are recorded exactly for the maximal active periods",
  "An event recorder holds one event per scenario for every maximal run of consecutive timesteps in which its trigger is active, starting at the first active timestep and ending at the first inactive one (or at the end of the run), unless it is shorter than the minimum length, and event statistics summarise exactly those events.",
  ["histories", "inputs"],
  "for every sequence of trigger values in every scenario and every minimum length",
  "Tests use one sine-like trigger; all trigger sequences including adjacent, single-step and unfinished events are not enumerated.",
  ["pywr/recorders/events.py"], [("state machine", "EventRecorder.after, EventRecorder.finish"), ("summaries", "EventDurationRecorder.finish, EventStatisticRecorder.finish")],
  [("current event", "open event per scenario")])

p("P23", "Recorder results are aggregated and judged against bounds as declared",
  "The aggregated value of a recorder is the declared function of its per-scenario values (ignoring missing values only if asked), the objectives of a model are exactly its recorders declared as such, and a constraint is violated exactly when the aggregated value lies outside the declared bounds; a model is feasible if and only if no constraint is violated.",
  ["inputs", "configurations"],
  "for every vector of values, aggregation, bound combination and set of recorders",
  "Tests check a few bounds and values; equality at a bound, one-sided bounds, missing values and all aggregations are not covered together.",
  [REC, MODEL], [("aggregation", "Aggregator.aggregate_1d, Aggregator.aggregate_2d, Recorder.aggregated_value, AggregatedRecorder.values"), ("judgement", "Recorder.is_constraint_violated, is_equality_constraint, is_double_bounded_constraint, is_lower_bounded_constraint, is_upper_bounded_constraint, Model.is_feasible")])

p("P24", "Bisection ends at a feasible value within tolerance of an infeasible one",
  "A bisection run leaves the model at a value that was found feasible, no more than the stated tolerance below a value found infeasible or the upper bound, and raises an error (or uses the lower bound if told so) when none was found; it always terminates for a positive tolerance.",
  ["inputs", "histories"],
  "for every pair of bounds, tolerance and outcome sequence of the simulations",
  "The tests run one model with one bound pair; the loop guarantee is over all outcome sequences.",
  ["pywr/utils/bisect.py"], [("search loop", "BisectionSearchModel.run")])

p("P25", "Flow duration curves and comparison statistics match their definitions",
  "Flow duration curves are the stated percentiles of each scenario's recorded flows (only those of the season's months for seasonal ones), deviations are relative to the target curve, and calibration recorders return the published error measure of simulated against observed series.",
  ["inputs", "histories"],
  "for every recorded series, percentile list, target and number of scenarios",
  "Tests compare one series; all series and shapes are not covered.",
  [REC, "pywr/recorders/calibration.py"], [("curves", "FlowDurationCurveRecorder.finish, SeasonalFlowDurationCurveRecorder.finish, FlowDurationCurveDeviationRecorder.finish"), ("measures", "RootMeanSquaredErrorNodeRecorder.values, NashSutcliffeEfficiencyNodeRecorder.values and siblings")])

p("P26", "External series are aligned to the model calendar without loss or shift",
  "A data frame given to a parameter is resampled to exactly the model's periods, each model period receiving the aggregate or the value of the source periods it covers, and a series that cannot cover the model period is rejected.",
  ["inputs"], "for every source frequency, model frequency, start and end",
  "Tests use some pairs of frequencies; all pairs and offsets are not covered.",
  ["pywr/dataframe_tools.py"], [("resampling", "align_and_resample_dataframe")])

p("P27", "Loading a document builds the network it states, whatever the order of entries",
  "Loading a model document creates exactly the nodes, edges, parameters, recorders, scenarios and includes it lists, resolving references independently of the order in which they appear, and a file whose checksum differs from the stated one is rejected.",
  ["inputs", "configurations"], "for every valid document and every ordering of its entries",
  "Tests load a fixed set of documents in one order each.",
  [MODEL, "pywr/hashes.py", "pywr/nodes.py"], [("loading", "Model.load_from_dict, Model.load, load_parameter, Loadable.pre_load, Loadable.finalise_load"), ("checksum", "check_hash")])

p("P28", "Optimiser wrappers hand over variables, objectives and constraints in order",
  "An optimiser wrapper applies each segment of the decision vector to the variable it belongs to and returns each objective and constraint in the declared order and sense, for every model.",
  ["inputs", "configurations"], "for every set of variables, bounds, objectives and constraints",
  "Tests optimise two or three small models.",
  ["pywr/optimisation/__init__.py", "pywr/optimisation/platypus.py", "pywr/optimisation/pygmo.py"], [("hand-over", "PlatypusWrapper.evaluate, PygmoWrapper.fitness, BaseOptimisationWrapper")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
