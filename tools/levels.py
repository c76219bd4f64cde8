COMMON = (" Reals for floats, unbounded integers; the concrete driver replays the same statements on the built tree (bounded, never counted as proved).")
PROOF = {
    "P28": "both wrappers' evaluation, the declaration of variables and constraints, the counts and the lists of variables, objectives and constraints are proved for any number and any sizes (ghost model: what each variable was given, that it was run after, what its recorders say); the pygmo bounds, the cache of models, seeding of populations and whole wrappers are covered by the bounded driver." + COMMON,
    "P01": "each step's linear programme handed to GLPK is proved, for both GLPK solvers and any network: row bounds of nodes, aggregated nodes, storages and virtual storages, factor rows, the objective from the current costs, the committed flows from an optimal solution; the layout made by setup() is an assumption exercised, like whole optima, by the bounded driver against an independent linear programme; GLPK itself is trusted." + COMMON,
    "P25": "finish() and values() of the flow duration curve recorders and their deviations, setup() and the six calibration measures are proved for any number of steps, scenarios and percentiles (numpy's percentile is an assumed contract); the seasonal variant, loading and data frames are covered by the bounded driver." + COMMON,
    "P24": 'run() is proved for every sequence of simulation outcomes, bounds and tolerance with an invariant of the bisection, including that the gap at least halves per simulation (so that it ends); whole bisections are covered by the bounded driver.' + COMMON,
    "P07": 'get_combinations, the ensemble names, sizes and shapes, setup, and adding scenarios are proved for any number of scenarios, sizes, slices and user combinations; the multi-index and whole models are covered by the bounded driver.' + COMMON,
    "P08": "Model.before, after, finish, _step, step, run, setup, reset and flatten_component_tree are proved over any number of nodes, components and timesteps with ghost call records: every hook once, in phase order, each component after all before it in the evaluation order, the order being the reversed post-order of the dependency graph, cycles and self-loops rejected; that networkx's post-order respects dependencies is assumed, and that each class registers what it uses is covered by the bounded driver." + COMMON,
    "P09": 'for every class the attributes a run assigns are found in the source and reset() is proved to make each independent of all run state (non-interference), and Model.reset to reset the calendar, every node, every component and the solver in order; whole models run twice are covered by the bounded driver.' + COMMON,
    "P04": 'after() and the reset rules of every virtual storage kind are proved for every date, start and timestep length: an active one loses the factor-weighted flow, resets happen exactly at the first step on or after the date; whole runs are covered by the bounded driver.' + COMMON,
    "P06": "Timestep.__init__ (every date of every year), the leap-year rule, the split of a step across a year end, and Timestepper.reset/next are proved; that pandas' periods tile the run is assumed and exercised by the bounded driver." + COMMON,
    "P03": "Storage.after (with and without adjustment), reset, initial volume/proportion, current proportion and AggregatedStorage.after are proved for all inputs; "
           "that the aggregate equals the sum of its members over a whole run (up to snapping) is checked by the bounded driver." + COMMON,
    "P02": "The after() of every node kind, commit/commit_all and the flow arrays are proved for all inputs; conservation over whole runs on random networks is checked by the bounded driver." + COMMON,
    "P05": "Every accessor pair (scalar/array, constant/parameter) of nodes, storages, links and compound nodes is proved to agree for all inputs." + COMMON,
    "P10": "Every profile's value() is proved to be the entry of the calendar slot for all dates, and the monthly interpolation to be the linear one; loading and scenario set-up are covered by the bounded driver." + COMMON,
    "P11": "value()/index() of every control curve parameter are proved for all proportions and any number of curves, including that lower curves are never consulted; loading and the weighted-average profile's set-up are covered by the bounded driver." + COMMON,
    "P16": "value(), before(), after() and reset() of every licence are proved for all dates, flows and amounts; whole years with the licence limiting the flow are covered by the bounded driver." + COMMON,
    "P17": "Every formula parameter's value() and both hydropower functions (with the lemma that one inverts the other) are proved for all inputs; scipy's interpolation and quadrature are assumed contracts, exercised by the bounded driver." + COMMON,
    "P12": "Each calculation function is proved equal to its documented formula for all inputs and any number of members and scenarios; user-supplied functions and loading are covered by the bounded driver." + COMMON,
    "P13": "index(), value() and reset() of every threshold class are proved for all watched values, thresholds and predicates, with the ratchet state as an invariant; ordinal day and loading are covered by the bounded driver." + COMMON,
    "P14": "value(), after() and reset() of the delay and rolling-mean parameters are proved, including the inductive history invariant of the delay memory (ghost flow history); setup() of the window length is covered by the bounded driver." + COMMON,
    "P15": "value()/index() of every array-backed parameter are proved to read the entry of the (clamped) timestep and the member; the member columns chosen by setup() are covered by the bounded driver." + COMMON,
    "P18": "For every variable class set-then-get is proved to be the identity on every vector, the value afterwards to be the formula of the vector, and the constructors to declare as many bounds as variables; integer days refused exactly when out of order or out of the year." + COMMON,
    "P19": "after(), reset(), setup() and the data of every array recorder are proved to write exactly the row of the step with the documented value for every scenario; the file recorders and data frames are covered by the bounded driver." + COMMON,
    "P20": "after() of every running statistic is proved to include exactly the term of the step, reset() to put it to the statistic of no steps and finish() to divide by the steps recorded; whole histories (numpy's aggregation over time included) are covered by the bounded driver." + COMMON,
    "P21": "after(), reset(), setup() and finish() of the three annual recorders are proved: each step enters exactly the year it belongs to (both years for a step across the year end, by days), once, and a year's count is kept when the next begins; dates come from pandas (assumed), the seasonal flow duration curve is covered by the bounded driver." + COMMON,
    "P22": "the event state machine is proved for one arbitrary scenario of any number (after, reset, setup, finish, and the duration and statistic recorders' finish over any list of events); the run of steps is composed from these by induction in DESIGN.md, and the bounded driver replays whole trigger histories." + COMMON,
    "P23": "every aggregation function in one and two dimensions, with and without missing values, the aggregated value, the bounds, their setters, the judgement, the lists of objectives and constraints and feasibility are proved for all values; percentiles, scores and user functions are numpy's/the user's own and covered by the bounded driver." + COMMON,
}
OTHER = {}
NA = {}
