"""The properties, in one place (gen_docs.py turns this into properties.jsonl and MANIFEST.json)."""

NA = {}

SCHED = ["schedules", "configurations", "fault_sequences", "histories"]
GEN = "every production system the adapter accepts, every arrival pattern, every sequence of breakdowns/repairs/rework and every order of simultaneous events"
T0 = ("The existing tests run a handful of fixed systems once, with one seed and the default event order, and compare a few aggregate KPIs with wide tolerances; ")
NOTE = ("Seeded search: thousands of randomly generated whole systems per run, each executed on the real code under a simulator that owns time, event order and randomness; "
        "an independent reference judges the recorded history. A clean run is evidence, not proof. ")

PROPS = [
 dict(id="P01", title="Products are created once, flow once and finish once",
  statement="Every product that arrives is created exactly once, is always in exactly one place (a queue, a machine, a vehicle, or gone), and leaves the system at most once and only at a sink that accepts its type. No product is lost, duplicated, or changed by breakdowns, rework, storage or by being cut off at the end of the run.",
  over=SCHED, quant=GEN, why=T0 + "none follows single products, so a lost or duplicated product only shows if it shifts an average beyond the tolerance.",
  files=["prodsys/simulation/source.py", "prodsys/simulation/product.py", "prodsys/simulation/router.py", "prodsys/simulation/sink.py", "prodsys/simulation/store.py"],
  mech=[("source loop", "prodsys/simulation/source.py Source.create_product_loop"), ("product life cycle", "prodsys/simulation/product.py Product.process_product"), ("sink", "prodsys/simulation/sink.py")],
  observe=["event log (created / finished / start / end rows)", "contents of every queue after every step"], note=NOTE),
 dict(id="P02", title="A product is finished only after exactly its process plan",
  statement="The production steps executed on a product are exactly those its process plan demands (list, precedence graph or adjacency form): every step once, in an order the plan permits, each on a resource that offers that process or capability, one at a time, and no step after the product left. A product is only delivered to a sink when its plan is complete.",
  over=SCHED, quant=GEN + ", with sequential, partially ordered and capability-based plans", why=T0 + "none checks which steps a product actually received or in which order.",
  files=["prodsys/simulation/product.py", "prodsys/simulation/proces_models.py", "prodsys/factories/product_factory.py", "prodsys/simulation/router.py"],
  mech=[("process model traversal", "prodsys/simulation/proces_models.py"), ("next step selection", "prodsys/simulation/product.py Product.set_next_production_process"), ("resource matching", "prodsys/simulation/router.py")],
  observe=["event log: production start/end rows per product"], note=NOTE),
 dict(id="P03", title="Failed steps are reworked as required, and only those",
  statement="A step that failed is followed by a rework process that serves that step: immediately if that rework is blocking, at the latest before the product leaves if it is not. Steps that did not fail are never reworked, rework itself does not fail, and steps fail with the frequency given by their failure rate.",
  over=SCHED, quant=GEN + ", with failure rates between 0 and 1, blocking and non-blocking rework", why=T0 + "the one rework test looks at aggregate counts, not at whether each failed step was repaired before anything else happened.",
  files=["prodsys/simulation/product.py", "prodsys/simulation/control.py", "prodsys/simulation/process.py"],
  mech=[("failure draw", "prodsys/simulation/control.py handle_rework_required"), ("rework queue of a product", "prodsys/simulation/product.py add_needed_rework / set_next_production_process")],
  observe=["event log: production rows per product"], note=NOTE + "The frequency is judged by a 7-sigma band over all runs."),
 dict(id="P04", title="Resources never exceed their capacity",
  statement="At no instant does a resource process or hold more products than its capacity, nor run one process more often in parallel than that process's own capacity, in any interleaving of requests, setups, batches and breakdowns.",
  over=SCHED, quant=GEN, why=T0 + "no test looks at concurrent occupancy; the races need two requests to be decided within one instant.",
  files=["prodsys/simulation/control.py", "prodsys/simulation/resources.py", "prodsys/simulation/state.py"],
  mech=[("control loop and full()", "prodsys/simulation/control.py ProductionController.control_loop; prodsys/simulation/resources.py Resource.full"), ("state selection", "prodsys/simulation/control.py wait_for_free_process")],
  observe=["event log: overlapping executions", "queue contents: items possessed by a machine"], note=NOTE),
 dict(id="P05", title="Queues respect capacity and pass items on physically",
  statement="A queue or storage never holds more items than its capacity and never the same item twice. Every item that leaves a place enters the next one by an execution that explains it: out of a machine's input queue into its output queue through exactly one processing, and between places only by a vehicle that delivered it there.",
  over=SCHED, quant=GEN + ", including systems with bounded buffers that block", why=T0 + "no test observes queue contents over time.",
  files=["prodsys/simulation/store.py", "prodsys/simulation/control.py", "prodsys/simulation/router.py"],
  mech=[("bounded queue with reservations", "prodsys/simulation/store.py Queue"), ("reservation on routing", "prodsys/simulation/router.py")],
  observe=["contents of every queue after every simulation step"], note=NOTE),
 dict(id="P06", title="Nothing runs on a broken-down resource",
  statement="While a resource is broken down, none of its production, transport or setup work progresses; while one of its processes is broken down, that process does not progress. Work in progress is interrupted at the instant of the breakdown and is neither started nor resumed before every breakdown affecting it has ended.",
  over=SCHED, quant=GEN + ", including overlapping, back-to-back and simultaneous breakdowns", why=T0 + "breakdown tests check availability percentages only; overlapping or back-to-back faults at one instant never occur in them.",
  files=["prodsys/simulation/state.py", "prodsys/simulation/resources.py"],
  mech=[("breakdown states", "prodsys/simulation/state.py BreakDownState, ProcessBreakDownState"), ("interrupt/activate", "prodsys/simulation/resources.py interrupt_states/activate")],
  observe=["event log: breakdown intervals versus start/interrupt/resume rows"], note=NOTE),
 dict(id="P07", title="Interrupted work resumes with exactly its remaining time",
  statement="An execution that is interrupted, however often, resumes once all its breakdowns have ended and finishes after exactly its nominal duration of actual processing; no processed time is lost, repeated or invented. An execution that is never interrupted lasts exactly the duration of its time model.",
  over=SCHED, quant=GEN, why=T0 + "no test measures a single interrupted execution, let alone several interruptions of one.",
  files=["prodsys/simulation/state.py"],
  mech=[("remaining-time bookkeeping", "prodsys/simulation/state.py ProductionState/TransportState/SetupState update_done_in, process_state")],
  observe=["event log: start, interrupt, resume, end rows and expected end times"], note=NOTE),
 dict(id="P08", title="Breakdowns occur and last exactly as their time models say",
  statement="Each breakdown of a resource or process begins one sampled time-between-failures after the previous one of the same kind was repaired (or after the start of the run) and lasts exactly one sampled repair time. Values are consumed one per event, in order, and independently of what the resource is doing.",
  over=SCHED, quant=GEN, why=T0 + "tests compare the share of unscheduled downtime with a tolerance; a skipped or shifted repair time disappears in it.",
  files=["prodsys/simulation/state.py", "prodsys/simulation/time_model.py"],
  mech=[("renewal loops", "prodsys/simulation/state.py BreakDownState.process_state, ProcessBreakDownState.process_state")],
  observe=["event log: breakdown start/end rows"], note=NOTE),
 dict(id="P09", title="Machines are set up before a process that needs it",
  statement="Whenever a machine changes from one process to another for which a setup is defined, exactly that setup runs in between, for its full duration; a machine is never set up while it is processing, and setups not required by a change of process do not happen.",
  over=SCHED, quant=GEN + ", machines processing one product at a time", why=T0 + "tests check the share of setup time in one system only.",
  files=["prodsys/simulation/resources.py", "prodsys/simulation/state.py", "prodsys/simulation/control.py"],
  mech=[("setup selection", "prodsys/simulation/resources.py Resource.setup"), ("setup state", "prodsys/simulation/state.py SetupState")],
  observe=["event log: setup and production rows per machine"], note=NOTE + "Machines with capacity > 1 and setups are covered only by a recorded known finding."),
 dict(id="P10", title="Vehicles move continuously and carry products door to door",
  statement="A vehicle serves one transport at a time: it drives empty from where it is to where the product waits, then carries it to the requested destination, starting every leg where the previous one ended. Products are picked up where they are and delivered where they were requested, and on link networks every leg follows an existing link, every way is a shortest one, and a vehicle enters the network at the place nearest to it.",
  over=SCHED, quant=GEN + ", with one or several vehicles, manhattan/euclidean and link-network transport", why=T0 + "no test follows a vehicle's path.",
  files=["prodsys/simulation/state.py", "prodsys/simulation/control.py", "prodsys/simulation/request.py", "prodsys/simulation/route_finder.py"],
  mech=[("transport control", "prodsys/simulation/control.py TransportController.start_process/run_process"), ("routes", "prodsys/simulation/route_finder.py")],
  observe=["event log: transport rows with origin, target, empty flag", "transport requests"], note=NOTE),
 dict(id="P11", title="Transports take exactly the time of the distance they cover",
  statement="Every transport leg lasts reaction time plus distance over speed in the configured metric between the vehicle's actual position and its actual destination (input or output location of a machine), plus the configured loading and unloading times where a product is loaded or unloaded.",
  over=SCHED, quant=GEN + ", with manhattan and euclidean metrics, links, loading times and separate input/output locations", why=T0 + "one loading-time test and one link test check aggregates.",
  files=["prodsys/simulation/state.py", "prodsys/simulation/time_model.py", "prodsys/simulation/control.py", "prodsys/simulation/resources.py"],
  mech=[("distance time model", "prodsys/simulation/time_model.py DistanceTimeModel"), ("leg times", "prodsys/simulation/state.py TransportState.process_state"), ("positions", "prodsys/simulation/resources.py get_input_location/get_output_location")],
  observe=["event log: transport start/end/interrupt rows"], note=NOTE),
 dict(id="P12", title="The system never stalls while work is possible",
  statement="Whenever products are in the system and nothing is broken down, some production, setup, transport or loading is in progress or happens at that instant. Once arrivals and faults have stopped, every product is finished within bounded simulated time, and simulated time always advances.",
  over=SCHED, quant=GEN + ", excluding configurations whose bounded buffers form a cycle and may legitimately deadlock", why=T0 + "a lost wake-up shows only for a particular order of simultaneous events and hides behind later arrivals.",
  files=["prodsys/simulation/control.py", "prodsys/simulation/router.py", "prodsys/simulation/store.py", "prodsys/simulation/product.py"],
  mech=[("controller wake-ups", "prodsys/simulation/control.py control_loop"), ("routing wake-ups", "prodsys/simulation/router.py"), ("queue space wake-ups", "prodsys/simulation/store.py")],
  observe=["event log: gaps without any activity", "products unfinished at the drained end"], note=NOTE),
 dict(id="P18", title="The event log is a complete, consistent account of the run",
  statement="Log entries are in time order; every end belongs to one open start and every resumption to one open interruption; expected end times are what really happens unless interrupted; entries name existing resources, processes and products. Nothing is recorded after the horizon and nothing is missing up to it.",
  over=SCHED + ["crash_points"], quant=GEN + ", and every instant at which the run is cut off", why=T0 + "no test reads the log row by row although every KPI is computed from it.",
  files=["prodsys/simulation/logger.py", "prodsys/simulation/state.py", "prodsys/simulation/product.py", "prodsys/util/runner.py"],
  mech=[("event logger", "prodsys/simulation/logger.py EventLogger"), ("state info", "prodsys/simulation/state.py StateInfo")],
  observe=["event log rows"], note=NOTE),
 dict(id="P23", title="Sources release products exactly at their arrival times",
  statement="Every source creates one product of its type after each sampled inter-arrival time, in order, from the start of the run on, regardless of what the rest of the system does; it stops only when its schedule is exhausted. Products are numbered consecutively across sources and never share an identifier.",
  over=SCHED, quant=GEN + ", with several sources per product type", why=T0 + "tests look at total output only.",
  files=["prodsys/simulation/source.py", "prodsys/factories/product_factory.py", "prodsys/simulation/time_model.py"],
  mech=[("arrival loop", "prodsys/simulation/source.py Source.create_product_loop"), ("numbering", "prodsys/factories/product_factory.py")],
  observe=["event log: created-product rows"], note=NOTE),

 dict(id="P13", title="Resources do not idle while work they could do is waiting",
  statement="A machine that is up, not being set up and has free capacity never leaves a product waiting in its input queue, and an idle vehicle that is up never leaves a transport order waiting, for any span of simulated time.",
  over=SCHED, quant=GEN + "; machines without batching and charging", why=T0 + "a request overlooked in the instant in which another one is started only lengthens a queue until the next event wakes the resource.",
  files=["prodsys/simulation/control.py", "prodsys/simulation/resources.py"],
  mech=[("control loops", "prodsys/simulation/control.py ProductionController.control_loop, TransportController.control_loop"), ("free capacity", "prodsys/simulation/resources.py Resource.full, capacity_current_setup")],
  observe=["event log", "contents of the input queues between events", "transport requests"], note=NOTE),
 dict(id="P14", title="Control policies decide which waiting order comes next",
  statement="When a machine or vehicle chooses its next order, it takes the one its control policy names among those that wait: first come for FIFO, latest for LIFO, shortest expected processing or transport time for SPT, and nearest origin with the configured tie-break on the target's queues for the nearest-origin policies.",
  over=SCHED, quant=GEN + ", with every control policy on machines and vehicles", why=T0 + "they use FIFO almost everywhere and never compare which order was chosen.",
  files=["prodsys/simulation/control.py", "prodsys/factories/resource_factory.py"],
  mech=[("policies", "prodsys/simulation/control.py *_control_policy"), ("application", "prodsys/simulation/control.py control_loop")],
  observe=["event log: starts", "requests and their order"], note=NOTE + "Orders that arrive within the instant of a decision are not judged against it."),
 dict(id="P15", title="Routing sends products only where and how they can be served",
  statement="A product is only sent to a machine that offers its next step and only carried by a vehicle that offers its transport process; among several the source's routing heuristic decides: the first for FIFO, one with the fewest waiting products for shortest queue. A product is processed only where it was brought.",
  over=SCHED, quant=GEN + ", without bounded buffers, with alternative machines and vehicles", why=T0 + "no test checks which alternative was chosen.",
  files=["prodsys/simulation/router.py", "prodsys/simulation/product.py", "prodsys/simulation/process.py"],
  mech=[("candidate resources", "prodsys/simulation/router.py"), ("heuristics", "prodsys/simulation/router.py FIFO_routing_heuristic, shortest_queue_routing_heuristic")],
  observe=["requests in order of issue", "queue lengths at the instant of routing"], note=NOTE),
 dict(id="P16", title="Auxiliaries accompany one product at a time and return",
  statement="Every auxiliary starts in its configured storage, is fetched from there for one product at a time, is delivered before that product leaves its source, is released when that product is finished and is returned to its own storage before it is used again. A product never waits for an auxiliary while one of its type is free.",
  over=SCHED, quant=GEN + ", with several auxiliary types and storages", why=T0 + "the auxiliary test compares aggregate output only.",
  files=["prodsys/simulation/auxiliary.py", "prodsys/factories/auxiliary_factory.py", "prodsys/simulation/router.py", "prodsys/simulation/product.py"],
  mech=[("request and release", "prodsys/simulation/router.py route_auxiliary_to_store, get_auxiliary; prodsys/simulation/auxiliary.py"), ("placement", "prodsys/factories/auxiliary_factory.py")],
  observe=["event log", "storage contents", "transport requests of auxiliaries"], note=NOTE),
 dict(id="P17", title="Batch machines run complete batches of one process",
  statement="A batch machine starts only complete batches: as many products as its batch size, all for the same process, starting at the same instant and finishing together. Whenever it is empty and up and a complete batch of one process waits, it starts.",
  over=SCHED, quant=GEN + ", with batch machines, several processes per machine, breakdowns and rework", why=T0 + "the batch test compares aggregate KPIs of one product and one process.",
  files=["prodsys/simulation/control.py"],
  mech=[("batching", "prodsys/simulation/control.py BatchController.control_loop, start_process")],
  observe=["event log: production rows per machine", "production requests"], note=NOTE + "Batch machines behind bounded downstream buffers are outside the judged configurations."),
 dict(id="P19", title="Equal configuration and seed give equal histories",
  statement="The history of a run is a function of the configuration, its seed and the horizon alone: it does not depend on earlier runs in the same process, on the state of the global random number generators, on the hash seed of the Python process or on whether the configuration object was run before. A run changes neither the configuration object nor the caller's random number generators.",
  over=["configurations", "histories"], quant=GEN + ", with constant, scheduled, sampled, exponential, normal and lognormal time models and random routing", why=T0 + "they never run a system twice or in two processes.",
  files=["prodsys/util/runner.py", "prodsys/simulation/time_model.py", "prodsys/simulation/router.py", "prodsys/simulation/proces_models.py", "prodsys/factories/product_factory.py"],
  mech=[("seeding", "prodsys/util/runner.py temp_seed, Runner.initialize_simulation, Runner.run"), ("sampling", "prodsys/simulation/time_model.py"), ("node order", "prodsys/simulation/proces_models.py")],
  observe=["event log of each run", "configuration before and after", "random number generator states before and after"], note=NOTE + "Injected: another run before, another state of the random number generators, another hash seed in a second process."),
 dict(id="P20", title="The horizon only cuts a run off",
  statement="Running a system up to a horizon gives exactly the history that a longer run of the same system gives up to that instant: the future does not influence the past, no event lies beyond the horizon and none before it is missing.",
  over=["crash_points", "configurations", "histories"], quant=GEN + " and every pair of horizons", why=T0 + "they never compare two horizons.",
  files=["prodsys/util/runner.py", "prodsys/simulation/sim.py", "prodsys/simulation/logger.py"],
  mech=[("horizon", "prodsys/simulation/sim.py Environment.run"), ("progress and logging", "prodsys/simulation/logger.py")],
  observe=["event logs of three runs"], note=NOTE),
 dict(id="P21", title="Resource time shares account for all time of every resource",
  statement="For every resource the reported times in standby, production, setup and downtime are those of its history: down while a breakdown is active, else in setup while a setup runs, else productive while at least one process runs, else in standby. They add up to the whole reported time span and their percentages to 100; availability is the mean over all resources.",
  over=SCHED, quant=GEN + "; resources with up to two units of capacity, without batteries", why=T0 + "they compare two or three KPIs of systems without interruptions with wide bounds.",
  files=["prodsys/util/post_processing.py", "prodsys/models/performance_indicators.py", "prodsys/simulation/state.py"],
  mech=[("classification", "prodsys/util/post_processing.py df_resource_states, df_aggregated_resource_states"), ("KPIs", "prodsys/util/post_processing.py machine_state_KPIS, df_oee_production_system")],
  observe=["aggregated resource states and KPIs", "event log"], note=NOTE + "Not judged: the per-bucket variants used by plots and the effect of the warm-up cut-off on resource states."),
 dict(id="P22", title="Throughput, output and WIP figures are those of the history",
  statement="Throughput time is reported once for every finished product and is its finish minus its creation; output, throughput, mean throughput time and flow ratio aggregate exactly these products per type. WIP at any time is the number of products created and not yet finished, never negative, for the system and each type, and of a machine the number of products at it. The same figures come from the data frames, the KPI objects, the performance data and saved result files; a warm-up cut-off drops only early products.",
  over=SCHED + ["crash_points"], quant=GEN + ", any cut-off instant and warm-up method, names with separators", why=T0 + "they compare aggregates with wide bounds on systems with one or two product types.",
  files=["prodsys/util/post_processing.py", "prodsys/util/warm_up_post_processing.py", "prodsys/util/runner.py", "prodsys/simulation/logger.py"],
  mech=[("throughput", "prodsys/util/post_processing.py df_throughput, df_aggregated_output_and_throughput"), ("WIP", "prodsys/util/post_processing.py df_WIP, df_WIP_per_product, dynamic_WIP_KPIs"), ("warm-up", "prodsys/util/warm_up_post_processing.py"), ("reports", "prodsys/util/runner.py get_performance_data, save_results_as_csv")],
  observe=["all KPI data frames and objects", "event log"], note=NOTE + "Mean WIP is judged for range and consistency; WIP per station is outside (marked FIXME in the code)."),
 dict(id="P25", title="Batteries are charged when empty, and only then",
  statement="A resource with a battery uses it up by the time of its processes, transports, handling and empty trips since the last charge. Once 90 % of the battery time is used it charges for exactly the charging time before it takes on another order, not earlier and not while it is broken down; it charges as soon as its current order is done and then goes on working. A machine never charges while it processes, and no order begins while its resource charges.",
  over=SCHED, quant=GEN + ", with batteries on machines, batch machines and vehicles", why=T0 + "the charging test compares the charging share of one vehicle.",
  files=["prodsys/simulation/control.py", "prodsys/simulation/resources.py", "prodsys/simulation/state.py"],
  mech=[("charging", "prodsys/simulation/control.py control_loop of each controller; prodsys/simulation/resources.py requires_charging, charge, consider_battery_usage"), ("charging state", "prodsys/simulation/state.py ChargingState")],
  observe=["event log: charging, production and transport rows per resource"], note=NOTE + "Vehicles that are assigned a transport while driving on an empty battery charge while driving on: known finding. Batch machines may have taken on a further batch before the battery was empty."),
 dict(id="P24", title="Durations, arrivals and faults follow their time models",
  statement="Every process, setup, repair, charging and arrival time and every time between failures is a draw of the configured model: constants and schedules exactly, in order and once each; sampled values only from the given list; exponential, normal and lognormal times in the configured distribution. Draws are independent of each other and of other resources, and failing steps occur at the configured rate.",
  over=["inputs", "configurations", "histories"], quant=GEN + ", with every kind of time model in every role", why=T0 + "they never compare a sampled time with its configured distribution.",
  files=["prodsys/simulation/time_model.py", "prodsys/models/time_model_data.py", "prodsys/util/statistical_functions.py", "prodsys/simulation/state.py", "prodsys/simulation/source.py"],
  mech=[("sampling in blocks", "prodsys/simulation/time_model.py FunctionTimeModel, SampleTimeModel, ScheduledTimeModel"), ("distributions", "prodsys/util/statistical_functions.py"), ("failing steps", "prodsys/simulation/process.py")],
  observe=["event log: expected and real durations by role and time model"], note=NOTE + "Distribution tests use limits that chance exceeds with a probability below 1e-8 per test and seeded draws."),
 dict(id="P26", title="What is saved is what is loaded, or an error is reported",
  statement="A saved system, scenario or event log is read back as exactly what was saved: equal configuration, hash and simulated history, whatever the default encoding, the names in it and the object that loads it. If the disk fails while saving, an error is reported; a file cut off by a crash is refused without changing the loading object. Saving never changes the saved object and never overwrites the log of another run.",
  over=["crash_points", "fault_sequences", "inputs", "histories"], quant=GEN + " with arbitrary names, every crash point and disk error while writing, any clock and default encoding", why=T0 + "they read a few ASCII files from a healthy disk.",
  files=["prodsys/adapters/json_adapter.py", "prodsys/util/runner.py", "prodsys/simulation/logger.py", "prodsys/adapters/adapter.py"],
  mech=[("systems and scenarios", "prodsys/adapters/json_adapter.py write_data, read_data, write_scenario_data"), ("event logs", "prodsys/util/runner.py save_results_as_csv, save_results_as_json, _get_new_result_file_path")],
  observe=["files on the simulated disk after every write", "objects before and after saving and loading", "event log of the loaded system"],
  note=NOTE + "Injected: full disk, I/O errors, short writes, crashes with written, old, empty or partly lost blocks, clock jumps, other default encodings. Two identical logs may share a file; an overwritten configuration is not claimed to survive a crash while it is rewritten."),
 dict(id="P28", title="Optimisation results are true, admissible and reproducible",
  statement="Every configuration an optimisation reports was saved as evaluated, respects the scenario's constraints (or is reported with the penalty), and simulating it again gives exactly the reported values and their weighted aggregate; results are reused only for configurations that behave the same. A search with the same seed takes the same course whatever the clock and identifiers, leaves the base configuration unchanged, and after a crash its results list no configuration that was not saved.",
  over=["inputs", "configurations", "crash_points", "histories"], quant="random systems and scenarios (transformations, constraints, objectives), annealing, tabu and evolutionary search with random parameters, and crash points of the disk",
  why="The tests do not run an optimisation at all; whether reported values are those of the saved configuration depends on the whole sequence of moves and on which earlier results are reused.",
  files=["prodsys/optimization/optimization.py", "prodsys/optimization/simulated_annealing.py", "prodsys/optimization/tabu_search.py", "prodsys/optimization/evolutionary_algorithm.py", "prodsys/optimization/adapter_manipulation.py", "prodsys/optimization/util.py", "prodsys/adapters/adapter.py"],
  mech=[("evaluation and reuse", "prodsys/optimization/optimization.py evaluate; prodsys/optimization/util.py document_individual"), ("constraints", "prodsys/optimization/optimization.py check_valid_configuration"), ("moves", "prodsys/optimization/adapter_manipulation.py"), ("bookkeeping", "simulated_annealing.py energy, tabu_search.py, evolutionary_algorithm.py save_population_results")],
  observe=["saved configurations and optimization_results.json on the simulated disk", "fresh simulations of them"],
  note=NOTE + "Searches are small (up to about 20 evaluations); the gurobi-based mathematical optimisation is outside, and so are searches without any valid neighbour, which are cut off."),
 dict(id="P27", title="The service stores exactly what was written to it",
  statement="The web service is a faithful store of projects, configurations and their parts: what was created or updated last is what every later read and listing returns, completely, and a deleted object is gone together with the results that belong to it. Creating something that exists, and reading, changing or deleting something that does not, is refused with a client error and changes nothing; so is a malformed request. Objects of one project or configuration never affect those of another, and no request ends in a server error.",
  over=["histories", "inputs", "schedules"], quant="every interleaving of requests of several clients on every resource of the service, with damaged bodies and clients that disappear before the answer",
  why="No test touches the service; whether a read returns what was written depends on the whole history of requests.",
  files=["app/backends/in_memory.py", "app/dao/process_dao.py", "app/dao/scenario_dao.py", "app/dao/queue_dao.py", "app/routers/adapters.py", "app/routers/processes.py", "app/routers/queue.py", "app/routers/scenario.py", "app/models/project.py"],
  mech=[("projects and configurations", "app/backends/in_memory.py"), ("parts of a configuration", "app/dao/*.py"), ("validation and serialisation", "app/routers/*.py; prodsys/models")],
  observe=["status and body of every answer", "all stored objects at the end"],
  note=NOTE + "Renaming an object to an unused ID may be done or refused; which client error is given is not judged. Order within lists is not judged. In-memory backend, one process."),
 dict(id="P30", title="Simulations through the service give their own results",
  statement="A simulation started through the service runs the configuration as it was stored, with the requested length and seed, and afterwards the performance, the events and the plots of that configuration, and of no other one, are exactly those of a direct simulation with these settings, whatever other simulations and requests run meanwhile. The stored configuration is not changed; progress is that of the configuration's own simulation; without a simulation, or after its configuration was deleted, no results are reported. A simulation that fails leaves all stored data as it was.",
  over=["schedules", "histories", "fault_sequences"], quant="every interleaving of requests and background simulations (switched at calls of the backend, at steps of a simulation and at locks), with worker threads that fail at any step",
  why="No test touches the service, and what concurrent simulations do to each other depends on when the threads are switched.",
  files=["app/dependencies.py", "app/routers/simulation.py", "app/routers/performance.py", "app/backends/in_memory.py"],
  mech=[("background simulation", "app/dependencies.py run_simulation"), ("progress", "app/dependencies.py get_progress_of_simulation"), ("results", "app/backends/in_memory.py; app/routers/performance.py")],
  observe=["answers of simulate, progress, kpis and events", "post-processor of every configuration", "direct simulations as reference"],
  note=NOTE + "Threads are switched at backend calls, simulation steps and locks, not at every bytecode. Of simulations of one configuration that overlap either may be the last. Results of a configuration changed after its simulation may be kept or dropped; what comes out of a configuration that would be refused as a whole is not judged."),
 dict(id="P29", title="Moves of the search change only what they say and keep configurations sound",
  statement="Every move, mutation, crossover and random configuration of the optimisation changes exactly what it stands for (one machine, vehicle, auxiliary, process module, position, control or routing policy) within the scenario's options, and reports false only if nothing was changed. The result is sound: IDs are unique, every reference has a target, locations belong to the options, breakdown states fit the kind of resource, everything else is kept. Its reconfiguration cost and its validity are those the scenario defines, and neither the base nor the partner configuration is changed unasked.",
  over=["inputs", "configurations", "histories"], quant="random systems and scenarios, every sequence of moves, mutations, crossovers and random configurations",
  why="The tests do not call any move; defects need certain groups of modules, shared storages or a certain sequence of moves.",
  files=["prodsys/optimization/adapter_manipulation.py", "prodsys/optimization/optimization.py", "prodsys/optimization/util.py", "prodsys/adapters/adapter.py"],
  mech=[("moves", "prodsys/optimization/adapter_manipulation.py"), ("cost and validity", "prodsys/optimization/optimization.py get_reconfiguration_cost, check_valid_configuration"), ("normalisation", "prodsys/optimization/util.py, adapter_manipulation.py configuration_capacity_based / random_configuration")],
  observe=["configurations before and after every move", "results and costs reported"],
  note=NOTE + "Machine queues are replaced by default queues by design and not judged; a crossover may rename machines that would have the same ID."),
 dict(id="P31", title="A system described with express is the system that is simulated",
  statement="A production system described with the objects of prodsys.express behaves exactly like the same system described as data: under every schedule and every sequence of faults it has the same event history, its own run gives the same history and results each time it is called, and validation accepts it. Which objects are shared, whether links are given as list, by dictionary or one by one, and which optional arguments are left to their defaults makes no difference. Before the system was run there are no results.",
  over=["inputs", "configurations", "schedules", "fault_sequences"], quant=GEN + ", each described twice: as plain data and as express objects in a random style",
  why="The tests build a handful of express systems and look at totals; a state, store, link or setup that gets lost or merged in the conversion shows only in the history of a system that needs it.",
  files=["prodsys/express/production_system.py", "prodsys/express/process.py", "prodsys/express/state.py", "prodsys/express/resources.py", "prodsys/express/source.py", "prodsys/express/sink.py", "prodsys/express/auxiliary.py", "prodsys/express/time_model.py"],
  mech=[("conversion", "prodsys/express/*.py to_model"), ("execution and results", "prodsys/express/production_system.py run, runner, post_processor")],
  observe=["event history of both descriptions under the same schedule and faults", "run() and its results, twice"],
  note=NOTE + "Plans are lists; one auxiliary type and one rework process per system; machines have the default queues of express, with equal sizes, and stores."),
 dict(id="P32", title="Agents decide what they are asked for, in reproducible episodes",
  statement="In the control environments an agent is asked for every sequencing decision of its resource, or every routing decision of the system, and what it chooses is what happens; an impossible action is reported as invalid and replaced by a possible one. An agent that plays a control policy gives exactly the history of that policy, and every episode is a valid history of the system. Episodes with equal seeds and actions are equal, whatever ran before, and leave the caller's random state alone. What the observers report (queues, processes, availability) is the state of the resource.",
  over=["schedules", "fault_sequences", "inputs", "histories"], quant=GEN + ", every sequence of valid and invalid actions of an agent, several episodes",
  why="No test starts a control environment; whether a decision is honoured depends on what else happens in the instant in which the simulation is interrupted.",
  files=["prodsys/control/routing_control_env.py", "prodsys/control/sequencing_control_env.py", "prodsys/simulation/observer.py", "prodsys/simulation/router.py", "prodsys/simulation/control.py", "prodsys/simulation/sim.py"],
  mech=[("interruption and resumption", "prodsys/simulation/sim.py run_until; control.py agent_control_policy; router.py agent_routing_heuristic"), ("episodes", "prodsys/control/*.py reset, step"), ("observation", "prodsys/simulation/observer.py")],
  observe=["requests offered and chosen at every decision", "event history and queue contents of the episode", "observations at decisions", "random state of the caller"],
  note=NOTE + "Sources are endless and machine queues unlimited (an episode needs a next decision). Observations of a resource at an instant at which it changes are not judged; nor is next_resource of queued products."),
]
