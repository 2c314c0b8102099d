NOTES = ("Every check builds the library and its driver from /repo's working tree, drives it with behaviours "
         "enumerated or sampled from the TLA+ specification and with seeded random scripts, records what the real "
         "code did, and lets TLC decide whether the specification allows that history.")
TV = "TLA+ spec model-checked with TLC; spec behaviours and random scripts run on the real code; TLC validates the recorded histories"

prop("P01", "Every time step runs the same phases in order, once per live agent",
     "A run executes exactly the configured number of time steps (or stops at the end of the step in which a stop is requested), and in each step goes through snapshot, deployment, tick, resource exchange (materials, then products), tock, inventory recording, decision and retirement in that order. In each phase every agent that is in the simulation at that moment is called exactly once, and no other agent is. An agent deployed in a step takes part in all later phases of that step, and one retired in a step took part in all earlier ones.",
     ["schedules", "histories"], "every duration, population and schedule of deployments, retirements, stop and snapshot requests issued from any callback",
     "unit tests tick one or two mock agents once; they never check which agents are called in which phase while the population changes",
     ["src/timer.cc", "src/context.cc", "src/time_listener.h", "src/exchange_manager.h"],
     [("current step", "time index and phase", "src/timer.h"), ("listeners", "agents called in each phase", "src/timer.h"), ("stop and snapshot requests", "flags raised from callbacks", "src/timer.h")],
     [("the time loop", "src/timer.cc RunSim"), ("listener registration", "src/timer.cc RegisterTimeListener")],
     ["agent callbacks", "rows of the output"], "no", TV, "TLC exhaustive on 2 agents x 3 steps of the kernel model with every schedule; all/sampled behaviours and thousands of random histories replayed on the real kernel. Assumes a serial build and C++ agents.")
prop("P02", "Scheduled deployments and retirements happen exactly once, when due",
     "A scheduled deployment happens in the deployment phase of its time step, once, in scheduling order, under the given parent; a scheduled retirement happens in the retirement phase of its step, once, and a later schedule for the same agent replaces the earlier one. Requests for a time that has already passed are refused and change nothing; every accepted request is recorded with the time it was made and the time it is for. Parents are notified of each deployment after it happens and of each retirement before it does.",
     ["schedules", "histories"], "all interleavings of scheduling calls from any phase, for any time including the current and past ones",
     "tests schedule one build or one retirement and look at the end state",
     ["src/timer.cc", "src/context.cc", "src/agent.cc"],
     [("deployment queue", "time to prototype and parent", "src/timer.h"), ("retirement queue", "time to agents", "src/timer.h")],
     [("scheduling", "src/timer.cc SchedBuild, SchedDecom"), ("execution", "src/timer.cc DoBuild, DoDecom")],
     ["callbacks", "BuildSchedule, DecomSchedule, AgentEntry, AgentExit rows"], "no", TV, "as P01, emphasis on scheduling calls from every phase")
prop("P03", "The agent registry, family tree, lifetimes and entry/exit records agree",
     "At every moment each live agent is known with its prototype, parent, children, entry time and lifetime, counts by prototype and by archetype equal the number of live agents, and entry and exit records name exactly the agents that entered and left, at the right time. An agent is built as a copy of the prototype currently registered under its name; re-registering a name needs an explicit overwrite. An institution retires each child that has reached the end of its finite lifetime as soon as the child allows it, and no child with an infinite lifetime; a deployed agent's lifetime can be changed only by force.",
     ["histories", "configurations"], "all populations, lifetimes, hold-back conditions and prototype tables, observed from any callback",
     "tests look at a static tree of one or two mock agents; registries are never compared with the live population over a run",
     ["src/agent.cc", "src/context.cc", "src/institution.cc", "src/region.cc", "src/facility.cc"],
     [("live agents", "identity, parent, children, entry, lifetime", "src/agent.h"), ("counts", "live agents per prototype and archetype", "src/context.h")],
     [("entering and leaving", "src/agent.cc Build, EnterNotify, Decommission"), ("end of life", "src/institution.cc Tock")],
     ["registry queries", "AgentEntry, AgentExit rows"], "no", TV, "as P01, emphasis on lifetimes, holds, family queries")
prop("P04", "Inventory, snapshot and end-of-run records describe the real state",
     "When explicit inventories are switched on, each time step records for every live agent and every one of its non-empty material inventories the total quantity per nuclide (and, in the compact form, the total and normalised composition), and nothing else. A requested snapshot is taken once, at the start of the next time step, covering every live agent, and one is always taken at the end. The end-of-run record gives the last completed time step and whether the run was stopped early.",
     ["configurations", "histories"], "all inventories (empty, several materials, several nuclides), all option combinations, all populations and snapshot or stop requests",
     "the tests record one inventory of one material and one snapshot",
     ["src/timer.cc", "src/sim_init.cc"],
     [("inventories", "named lists of materials per agent", "src/agent.h SnapshotInv")],
     [("recording", "src/timer.cc RecordInventories, RecordInventory"), ("snapshot", "src/sim_init.cc Snapshot")],
     ["ExplicitInventory, ExplicitInventoryCompact, Snapshots, Finish rows"], "no", TV, "as P01, emphasis on inventories")
prop("P05", "The exchange shows every request to every trader and solves what they declared",
     "In each exchange every facility is asked for requests, then every facility is shown all requests of the round grouped by commodity and asked for bids, then each requester and after it each of its ancestors sees and may change the preferences for the bids on its own requests. Preferences start as the bid's or else the request's. The problem handed to the solver contains exactly the declared requests, bids, quantities, exclusivity, mutual groups (counted by their average), capacities and final preferences, leaving out bids of negative preference; a preference of zero is refused.",
     ["inputs", "configurations"], "all sets of request and bid portfolios, constraints, mutual groups, family trees and preference changes, for materials and products",
     "unit tests translate single hand-made portfolios",
     ["src/resource_exchange.h", "src/exchange_translator.h", "src/exchange_context.h", "src/exchange_translation_context.h", "src/request_portfolio.h", "src/bid_portfolio.h", "src/exchange_manager.h"],
     [("portfolios", "requests, bids and constraints per trader", "src/request_portfolio.h, src/bid_portfolio.h"), ("preferences", "per request and bid", "src/exchange_context.h")],
     [("collection", "src/resource_exchange.h"), ("translation", "src/exchange_translator.h")],
     ["trader callbacks", "the exchange graph"], "no", TV, "thousands of random exchanges through the real collection and translation code; every graph compared with the declared one by TLC")
prop("P06", "No solver ever trades more than was offered, asked or allowed",
     "Whichever solver is used, the trades use only offered request and bid pairs, never exceed a bid's quantity, a supplier's capacities or, on any single pair, the requested quantity, and an exclusive request or bid is traded in full or not at all. The greedy solver also never exceeds what a portfolio asked for; the optimising solver never yields a worse objective than the greedy one on the same exchange.",
     ["inputs"], "all exchange problems: any number of traders, shared capacities, mutual groups, exclusive orders and preferences",
     "tests solve a dozen hand-made graphs and compare with hand-made flows",
     ["src/greedy_solver.cc", "src/exchange_graph.cc", "src/prog_solver.cc", "src/prog_translator.cc", "src/exchange_solver.cc"],
     [("arc flows", "quantities assigned to request and bid pairs", "src/exchange_graph.h")],
     [("greedy matching", "src/greedy_solver.cc"), ("linear and mixed-integer program", "src/prog_translator.cc, src/prog_solver.cc")],
     ["the matches of a solved graph"], "no", TV, "TLC checks feasibility invariants on all small exchanges of the model; spec behaviours and random exchanges solved by the real greedy, LP and MILP solvers")
prop("P07", "The greedy solver serves by preference and leaves no possible trade undone",
     "The default solver serves portfolios in order of commodity weight and average preference, within them requests by average preference, and for each request bids by preference, giving each pair everything still available to it. When it ends no remaining pair could still trade. Pairs that rank equal may be served in any order.",
     ["inputs"], "all exchange problems and commodity weights",
     "tests check the order on two or three nodes at a time",
     ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/exchange_graph.cc"],
     [("remaining capacity", "of portfolios, requests and bids", "src/exchange_graph.h")],
     [("ordering", "src/greedy_preconditioner.cc"), ("matching", "src/greedy_solver.cc")],
     ["the sequence of matches"], "no", TV, "the greedy solver is a transition system in the specification; TLC enumerates its behaviours on small exchanges and replays each real match sequence through it")
prop("P08", "Every trade is executed once, delivered to its requester and recorded",
     "After an exchange each supplier with trades is asked once for exactly its trades, each requester receives exactly the resources its suppliers sent for its requests, and each delivery of positive quantity has exactly one transaction record with a fresh number, sender, receiver, resource, commodity and time. A trader without trades is not called, and a trade for which the supplier sends nothing is neither delivered nor recorded.",
     ["inputs", "histories"], "all solved exchanges over several time steps, both resource kinds, including suppliers that send less or nothing",
     "tests execute one or two trades",
     ["src/trade_executor.h", "src/exchange_manager.h", "src/trade.h"],
     [("trades", "request, bid and amount", "src/trade.h")],
     [("execution", "src/trade_executor.h")],
     ["trader callbacks", "Transactions rows"], "no", TV, "random multi-round exchanges through the real exchange manager inside a running simulation; callbacks and rows validated by TLC")
prop("P09", "The provenance ledger tells the true history of every resource",
     "Every tracked resource and every state it passes through is recorded exactly once, with the quantity, kind, unit, quality, package and time it then had and with its parent states, so that the record of its latest state always describes the resource as it is. Parents are recorded before their descendants, each creation names its creator once, and each composition or product quality is described once with fractions summing to one. Untracked resources, copies and anything split from them never appear.",
     ["histories"], "all sequences of creation, splitting, merging, transmutation, packaging and buffering of materials and products over time",
     "tests compare one or two rows after a single operation; the ledger is never checked against the objects over a history",
     ["src/res_tracker.cc", "src/material.cc", "src/product.cc", "src/composition.cc", "src/resource.cc"],
     [("states", "identity, quantity and quality of each resource over time", "src/res_tracker.h"), ("compositions", "normalised nuclide fractions", "src/composition.h")],
     [("tracking", "src/res_tracker.cc Create, Modify, Extract, Absorb, Package"), ("composition records", "src/composition.cc Record")],
     ["Resources, MaterialInfo, ResCreators, Compositions, Products rows"], "no", TV, "all 3-step (thorough: 4-step) histories of a two-material model with ledger invariants, sampled and replayed, plus random histories of 10-30 operations; every row and every object compared with the model after every operation")
prop("P10", "Splitting, merging and transmuting resources conserve quantity and nuclides",
     "Taking part of a resource removes from the source exactly what the part contains, nuclide by nuclide; merging two resources gives exactly the sum and leaves the other empty; a change of composition keeps the quantity. Taking more than is there, more of a nuclide than is there, or merging products of different quality is refused and changes nothing. Copies are independent of the original.",
     ["inputs", "histories"], "all quantities (including everything, nearly everything and more than everything), compositions and operation sequences, for materials and products",
     "tests check single operations on fixed quantities of one composition",
     ["src/material.cc", "src/product.cc", "src/comp_math.cc", "src/toolkit/res_manip.cc", "src/composition.cc"],
     [("quantity", "of each resource", "src/material.h, src/product.h"), ("composition", "of each material", "src/composition.h")],
     [("splitting", "src/material.cc ExtractQty, ExtractComp"), ("merging", "src/material.cc Absorb, src/product.cc Absorb")],
     ["quantity and composition of every resource after every operation"], "no", TV, "as P09, with emphasis on splitting and merging")
prop("P11", "Resource buffers never lose, duplicate, reorder or overfill",
     "A buffer's quantity, count and space always equal what it holds; resources come out first-in first-out (or last-in for the opposite call), whole except that at most one is split to reach an exact quantity, and what comes out has exactly the requested quantity or number. A push that exceeds the capacity, repeats a resource or offers one of the wrong kind, and a pop of more than is held, is refused and changes nothing. Bulk buffers merge everything into one resource, and buffers that do not keep packaging unpack what they receive.",
     ["histories"], "all sequences of pushes, pops by count or quantity and capacity changes on plain, bulk and packaging-preserving buffers",
     "tests run a handful of pushes and pops on two fixed materials",
     ["src/toolkit/res_buf.h", "src/toolkit/res_manip.cc"],
     [("contents", "ordered resources", "src/toolkit/res_buf.h"), ("capacity and total", "running quantity", "src/toolkit/res_buf.h")],
     [("push", "src/toolkit/res_buf.h Push"), ("pop", "src/toolkit/res_buf.h Pop, PopN, PopVector, PopBack")],
     ["return values, exceptions and queries of the buffer"], "no", TV, "three buffer kinds model-checked and replayed, plus random histories, every buffer query compared after every operation")
prop("P12", "Inventory trackers and resource maps agree with what they hold",
     "A total-inventory tracker reports the summed quantity of its buffers, a capacity that is the smaller of its own and the buffers' total, and a space that never exceeds either, for the whole and for each buffer; its capacity cannot be set below what is held, and it needs at least one buffer and a positive limit. A resource map holds exactly the last resource stored under each key, reports their total quantity and values, and taking or erasing a key removes exactly that one.",
     ["histories"], "all sequences of buffer and map operations with any number of tracked buffers, finite or not",
     "tests read a tracker or map once after a fixed set-up",
     ["src/toolkit/total_inv_tracker.h", "src/toolkit/res_map.h"],
     [("tracked buffers", "list of buffers and a limit", "src/toolkit/total_inv_tracker.h"), ("map contents", "key to resource", "src/toolkit/res_map.h")],
     [("tracker queries", "src/toolkit/total_inv_tracker.h"), ("map operations", "src/toolkit/res_map.h")],
     ["queries of trackers and maps"], "no", TV, "as P11, emphasis on trackers and maps")
prop("P13", "Packaging respects package limits and loses nothing",
     "Packaging a resource divides it into packages each within the package's limits, in the pattern its strategy prescribes, and leaves behind only what cannot fill another; nothing is created or lost. A resource can be put in a package only if its quantity fits, and unpackaging is always possible and recorded. Package and transport unit declarations with impossible limits, unknown strategies or used names are refused, every accepted one is recorded, and the number of packages allowed to ship is never more than there are and always divides into loads within the unit's limits.",
     ["inputs", "histories"], "all quantities, limits and strategies, including zero, equal and unbounded limits",
     "tests try three or four quantities per strategy",
     ["src/package.cc", "src/package.h", "src/resource.h", "src/material.cc", "src/product.cc", "src/context.cc"],
     [("package types", "limits and strategy by name", "src/package.h"), ("package of a resource", "name", "src/resource.h")],
     [("dividing", "src/package.cc GetFillMass, GetTransportUnitFill, MaxShippablePackages"), ("packaging", "src/resource.h Package, src/material.cc PackageExtract, ChangePackage")],
     ["packages produced, refusals, Packages and TransportUnits rows"], "no", TV, "as P09, emphasis on packaging; random strategies checked for soundness, deterministic ones for the exact division")
prop("P14", "Every recorded row reaches every output once, whole and in order",
     "Each row recorded through a recorder is handed to every output registered with it exactly once, in recording order, with its table, columns, values and (if asked for) the simulation's identity intact, whatever the batch size. Nothing waits longer than a full batch, and after a flush, a close or the recorder's end nothing is waiting. Changing the batch size drops only what is waiting, and changing whether the identity is added drops nothing.",
     ["histories"], "all sequences of recording, flushing, closing, registering and changing settings on several recorders sharing outputs",
     "tests record a few rows with one batch size and one output",
     ["src/recorder.cc", "src/recorder.h", "src/datum.cc"],
     [("waiting rows", "the batch being filled", "src/recorder.h"), ("outputs", "registered backends", "src/recorder.h")],
     [("batching", "src/recorder.cc NewDatum, AddDatum, NotifyBackends"), ("flushing", "src/recorder.cc Flush, Close, destructor")],
     ["rows delivered to capturing outputs"], "no", TV, "all 4-step (thorough: 5-step) histories of a two-recorder, two-output model replayed in samples, plus random histories of 8-30 operations with batch sizes 0 to 10")
prop("P15", "Output databases give back exactly what was recorded",
     "A query of an output database returns exactly the recorded rows of the table that satisfy all the conditions, in recording order, with the recorded columns, types and values, for every supported value type and in every supported format. This holds before and after the database is closed and reopened, for a second reader, when several simulations share the file, and with conditions or name prefixes added by a wrapper. Tables and columns are listed as recorded, and asking for a table that does not exist is an error.",
     ["inputs", "histories"], "all value types and values, interleavings of recording, flushing, reopening and querying, and all combinations of conditions",
     "tests write one row of each type and read it back at once",
     ["src/sqlite_back.cc", "src/hdf5_back.cc.in", "src/hdf5_back_gen.py", "src/query_backend.h", "src/sqlite_db.cc", "share/dbtypes_gen.py"],
     [("tables", "rows by table name", "database files"), ("value stores", "content-addressed variable-length values", "src/hdf5_back.cc.in")],
     [("writing", "src/sqlite_back.cc Notify, src/hdf5_back.cc.in Notify, WriteGroup"), ("reading", "src/sqlite_back.cc Query, src/hdf5_back.cc.in Query, src/query_backend.h CmpCond")],
     ["query results, table and column lists"], "no", TV, "random histories over 75 value types, both formats, 12 values per type with empty, nested and near-colliding ones, tables beyond one storage chunk")
prop("P16", "A simulation starts exactly as its input file says",
     "Loading a valid input file gives a simulation with exactly the stated control settings, solver, commodity priorities, recipes, packages, transport units and prototypes, with the documented defaults for everything left out, and with exactly the regions, institutions and facilities of its hierarchy, each in the state its prototype configures. The flat and the nested form of the same input mean the same, and the order of independent elements does not matter. A file that breaks the schema, repeats a name that must be unique, or refers to something undefined is refused.",
     ["inputs"], "all input files of both forms, with any subset of optional settings and any defect",
     "tests load a handful of fixed files and rarely look at more than one setting",
     ["src/xml_file_loader.cc", "src/xml_flat_loader.cc", "src/sim_init.cc", "src/context.cc", "src/infile_tree.cc", "share/cyclus.rng.in", "share/cyclus-flat.rng.in"],
     [("settings", "control section as loaded", "src/context.h"), ("initial agents", "hierarchy built before the first step", "src/sim_init.cc")],
     [("loading", "src/xml_file_loader.cc LoadSim, LoadControlParams, LoadRecipes, LoadSolver, ProcessCommodities, LoadInitialAgents"), ("initialisation", "src/sim_init.cc InitBase, LoadInitialAgents")],
     ["settings, registered names, agents and their state after initialisation", "order in which the solver serves commodities"], "no", TV, "random input models rendered as XML in both forms (a quarter with a defect), loaded by the real loaders into real databases, initialised and run; every setting and agent compared with what the model says")
prop("P17", "A restarted simulation continues exactly where the original was",
     "Restarting from the database at a time for which the simulation's state was saved gives the same settings, the same living agents with the same identities, parents, ages and internal state, the same resources with the same identities, quantities, qualities and packages, and the same scheduled builds and decommissionings. Run on, it does and records exactly what the original did from that time. Later rows and other simulations in the same database make no difference.",
     ["histories", "crash_points"], "all histories of builds, decommissionings, state changes, resource operations and trades, restarted at every saved time",
     "tests restart one small simulation at one time",
     ["src/sim_init.cc", "src/timer.cc", "src/context.cc", "src/agent.cc"],
     [("saved state", "rows of the database restricted to one simulation and time", "src/sim_init.cc"), ("live state", "agents, inventories, schedules and counters", "src/context.h, src/timer.h")],
     [("saving", "src/sim_init.cc Snapshot, SnapAgent"), ("restoring", "src/sim_init.cc Restart, LoadInitialAgents, LoadInventories, LoadBuildSched, LoadDecomSched, LoadNextIds")],
     ["agents, inventories, events and rows of the original and the restarted run"], "no", TV, "all 2-action (thorough: 3-action) build and decommission schedules of the design model, which proves the rows determine the state, replayed in samples with restarts at every step; plus random simulations with resources and trades restarted at one to three saved times")
prop("P18", "A buy policy keeps its stock within every stated limit",
     "In every step a buy policy requests exactly the stated share of what its throughput, fill level, buffer, tracker and cumulative limit leave, in whole exclusive lots where lots are set, one mutually exclusive request per commodity with that commodity's composition and preference; and nothing while it is dormant, above its reorder level, or has no commodity. Deliveries all enter its buffer and are attributed to their commodity. Active and dormant periods alternate with the drawn lengths, a reached cumulative limit starts a dormancy, and each period is recorded as it happens; impossible settings are refused.",
     ["histories", "configurations"], "all policy settings, and all histories of requests, partial deliveries, withdrawals, reconfigurations and time steps",
     "tests set each feature once and look at one or two steps; limits, cycles and reconfiguration interact over many",
     ["src/toolkit/matl_buy_policy.cc", "src/toolkit/matl_buy_policy.h", "src/toolkit/total_inv_tracker.h"],
     [("settings", "throughput, lots, levels, cumulative limit, distributions, commodities", "src/toolkit/matl_buy_policy.h"), ("cycle", "ends of the active and dormant periods, received in this cycle", "src/toolkit/matl_buy_policy.h")],
     [("requesting", "src/toolkit/matl_buy_policy.cc GetMatlRequests"), ("accepting", "src/toolkit/matl_buy_policy.cc AcceptMatlTrades"), ("cycles", "src/toolkit/matl_buy_policy.cc SetNextActiveTime, SetNextDormantTime, CheckActiveDormantCumulativeTimes")],
     ["request portfolios, buffer quantities, attribution of deliveries, BuyPolActiveDormant rows"], "no", TV, "design model of every policy mode over 6 steps (stock, rate, cycle and dormancy invariants); its 2-step schedules and random 7-step ones replayed on the real policy; plus random histories with several policies, buffers and trackers")
prop("P19", "A sell policy offers and ships only what it may",
     "A sell policy offers on the requests for its commodities, and no others, at most what its throughput and stock allow, in whole exclusive lots where lots are set and otherwise in shares its package and transport unit can carry, of its stock's composition or, if told to ignore compositions, the requested one. What it ships on a trade is that quantity in its package, of the offered composition, within its transport unit; what is not shipped stays in its stock, so nothing is created or lost. Lots its package or transport unit cannot carry are refused when they are set.",
     ["histories", "configurations"], "all policy settings with packages and transport units, all request sets, and all partial sets of trades on the offers",
     "tests ship one or two trades with one package; partial trades, leftovers and reconfiguration are not sampled",
     ["src/toolkit/matl_sell_policy.cc", "src/toolkit/matl_sell_policy.h", "src/package.cc"],
     [("settings", "throughput, lots, package, transport unit, commodities", "src/toolkit/matl_sell_policy.h"), ("stock", "the buffer", "src/toolkit/res_buf.h")],
     [("offering", "src/toolkit/matl_sell_policy.cc GetMatlBids, Limit"), ("shipping", "src/toolkit/matl_sell_policy.cc GetMatlTrades"), ("settings", "src/toolkit/matl_sell_policy.cc set_package, set_transport_unit")],
     ["bids and their capacity, shipped resources, buffer quantities"], "no", TV, "random histories with up to two policies, buffers, packages of every strategy and transport units, partial trades; offers and shipments compared with the specification's, conservation checked exactly")
prop("P20", "Random numbers are reproducible and follow their declared distribution",
     "After seeding, the same sequence of random draws gives the same numbers, whatever was drawn before the seeding, and another seed gives another sequence. Every draw lies within the bounds and is of the kind (whole or real) its distribution declares, draws average to the declared mean, and a distribution reports the parameters it was given. A distribution with impossible parameters (reversed bounds, a negative mean or rate, a probability above one) is refused.",
     ["histories", "inputs"], "all seeds, all sequences of draws of all kinds, and all parameters of the distributions",
     "tests draw a few numbers from one seed and one parameter set",
     ["src/random_number_generator.cc", "src/random_number_generator.h", "src/context.cc"],
     [("generator", "position in the seeded stream", "src/random_number_generator.cc"), ("distribution", "parameters and truncation", "src/random_number_generator.h")],
     [("seeding", "src/random_number_generator.cc Initialize"), ("drawing", "src/random_number_generator.cc random_*, src/random_number_generator.h *Dist::sample")],
     ["numbers drawn, reported parameters, refusals"], "no", TV, "design model of the stream (reproducibility under every interleaving of seedings and calls); its 4-call (thorough: 5-call) schedules replayed, plus random histories over all 18 distributions; means within six sigma")
prop("P21", "A preprocessed archetype keeps its declared state in every form",
     "For an archetype with any state variables the preprocessor supports, its schema accepts exactly the input that gives every required variable once, optional ones at most once, under the declared names and in the declared type, and nothing else. A loaded agent then holds exactly the given values and the declared defaults for the rest; a clone equals its original and a saved and restored agent (with its buffers) equals the saved one, and changing one agent never changes another. The annotations report the variables as declared.",
     ["programs", "inputs", "histories"], "all declarations (types, nesting, names, defaults, internal), all input documents, and all orders of loading, changing, cloning, saving and restoring",
     "tests preprocess a dozen snippets and compare generated text, which is not compiled or run",
     ["cli/cycpp.py", "src/infile_tree.h", "src/infile_tree.cc", "src/agent.cc", "src/facility.cc", "src/institution.cc", "src/region.cc"],
     [("declaration", "type, names, default and visibility of each state variable", "cli/cycpp.py context"), ("state", "members and buffers of an agent", "generated code")],
     [("schema", "cli/cycpp.py SchemaFilter"), ("loading", "cli/cycpp.py InfileToDbFilter, InitFromDbFilter"), ("cloning", "cli/cycpp.py CloneFilter, InitFromCopyFilter"), ("saving", "cli/cycpp.py SnapshotFilter, SnapshotInvFilter, InitInvFilter"), ("annotations", "cli/cycpp.py AnnotationsFilter")],
     ["schema verdicts, members after loading, cloning and restoring, buffer contents, annotations"], "no", TV, "the specification enumerates all 559 declarations of one variable (53 types, modes, naming styles); they are grouped into about 60 classes, preprocessed, compiled and run on random documents and on the schedules of the life-cycle model")
prop("P22", "The optimising solver's trades cannot be improved",
     "With an optimising solver, no other allowed set of trades on the same exchange has a lower total cost, where a traded unit costs the inverse of its preference and a unit of unmet demand ten percent more than the dearest pair. This holds with and without exclusive orders, for any capacities and coefficients.",
     ["inputs", "configurations"], "all exchanges: portfolios, preferences, capacities, unit capacities, mutual and exclusive requests and bids",
     "tests solve a dozen hand-made graphs and compare the flows",
     ["src/prog_translator.cc", "src/prog_solver.cc", "src/solver_factory.cc", "src/exchange_solver.cc", "src/exchange_graph.cc"],
     [("exchange graph", "groups, nodes, arcs, capacities", "src/exchange_graph.h"), ("program", "columns and rows of the translated problem", "src/prog_translator.h")],
     [("translation", "src/prog_translator.cc Translate, XlateGrp_"), ("solving", "src/solver_factory.cc SolveProg"), ("back translation", "src/prog_translator.cc FromProg")],
     ["matches of the solved exchange"], "no", TV, "TLC compares the recorded solution of every exchange with at most six pairs with all allowed combinations of half-unit moves and exclusive switches (the cost is convex in the rest); objectives compared to half a percent")
prop("P23", "Build decisions meet unmet demand at the least cost",
     "Asked for some capacity of a commodity, the building manager orders only producers of it that its registered builders can build, in numbers whose capacity covers the demand and whose total cost no other choice undercuts; without demand, or without a producer that could help, it orders nothing. Supply is the total capacity of the producers registered at the moment, and demand is the registered function's value at the time asked for: linear, exponential, or pieced together with or without jumps.",
     ["inputs", "histories"], "all sets of producers, capacities, costs and demands, and all orders of registering, changing, building and retiring",
     "tests take one two-producer decision and evaluate each function at a few points",
     ["src/toolkit/building_manager.cc", "src/toolkit/builder.h", "src/toolkit/commodity_producer.cc", "src/toolkit/commodity_producer.h", "src/toolkit/commodity_producer_manager.cc", "src/toolkit/supply_demand_manager.cc", "src/toolkit/supply_demand_manager.h", "src/toolkit/symbolic_functions.cc", "src/toolkit/symbolic_function_factories.cc", "src/toolkit/commodity.cc"],
     [("producers", "capacity and cost per commodity", "src/toolkit/commodity_producer.h"), ("registrations", "builders and producer managers", "src/toolkit/builder.h"), ("demand functions", "per commodity", "src/toolkit/supply_demand_manager.h")],
     [("decision", "src/toolkit/building_manager.cc MakeBuildDecision"), ("supply and demand", "src/toolkit/supply_demand_manager.cc Supply"), ("functions", "src/toolkit/symbolic_function_factories.cc AddFunction, src/toolkit/symbolic_functions.cc value")],
     ["build orders, supply, demand, producers' data"], "no", TV, "TLC checks the deployment loop (supply covers demand after every step, no unit could be left out) for every small fleet; its schedules and random histories replayed, each decision compared with the exact optimum computed in TLA+")
prop("P24", "Input documents mean the same in XML and in JSON",
     "Converting an input document from XML to JSON, from JSON to XML, or back and forth any number of times never fails and never changes what the document says: every element, its text, the order and number of elements of the same name, and every number to full precision. Empty elements, empty lists, single-item lists, markup characters and non-ASCII text are no exception.",
     ["inputs", "histories"], "all documents of elements with text or elements, all JSON objects of texts, numbers, truth values, nulls, lists and objects, and all chains of conversions",
     "tests convert one small sample each way",
     ["src/toolkit/infile_converters.cc", "src/toolkit/infile_converters.h", "src/infile_tree.cc", "src/xml_parser.cc"],
     [("document", "the text of the document", "src/toolkit/infile_converters.cc")],
     [("JSON to XML", "src/toolkit/infile_converters.cc JsonToXml"), ("XML to JSON", "src/toolkit/infile_converters.cc XmlToJson")],
     ["the converted documents, read by independent parsers"], "no", TV, "TLC checks that the conversions keep the meaning and settle for every small document; those documents and random ones converted back and forth by the real code, each result's meaning compared with the specification's")
prop("P25", "Decay depends on the elapsed time alone",
     "Decaying a material or a composition over some time gives the same contents however the time is divided into steps, whatever else was decayed before and however long a time step is; only decaying nuclides and their products change, and the quantity does not. Materials decay up to the time asked for when decay is manual, whenever their composition is read when it is lazy, and not at all when it is off, and never backwards. Parts and copies of a material keep its age, and a material given a new composition starts anew.",
     ["histories", "inputs", "configurations"], "all sequences of time steps, decays, readings, splits, merges, copies and transmutations, for all compositions and the three decay modes",
     "tests decay one material once per mode, and most of them need data that is not in the repository",
     ["src/material.cc", "src/material.h", "src/composition.cc", "src/composition.h", "src/toolkit/res_buf.h"],
     [("material", "contents and the time they are valid for", "src/material.h"), ("decay chain", "decayed compositions by time", "src/composition.h")],
     [("decay of a material", "src/material.cc Decay, comp, Transmute, Absorb, ExtractComp"), ("decay of a composition", "src/composition.cc Decay, NewDecay")],
     ["contents, quantities and decay times of materials and compositions"], "no", TV, "TLC checks that contents are a function of elapsed time on every small history; those and random histories replayed with a stand-in for the external matrix-exponential library, every content compared with the specification's")
prop("P26", "The bundled facilities do what their input says in whole simulations",
     "In every run of the bundled source, sink and power-law facilities no supplier sends more per time step than its declared capacity and no consumer takes more than its declared throughput or than its inventory has room for, whatever mix of commodities is on offer, and nothing on offer stays unsold while somebody asking for it still wants more. What is delivered has the supplier's recipe or else the requested composition, and inventories hold exactly what was received. Prey and predators are born, hunt, eat and die exactly when their declared ages, appetites and frequencies say.",
     ["configurations", "histories"], "all sets of prototypes with all parameters, numbers of facilities and lifetimes, and every way the exchange may pair them up over time",
     "tests construct single facilities and never run them together; the integration tests look at a few fixed input files",
     ["agents/source.cc", "agents/sink.cc", "agents/sink.h", "agents/k_facility.cc", "agents/k_facility.h", "agents/prey.cc", "agents/predator.cc", "agents/predator.h"],
     [("facility", "capacities, inventory, age and appetite", "agents/*.h"), ("exchange", "requests, bids and trades of a step", "src/exchange_manager.h")],
     [("requests and bids", "agents/sink.cc GetMatlRequests, GetProductRequests; agents/source.cc GetMatlBids"), ("delivery", "agents/source.cc GetMatlTrades; agents/sink.cc AcceptMatlTrades"), ("end of step", "agents/k_facility.cc Tock; agents/prey.cc, agents/predator.cc Tock, GiveBirth")],
     ["AgentEntry, AgentExit, Transactions, Resources, Compositions, ExplicitInventory, Finish rows of the output database"], "no", TV, "TLC explores every pairing for about 1100 small configurations; the same configurations and random ones run from generated input files through the real loader and kernel, every step of the output database explained by the specification. Assumes a consumer is offered materials or products, not both.")
prop("P27", "Python code records and reads back what it means, in memory or on disk",
     "What Python code records comes back from every kind of output - in memory, SQLite, HDF5 - under the same columns, with the same values of the same Python types in the same order, for every supported value type, and conditional queries give the same answer everywhere. The output in memory holds exactly the rows recorded in the tables it was told to keep since it was told, drops the others at once, and finds a table it does not hold in the database behind it. The list of tables is always the current one, and asking for one that does not exist never harms the process.",
     ["inputs", "histories"], "all value types and values, all interleavings of recording, flushing, choosing tables, reopening and querying, and all combinations of conditions",
     "tests record one table of three integers and query it once",
     ["cyclus/lib.pyx", "cyclus/memback.pyx", "cyclus/gentypesystem.py", "cyclus/cpp_cyclus.pxd"],
     [("kept tables", "rows by table in memory, and which tables are stored", "cyclus/memback.pyx"), ("recorder", "rows waiting for the outputs", "src/recorder.h")],
     [("recording", "cyclus/lib.pyx Datum.add_val, record; cyclus/memback.pyx Notify"), ("choosing tables", "cyclus/memback.pyx registry"), ("querying", "cyclus/memback.pyx query, _apply_conds; cyclus/lib.pyx query, tables, schema")],
     ["data frames, table lists and column lists"], "no", TV, "all 3-operation (thorough: 4) histories of the in-memory output over a database in the model, replayed on the compiled Python modules; all 285 database types through every output that holds them; random histories over up to three outputs. Assumes the recorder is closed before its outputs go away.")
prop("P28", "What a material reports about its contents is what is in it",
     "For every material, however it came about, the reported mass, moles, mass fraction and atom fraction of each nuclide, alone, by name or summed over a set, follow from its actual contents, whether its composition was stated by mass or by atoms; nuclides that are absent count as zero, and asking changes nothing. The reported extractable amount of a composition can be taken out and no more can; two materials are reported equal exactly when every nuclide's fraction agrees within the tolerance. Uranium assays and amounts follow from the contents too, and enrichment feed, tails and separative work balance total and fissile mass for all assays.",
     ["inputs", "histories"], "all compositions, stated by mass or by atoms, all histories of merging, splitting and transmuting, all sets of nuclides, and all assays and quantities",
     "tests query a few fixed materials of two or three nuclides",
     ["src/toolkit/mat_query.cc", "src/toolkit/enrichment.cc", "src/comp_math.cc", "src/composition.cc"],
     [("material", "mass per nuclide", "src/material.h"), ("composition", "mass and atom fractions", "src/composition.h")],
     [("queries", "src/toolkit/mat_query.cc mass, moles, mass_frac, atom_frac, AlmostEq, Amount"), ("enrichment", "src/toolkit/enrichment.cc FeedQty, TailsQty, SwuRequired, ValueFunc, UraniumAssay*, UraniumQty"), ("conversion", "src/composition.cc mass, atom")],
     ["the numbers returned"], "no", TV, "TLC checks additivity, maximality of the extractable amount and the enrichment balances on every history of 3 (thorough: 4) operations over two materials; those and random histories replayed, every reported number compared with the specification's. Fractions are compared to about one part in a thousand.")
