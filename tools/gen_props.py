"""Writes properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
      "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
SIM='gerabaldi/sim.py';DEV='gerabaldi/models/devices.py';REP='gerabaldi/models/reports.py';ENV='gerabaldi/models/phys_envs.py'
TS='gerabaldi/models/test_specs.py';HLP='gerabaldi/helpers.py';MIN='gerabaldi/math/minimize.py';RV='gerabaldi/models/random_vars.py';ST='gerabaldi/models/states.py'
p("C01","Every test step runs once, in order, on one contiguous clock",
 "Simulating a test executes each of its steps exactly once and in plan order, and the test summary holds exactly one row per step carrying that step's index, name, type, conditions and duration. Steps are contiguous in time: each starts when the previous one ends, stress steps last exactly their duration, measurements take no time, and the first step starts at the initial state's elapsed time.",
 ["inputs","programs"],"all test plans (any sequence of stress and measurement steps, repeated step objects, any durations and units, any condition sets) and all initial elapsed times",
 "the suite checks three or four fixed plans and looks at single cells of the summary; step order, repeated steps, mixed condition sets and non-zero starting times are never combined",
 [SIM,REP,TS],[("simulate loop over the test steps",SIM+":simulate"),("elapsed time update and summary rows",SIM+":_sim_stress_step,_sim_meas_step"),("summary accumulation",REP+":add_summary_report")],
 [("elapsed","accumulated test time",ST)],["report.test_summary"])
p("C02","Measurements cover exactly the requested devices, correctly labelled",
 "A measurement step reports, for each measured device parameter, exactly one value for each of the requested number of devices on every chip of every lot, labelled with that device, chip, lot, step and the current test time; environmental condition measurements give the requested number of unlabelled values. A label always denotes the same physical device throughout the test, also when only some of the devices are measured in a step.",
 ["inputs","configurations"],"all numbers of devices, chips and lots, all measurement subsets and all sequences of measurement steps",
 "tests check row counts and single cells of one or two shapes; swapped lots and chips, or values attached to the wrong device, are invisible in them",
 [SIM,REP,DEV],[("row construction",REP+":format_measurements"),("subset of devices",DEV+":_reduce_dev_dim_size"),("rows are appended per step",REP+":add_measurements")],
 [("measurements","all measured values",REP)],["report.measurements"])
p("C03","Degradation accumulates through equivalent stress time",
 "After every stress step each device's degradation equals its model evaluated at the equivalent time that reaches the degradation it had before the step under the new conditions, plus the step's duration. Hence degradation is continuous across condition changes and splitting a stress interval into consecutive intervals under the same conditions does not change it (up to the solver's tolerance), for every device, parameter and mechanism separately.",
 ["histories","inputs"],"all histories of stress steps under varying conditions and durations, all per-device latent values, all monotone degradation laws",
 "tests compare a handful of final numbers of fixed two-step histories; they cannot quantify over histories, condition orders or magnitudes",
 [SIM,DEV,MIN],[("equivalent time search",DEV+":DegMechMdl.calc_equiv_strs_time"),("stress loop",SIM+":_sim_stress_step"),("minimiser",MIN)],
 [("curr_deg_mech_vals","degradation per mechanism and device",ST)],["measured values after stress"])
p("C04","Stress that cannot degrade a device leaves its damage untouched",
 "When a stress step cannot bring a device to its present degradation in any relevant amount of time (below a threshold, or past the saturation level of those conditions), that device keeps exactly its previous degradation: damage is never lost or altered by it, and the other devices in the same step still degrade normally. Degradation resumes from the kept value when conditions become harsh enough again.",
 ["histories","inputs"],"all histories mixing effective and ineffective stress, with devices on both sides of the threshold in one step, in all time units",
 "one regression test covers a single threshold example; loss of damage needs a specific order of conditions on devices with specific latent values",
 [DEV],[("no-degradation mask",DEV+":MechMdl.calc_deg_vals"),("upper bound of the equivalent time",DEV+":calc_equiv_strs_time")],
 [("curr_deg_mech_vals","degradation per mechanism and device",ST)],["measured values"])
p("C05","Hard failures are permanent and memoryless",
 "Once a hard-failure mechanism has failed a device, its failure value never changes again under any later stress, and no other device is affected. Whether a device that has not failed yet fails in a stress step depends only on that step's own conditions and duration and the device's latent values, not on stress applied before.",
 ["histories","inputs"],"all histories of stress steps, all failure criteria and failure values, all devices",
 "a single test applies one failing step; permanence and memorylessness quantify over histories",
 [DEV],[("failed devices keep their value",DEV+":FailMechMdl.calc_deg_vals"),("no equivalent time",DEV+":FailMechMdl.calc_equiv_strs_time")],
 [("curr_deg_mech_vals","failure state per device",ST)],["measured values"])
p("C06","Measuring does not disturb the devices",
 "Measurement steps never change any device: inserting, repeating or removing measurement steps, under any measurement conditions and with any instruments, leaves every other measured true value and the whole subsequent degradation unchanged. Two measurements of the same devices under the same conditions without stress in between give the same values when environment and instruments are ideal.",
 ["histories","programs"],"all plans and all sets of inserted measurement steps",
 "no test runs the same plan with and without measurements",
 [SIM,DEV],[("measurement works on derived values only",SIM+":_sim_meas_step"),("conditional shift",DEV+":calc_cond_shifted_vals")],
 [("curr_prm_vals","true parameter values",ST)],["measured values"])
p("C07","Simulation leaves its inputs unchanged and is reproducible",
 "Simulating does not modify the test plan, its steps, the device model's definition, the test environment or a supplied initial state, so all can be reused for further simulations. Running the same deterministic setup again from the same initial state, or identically seeded setups, yields identical reports.",
 ["inputs","histories"],"all setups and all sequences of simulations sharing objects",
 "no test reuses objects after a simulation and compares",
 [SIM,DEV,TS,REP],[("initial state is copied",SIM+":simulate"),("state constructor copies",ST),("parameter sub-setting copies",DEV+":_reduce_dev_dim_size")],
 (),["inputs before and after simulate, reports"])
p("C08","Results do not depend on the time units used to describe them",
 "Durations may be given as time spans or as numbers in days, hours, seconds, milliseconds or microseconds (long or short unit names, hours when unspecified), and a mechanism's own unit takes precedence over its parameter's, which takes precedence over the device's, which defaults to hours. Describing the same physical test and model in different units gives the same degradation and the same report times, for every duration.",
 ["configurations","inputs"],"all unit assignments to mechanisms, parameters, device, stress steps and loops, all durations from microseconds to years",
 "tests cover a few unit combinations with one duration each",
 [HLP,DEV,TS,SIM],[("unit conversion",HLP+":_convert_time"),("unit precedence",DEV+":propagate_time_unit,set_time_unit"),("stress duration",TS+":StrsSpec")],
 [("time_unit","unit a mechanism's equation expects",DEV)],["measured values, report times"])
p("C09","Initial states have the right size and fresh values",
 "A generated initial state holds, for every device parameter, one value per device, chip and lot for at least the requested number of devices, raised where a circuit parameter needs more devices of a parameter it depends on. Parameters start at their initial-value model's value, all mechanisms start undegraded, the clock starts at zero or the requested elapsed time, and the caller's device counts are left unchanged.",
 ["inputs","configurations"],"all device models (degrading, circuit and unmeasured parameters), counts, chips, lots, and both ways of requesting sizes",
 "tests generate one or two fixed states",
 [SIM,DEV,ST],[("dependency-driven sizing",SIM+":gen_init_state"),("state generation",DEV+":DeviceMdl.gen_init_state")],
 [("init_prm_vals","initial values",ST)],["returned state"])
p("C10","Latent variation is shared by lot, chip and device as declared",
 "A sampled latent variable combines its base value with one lot-level draw shared by all devices of a lot, one chip-level draw shared by all devices of a chip and independent between chips (also of different lots), and one independent draw per device, multiplied or added according to its variation type. Layers that are not declared have no effect, and each device keeps its sampled latent values through the whole test.",
 ["inputs","configurations"],"all numbers of lots, chips and devices, all subsets of layers, both variation types, with and without a deterministic base value",
 "tests check shapes and a few values for one configuration; sharing mistakes need several lots and chips at once",
 [DEV,RV],[("layered sampling",DEV+":LatentVar.gen_latent_vals")],
 [("latent_var_vals","sampled latent values",ST)],["sampled arrays, measured values"])
p("C11","Reconfiguring variation models always takes full effect",
 "After any sequence of changes to a latent variable or environmental variation model (adding, replacing or removing the distribution of a layer, switching between scaling and offset, changing the base value) it samples exactly like a model newly built with the final configuration. Rejected changes leave it as it was.",
 ["histories"],"all sequences of reconfiguration operations in any order",
 "tests perform one or two fixed reconfigurations; stale neutral values need a specific order of removals and type switches",
 [DEV,ENV],[("attribute machine",DEV+":LatentVar.__setattr__"),("attribute machine",ENV+":EnvVrtnMdl.__setattr__")],
 (),["sampled values"])
p("C12","Environmental variation is shared by batch, chip and device",
 "In every step each environmental condition deviates from its target by one batch-level draw shared by everything in the step, one chip-level draw shared by all devices of a chip across all parameters, and one independent draw per device and parameter; condition sensors share the batch draw and otherwise vary independently. All draws are renewed in every step and conditions without a variation model are applied exactly.",
 ["inputs","configurations"],"all sets of conditions, variation layers and types, numbers of lots, chips, devices and sensors, parameters depending on any subset of conditions, and all step sequences",
 "tests check single values of one environment",
 [ENV,SIM],[("layered condition generation",ENV+":PhysTestEnv.gen_env_cond_vals"),("layers",ENV+":EnvVrtnMdl")],
 (),["conditions seen by models and sensors"])
p("C13","Instruments apply error, then precision, then range",
 "A measured value is the true value plus the instrument's error, rounded to the instrument's number of significant figures, and finally clamped to its measurement range; parts that are not specified are skipped and parameters without an instrument are reported exactly. Every value is treated independently, and order, count and container type of the values are preserved.",
 ["inputs","configurations"],"all values (both signs, all magnitudes, zero, infinite, undefined), precisions, errors, ranges and container types",
 "tests use a few values per feature and combine them once",
 [ENV,SIM],[("measurement pipeline",ENV+":MeasInstrument.measure"),("instrument lookup",ENV+":PhysTestEnv.meas_instm")],
 (),["measure() results, report.measurements"])
p("C14","Test plans contain exactly the appended steps",
 "Appending steps adds them at the end, in order and once; appending them in a loop repeats the whole group until the added stress time reaches the requested duration and no further, warning when it does not fit evenly; requests that would never end or add nothing are rejected and leave the plan unchanged. Iterating a plan yields every step in order, each time it is iterated, and the number of samples needed is the largest number requested of each parameter by any measurement.",
 ["histories","inputs"],"all sequences of append operations, step groups, loop durations and units, and repeated iteration",
 "tests append two or three fixed groups",
 [TS],[("append and loop",TS+":TestSpec.append_steps"),("iteration",TS+":TestSpec.__iter__,__next__"),("sample counting",TS+":calc_samples_needed")],
 [("steps","ordered list of steps",TS)],["plan steps, iteration"])
p("C15","Reports survive export, load and unit conversion",
 "Exporting a report and loading it again preserves the test's name and description, every measurement row, every summary row and all times to the microsecond, whatever time unit is used for the file, and exporting does not change the report. Converting a report's times to a unit expresses the same instants in that unit, also when repeated, and mixing conversions, exports and loads in any order never changes the times or values represented.",
 ["histories","inputs"],"all sequences of export, load and convert operations in all units, on reports of arbitrary content",
 "tests do single exports and conversions of one report in one unit",
 [REP,HLP],[("export and load",REP+":export_to_json,__init__"),("conversion",REP+":convert_report_time")],
 [("time_unit","unit of raw time values",REP)],["loaded reports, exported files"])
p("C16","Mechanisms and parameters evolve independently and compose as declared",
 "A parameter's true value is its compute equation applied to its own initial value, its own latent values and the present degradation of each of its own mechanisms; its measured value additionally includes the conditional shift for the measurement conditions, which never feeds back into the degradation. Adding, removing or stressing other mechanisms or parameters does not change a mechanism's evolution.",
 ["configurations","histories"],"all combinations of parameters, mechanisms, compute equations and conditional shift models, and all histories",
 "tests use models with one or two mechanisms and check single final values",
 [DEV,SIM],[("parameter composition",DEV+":DegPrmMdl.calc_deg_vals,calc_cond_shifted_vals"),("per parameter stress",SIM+":_sim_stress_step")],
 [("curr_deg_mech_vals","degradation per mechanism",ST)],["measured values"])
p("C17","Array and element-by-element equations give the same results",
 "Model equations that only work on single numbers (for example because they branch on their inputs) are evaluated device by device and produce, for every device, the same result as an equivalent equation written for arrays. This holds for initial value, mechanism, conditional shift, parameter and circuit equations, any numbers of devices, chips and lots, and equations that return one constant for all devices.",
 ["configurations","inputs"],"all equation styles in every model position, all shapes",
 "tests use one element-wise equation in one position and shape",
 [DEV,HLP],[("fallback",HLP+":_loop_compute,_get_single_index"),("callers",DEV)],
 (),["measured values"])
p("C18","Circuit parameters are computed from the same device's true values",
 "A measured circuit parameter equals its equation applied, for each measured device, to the true degraded values of the parameters it depends on at the same device, chip and lot, its own latent values and the conditions during the measurement. It reflects all degradation so far, holds for dependencies that are not measured themselves or exist in larger numbers, and never influences any degradation.",
 ["configurations","histories"],"all dependency sets, device counts, measurement subsets and histories",
 "tests measure one circuit parameter on one device layout where lots, chips and devices cannot be told apart",
 [DEV,SIM],[("circuit evaluation",DEV+":CircPrmMdl.calc_circ_vals"),("dependency sizing",SIM+":gen_init_state")],
 (),["measured values"])
p("C19","Logger configuration replaces handlers one for one",
 "Configuring a stream handler replaces the current stream handler and configuring a file handler replaces the current file handler, each leaving the other kind in place, so that after any sequence of configurations there is at most one handler of each kind and it is the last one given. The logging level changes only when one is given.",
 ["histories"],"all sequences of logger configurations with stream and file handlers (also of derived classes) and levels",
 "tests configure one handler of each kind once",
 [HLP],[("handler replacement",HLP+":configure_logger")],
 (),["handlers and level of the package logger"])
p("C20","Exporting variables for inference is faithful and free of side effects",
 "Exporting a latent variable to an inference framework yields a model with one random variable per declared layer, of the declared distribution type and parameters (the device layer centred on the combination of base value and its own centre), combined by the variable's variation type. Exporting any number of times, in any order of frameworks, leaves the variable sampling as before and gives the same model each time.",
 ["histories","configurations"],"all layer subsets, variation types, base values and centres including zero, distribution types and sequences of exports",
 "tests export a few variables once and check types",
 [DEV,RV],[("export",DEV+":LatentVar.cbi_export"),("distribution mapping",RV+":get_cbi_form")],
 (),["exported model variables, subsequent samples"])
p("C21","Invalid requests are rejected and change nothing",
 "Zero stress durations, endless or empty step loops, unknown time units, unknown variation types, latent variables without any value, unnamed models, undefined measured parameters, missing device counts, unsupported frameworks and missing report files are rejected with the documented error, at the latest when they would be used. A rejected request leaves plans, models, environments, states and reports as they were and does not affect later valid requests.",
 ["inputs","histories"],"all kinds of invalid requests interleaved with valid ones in any order",
 "tests provoke some errors in isolation and never look at the objects afterwards",
 [TS,HLP,DEV,ENV,SIM,REP],[("validation",TS),("validation",HLP+":_convert_time"),("validation",DEV+":LatentVar,DegPrmMdl,DeviceMdl"),("validation",SIM)],
 (),["raised errors, object state afterwards"])
p("C22","Cookbook models provide what they document",
 "The prebuilt HTOL test measures at room conditions first and last, applies exactly the requested total stress time at the stress conditions, measures at stress conditions before the stress and after each interval when an interval shorter than the test is requested, and rejects intervals that do not divide the duration; chips, lots, temperature and voltage follow the arguments. The ideal environment applies and measures everything exactly and the prebuilt voltage and temperature environment varies and measures those two as documented (sensor ranges, precision and Celsius reading).",
 ["inputs"],"all HTOL arguments and all conditions in the prebuilt environments",
 "tests build two or three HTOL plans with fixed arguments",
 ["gerabaldi/cookbook/test_specs.py","gerabaldi/cookbook/test_envs.py","gerabaldi/cookbook/mech_mdls.py",TS],[("htol",'gerabaldi/cookbook/test_specs.py'),("environments",'gerabaldi/cookbook/test_envs.py')],
 (),["plan steps, generated conditions, measured values"])
p("C23","The equivalent-time search finds the minimum within bounds",
 "The vectorised minimiser evaluates its function only within the given bounds and returns, for every element independently, a point no worse than any it evaluated and within its tolerance of the minimum of a unimodal function, in linear or logarithmic search. The result for an element does not depend on the other elements beyond that tolerance.",
 ["inputs"],"all unimodal functions, bounds, array shapes and search modes",
 "tests run two or three fixed functions",
 [MIN],[("Brent search",MIN+":minimize")],
 (),["evaluated points, returned minimum"])
p("C24","Random variables sample their declared distribution",
 "Sampling a random variable yields exactly the requested number of fresh, mutually independent values of its declared distribution: the constant value, normal with the given mean and standard deviation, gamma with the given shape and rate, or uniform between the given bounds, always for its present parameters, also after a parameter or the centre (set directly or through an operation on the old centre) was changed. Variables built alike with the same test seed give identical samples, other variables do not.",
 ["inputs","histories"],"all distribution types, parameters (including degenerate ones), sample sizes, sequences of parameter changes and seeds",
 "tests compare a few seeded draws of fixed parameters and never change a variable after building it",
 [RV],[("sampling",RV+":RandomVar.sample"),("parameters of the generator",RV+":_params_for_numpy"),("centre",RV+":Normal.set_centre")],
 (),["sampled values, get_centre"])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
print(len(P))
