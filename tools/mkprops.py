import json
A="src/pycba/analysis.py";B="src/pycba/beam.py";BR="src/pycba/bridge.py";R="src/pycba/results.py";LC="src/pycba/load_cases.py";P="src/pycba/pattern.py";IL="src/pycba/inf_lines.py";NL="src/pycba/nonlinear.py";V="src/pycba/vehicle.py";U="src/pycba/units.py";PL="src/pycba/plotting.py";RE="src/pycba/render.py";MO="src/pycba/modal.py";F="src/pycba/foundation.py";S="src/pycba/section.py";L="src/pycba/load.py";PS="src/pycba/prestress.py"
def m(n,w): return {"name":n,"where":w}
def st(n,me,w): return {"name":n,"meaning":me,"where":w}
rows=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":mech}}
    if state: d["anchors"]["state"]=state
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    rows.append(d)

p("C01","Every analysis reports the model as it is now, whatever happened before",
"After any sequence of edits (loads added or replaced, supports and springs changed, support movements changed, spans resampled) and analyses on a beam model, a completed analysis reports the displacements, reactions, moments, shears, rotations and deflections that a newly built model with the same current definition reports. Nothing left over from an earlier load set, support layout or analysis, on this model or any other model in the process, influences the result, not even what a caller wrote into results or member matrices it was given. If a new model would be rejected, the edited one is rejected with the same kind of error.",
["histories","fault_sequences","inputs"],"every history of edits, successful and failed analyses over one or several interleaved models, every member type, section kind, foundation, spring and load type",
"Tests build one model, analyse it once or twice and compare with a textbook number; they never compare a long-lived, much-edited model with a fresh one, nor interleave models or fail analyses between edits.",
[A,B,F,R,L],[m("BeamAnalysis.analyze rebuilds loads, stiffness and results",A),m("Beam._set_loads re-parses the load matrix",B),m("foundation element cache invalidated on structure change",B)],
[st("load matrix","loads applied at the next analysis",B),st("foundation cache","per-span super-elements",B)],["BeamAnalysis.beam_results"])

p("C02","A failed or interrupted analysis changes nothing and can be retried",
"If an analysis raises (singular or invalid model, numerical failure, out of memory, keyboard interrupt at any point), the model still shows the complete results of the last successful analysis or none if there was none, with its definition, loads and number of evaluation points unchanged. Results are never a mixture of two analyses. Once the cause is gone, repeating the analysis gives what an undisturbed model would give.",
["crash_points","fault_sequences","histories"],"every point inside an analysis at which an exception can be raised, for every history before it",
"Tests only check that a bad model raises; none interrupts an analysis part-way or looks at the model afterwards.",
[A,B,R],[m("results published by one assignment at the end of analyze",A),m("stability verdict recorded only after the check passes",A)],
[st("beam_results","last completed results",A),st("npts","evaluation points per span",A)],["BeamAnalysis.beam_results","BeamAnalysis.npts"])

p("C03","The stability verdict always belongs to the current structure",
"With checking on, analysing a mechanism is refused and analysing a stable structure is accepted, whatever sequence of support edits, earlier verdicts, overrides of the check, stability queries or failures came before. The stability query answers for the current structure and agrees with what a newly built model would answer. Neither the query nor an overridden check changes any result or makes a later check be skipped.",
["histories","fault_sequences"],"every order of support edits between stable structures and mechanisms, stability queries, checked and unchecked analyses, interrupted checks",
"Tests toggle one support once; the remembered verdict can go stale only under particular orders of query, override, edit and failure.",
[A,B],[m("stability verdict remembered against a structure version",A),m("structure version bumped by restraint, prescribed-displacement and span edits",B)],
[st("checked version","structure for which the check passed",A)],["BeamAnalysis.is_stable","BeamAnalysis.analyze"])

p("C04","Results already handed out never change",
"A result object obtained from an analysis (beam results, envelopes, moving-load histories, influence lines, nonlinear results, vibration modes) keeps exactly the same numbers after any later edit, analysis, envelope operation, plot, export or failure on the model or objects it came from. Two results obtained at different times never share a number that a later operation of the library changes.",
["histories","fault_sequences"],"every continuation of the history after a result was obtained",
"Tests read a result immediately after computing it and drop it; aliasing shows only when an old result is read again after later operations.",
[R,A,BR,IL,NL,MO],[m("BeamResults built with own arrays per analysis",R),m("Envelopes accumulate into own arrays",R),m("influence line returned as new arrays",IL)],None,["BeamResults","Envelopes","NonlinearResults","ModalResults"])

p("C05","A moving-load run equals independent static analyses of its positions",
"Every traverse of a vehicle, with or without a lane load and exclusion clearances, reports for each of its positions the result of a separate static analysis of the permanent loads plus the axles that stand on the deck and the lane load outside the exclusion zone, and its envelope is the pointwise extreme of those. Earlier traverses, other vehicles, requested shear sections of earlier runs, runs that were aborted and whatever callers wrote into earlier results do not influence it. The reported critical positions and values are those of the current run.",
["histories","fault_sequences","inputs"],"every history of runs, vehicles, partial ranges, shear sections, aborted runs and permanent-load edits on one bridge",
"Tests run one vehicle over one fresh bridge; they do not repeat runs, abort them, or compare each position with a separate analysis.",
[BR,R,V,A],[m("run_vehicle/run_load_model loop",BR),m("axle and lane load placement",BR),m("Envelopes accumulation",R)],
[st("pos, vResults","positions and results of the current run",BR)],["BridgeAnalysis.run_vehicle","BridgeAnalysis.run_load_model","BridgeAnalysis.critical_values"])

p("C06","A moving-load run leaves the bridge as it found it, even when it fails",
"After a traverse, a static vehicle placement or a vehicle drawing ends, normally or by an error or interrupted drawing, the bridge model carries its permanent loads only, has no shear sections armed, keeps its supports and evaluation count, and the vehicle is unchanged. The next ordinary analysis of the bridge gives what it gave before the run, and loads added to the bridge afterwards take part in later runs.",
["fault_sequences","histories","crash_points"],"every failure point of a run (numerical, allocation, drawing, invalid arguments) in every history",
"Tests check that shear sections are cleared after one successful run; no test fails a run part-way and continues with the model.",
[BR,A],[m("cleanup in finally blocks of the run functions",BR),m("permanent loads retained",BR)],
[st("shear_points","extra recovery sections armed during a run",A),st("permanent loads","loads superimposed in each position",BR)],["BridgeAnalysis.ba"])

p("C07","Influence lines survive repetition and interruption",
"Influence lines describe one complete unit-load traverse: positions and ordinates always have the same length and belong together, and each ordinate equals a separate analysis with the load at that position. Regenerating them with another step, or having a regeneration interrupted and retried, gives the same as a first generation. Reading or plotting them changes nothing, and what a caller writes into the arrays it was given does not come back with the next reading.",
["histories","fault_sequences","crash_points"],"every sequence of generation, regeneration, interruption and reading, for every beam and load effect",
"Tests generate once and read once.",
[IL,A],[m("create_ils traverse",IL),m("get_il reads positions and results",IL)],[st("pos, vResults","traverse positions and results",IL)],["InfluenceLines.get_il"])

p("C08","Load cases and combinations equal direct analyses and stay isolated",
"The response of each load case and the case envelope equal direct analyses of the template beam (all its properties included: sections, shear stiffness, foundation, springs, support movements) under those loads, an analysed combination equals the direct analysis of the factored loads, and a linear combination of responses is the weighted sum of the case responses, whatever cases were edited or analysed before. Analysing cases never alters the template beam, its loads or results, nor another case. A rejected edit of a case, or one that runs out of memory, leaves the collection as it was. Writing into the results or rows handed out reaches neither the cases nor later answers.",
["histories","fault_sequences","inputs"],"every history of adding, replacing, editing, combining and analysing cases, with failures in between",
"Tests analyse a few fixed cases on a simple template and do not check the template or sibling cases after edits or failures.",
[LC,A,B],[m("build_pycba_model builds an independent model per case",LC),m("LoadCases add/set/append copy their inputs",LC),m("combined_loads factors the load matrices",LC)],[st("case list","named load cases",LC)],["LoadCases.envelope","LoadCases.combine","LoadCases.analyze_combination"])

p("C09","Pattern loading is all-or-nothing and repeatable",
"A load-pattern run gives the envelope of the factored arrangements of the loads currently set, on the full beam definition, no matter how often it has run before or whether earlier runs were interrupted. If the run fails, the beam model's loads, results and evaluation count are those before the run. The nominal load lists set by the user are never modified.",
["histories","fault_sequences","crash_points"],"every sequence of setting loads and factors, completed and interrupted runs",
"Tests run one pattern once.",
[P,LC],[m("LoadPattern.analyze loop over generated cases",P),m("to_load_cases factoring",P)],[st("nominal loads and factors","pattern definition",P)],["LoadPattern.analyze"])

p("C10","Envelope operations never corrupt the envelopes they combine",
"Combining, summing, scaling to zero or augmenting envelopes in any order gives the pointwise extremes or sums of their contributions and leaves every other envelope untouched; only an explicit augmentation changes its own target. A rejected or interrupted combination leaves both operands unchanged. Combining the same set in another order gives the same extremes.",
["histories","fault_sequences","inputs"],"every sequence of combine, sum, augment and zero operations over a pool of envelopes, including incompatible ones and interrupted operations",
"Tests combine two envelopes once.",
[R],[m("Envelopes augment/sum/combine",R),m("compatibility checks before mutation",R)],[st("envelope arrays","extremes and coincident effects",R)],["Envelopes"])

p("C11","Nonlinear collapse analyses are independent of each other",
"Each plastic (collapse) analysis starts from the undamaged beam: repeating it, interleaving it with analyses of other beams or loads, or retrying after an interrupted run gives the same load factor, hinge history and load-displacement path as a first run in a fresh process. Hinge states and load factors of an earlier or aborted run never leak into a later one, and writing into a result that was handed out, or into the arrays the beam was built from, does not reach the beam or later runs.",
["histories","fault_sequences","crash_points"],"every sequence of nonlinear analyses, interleavings and interruption points",
"Tests run each nonlinear analysis once.",
[NL],[m("NonlinearBeamAnalysis.analyze resets run state",NL)],[st("hinge/section state","plasticity state during a run",NL)],["NonlinearBeamAnalysis.analyze"])

p("C12","An exported CSV is complete and exact, or the caller is told",
"When a CSV export returns normally, the file holds every station and every value of the results exactly (reading it back gives the same numbers). When the disk is full, the write is short, the file cannot be opened or closed, the export raises and the in-memory results are unchanged. A later retry on a healthy disk produces the complete file, with no remains of the failed one.",
["fault_sequences","crash_points"],"every disk fault at every byte or call of the export",
"Tests export to a healthy disk only.",
[R,A],[m("to_dataframe and to_csv",R)],None,["BeamResults.to_csv","BeamAnalysis.to_csv"])

p("C13","A drawing export that returns normally has produced its file",
"Saving the schematic as TikZ, compiling it to PDF, or saving a figure returns normally only if the complete file is there; a missing or failing compiler, or a write error, is reported as an error. The written TikZ text is exactly what the in-memory rendering gives, and a failed export can be repeated successfully. Failure leaves the model and its results unchanged.",
["fault_sequences"],"every fault of the disk and of the external compiler, in any order with healthy exports",
"Tests have no compiler faults or disk faults; they check text written to a healthy disk.",
[RE,B,A],[m("save_tikz and compile via pdflatex",RE)],None,["Beam.save_tikz","Beam.plot"])

p("C14","Display units and backends affect only presentation and never leak",
"Setting the global display units or plotting backend takes effect until set again; a rejected setting keeps the previous one. A units or backend override given to one call applies to that call only, also when that call fails. No display setting ever changes a computed or exported number. Drawing leaves the plotting library's own settings as they were.",
["histories","fault_sequences"],"every sequence of global settings, rejected settings, per-call overrides, failing drawings and analyses",
"Tests set units once per test and reset; failing draws under an override are not tried.",
[U,PL,RE,A,R],[m("set_units/resolve",U),m("set_backend/resolve_backend",PL)],[st("default unit system","global display setting",U),st("default backend","global plotting backend",PL)],["get_units","plot labels"])

p("C15","Drawing observes and never modifies",
"Drawing beams, loads, results, envelopes, influence lines, vehicles, load cases or nonlinear results, with any supported backend, succeeds or fails without changing the model, its loads, its results, envelopes, cases or vehicles. A later analysis gives the same numbers as if nothing had been drawn. Drawing the same state twice, from the same or an equal model, shows the same data.",
["histories","fault_sequences"],"every drawing call at every point of a history, with failures injected at every drawing primitive",
"Tests draw once and look at the picture, not at the model afterwards, and drawing never fails in them.",
[RE,A,BR,R,IL,LC,V,NL,PL],[m("BeamPlotter",RE),m("plot methods",A)],None,["plot_* methods"])

p("C16","Separate models can be used from concurrent threads",
"Threads that each work on their own models, bridges, envelopes, influence lines or nonlinear analyses, or that only read a shared template beam, vehicle, section or result, get exactly the results they would get running alone, under every interleaving. An error in one thread does not affect the others.",
["schedules","fault_sequences","histories"],"every preemptive interleaving of the threads at source-line granularity",
"Tests are single-threaded.",
[A,B,R,F,S,LC,NL,BR,RE,U],[m("per-object state only",A),m("foundation cache is per beam",B)],None,["all public analyses"])

p("C17","A rejected edit leaves the object as it was",
"When adding a span, setting support movements or restraints, building up a section, defining a load, setting or adding loads of a case (directly or through the row helpers), giving a bridge another beam or giving clearances is refused with an error, the object keeps its previous definition in full and remains usable. Later analyses give what they would have given without the rejected call.",
["histories","inputs"],"every kind of rejected call at every point of a history",
"Tests assert that the error is raised and stop there.",
[B,S,LC,BR,U,PL],[m("Beam.add_span validation",B),m("prescribed displacement length check",B),m("SectionEI.add_segment validation",S)],None,["Beam","SectionEI","LoadCases"])

p("C18","Objects built from the same inputs are independent of each other",
"Models, vehicles, trains, load cases and bridges built from the same load lists, section objects, library vehicles or tendons never influence each other: changing or analysing one leaves the others and the inputs as they were, and changing an input afterwards (a load row, a list, an extended section) does not reach the models already built from it. A bridge uses the vehicle it was given, in its current state. A library vehicle is the same every time it is requested. Reversing a vehicle, making a train or copying it reflects the vehicle's current state and leaves the source as it was unless in-place change was asked for.",
["histories","inputs"],"every history of building objects from shared inputs and then changing, reversing, joining and analysing them",
"Tests build each object from its own literals.",
[V,B,LC,S,PS,A],[m("Vehicle constructor and reverse",V),m("make_train",V),m("VehicleLibrary class data",V),m("load list ownership",B)],[st("library axle tables","class-level data",V)],["Vehicle","Beam.loads"])

p("C19","Vibration analysis and static analysis do not disturb each other",
"Natural frequencies and mode shapes depend only on the current beam and mass, not on loads, static analyses, earlier modal analyses or failures before them. Asking for them does not change the model, its loads or its static results, and a failed or interrupted request can be repeated with the right answer; so can one whose answer the caller has overwritten.",
["histories","fault_sequences"],"every interleaving of modal requests, static analyses, edits and failures",
"Tests compute modes of a fresh beam once.",
[MO,A,B],[m("solve_modal builds its own refined matrices",MO)],None,["BeamAnalysis.modal"])

p("C20","Copies and saved states carry on exactly where the original stood",
"A model, bridge, load-case collection, load pattern, influence line, nonlinear beam, envelope, result, section, vehicle or tendon that is deep-copied or pickled at any point of its history, and restored in the same process or after a crash in another one, shows the same definition and the same results as the original did. Afterwards the original and every copy are independent: editing, analysing or dropping one leaves the others as they were, and each gives the results a newly built object with its own definition gives. A process that dies at any point loses only what was done after the last saved state; completed exports stay complete.",
["crash_points","histories","fault_sequences"],"every history of edits, failed and interrupted analyses, copies, saves, restores and process deaths between or inside operations",
"Tests never copy or save an object that has a history, and no test restores one in another process or kills a process.",
[A,B,BR,R,LC,P,IL,NL,S,V,F],[m("state held by the object itself, not by identity or process-wide tables",A),m("foundation cache travels with its beam",B),m("load list shared between a model and its bridge",BR)],
[st("beam definition and loads","what the next analysis uses",B),st("beam_results","last completed results",A),st("static_LM","permanent loads of a bridge",BR)],["copy.deepcopy","pickle","BeamAnalysis","BridgeAnalysis","LoadCases","Envelopes"])

# ---- pure-function properties: not applicable to this technique
def na(id,title,statement,over,why,files,mech):
    p(id,title,statement,over,"every admissible input",why,files,mech)
pure="Tests compare a handful of textbook cases; the statement is for every input."
I=["inputs","configurations"]
na("C30","Analysed beams are in equilibrium and compatible","For every stable beam and loading, reactions balance the applied loads, internal actions balance at every section, and displacements satisfy the support conditions.",I,pure,[A,R],[m("solve and recover",A)])
na("C31","Responses superpose and scale linearly","For every linear beam, the response to a sum or multiple of loads is the sum or multiple of the responses.",I,pure,[A,L],[m("linear solve",A)])
na("C32","Reciprocity of displacements","The deflection at one point due to a unit load at a second equals the deflection at the second due to the load at the first.",I,pure,[A],[m("symmetric stiffness",B)])
na("C33","Fixed-end forces and internal actions are exact for every load type","For point, uniform, partial, trapezoidal, moment and imposed-curvature loads the fixed-end forces and in-span diagrams match exact beam theory for every position and release.",I,pure,[L,R],[m("load classes",L)])
na("C34","Non-prismatic, shear-flexible and foundation members converge to theory","Stiffness and recovered actions of variable-section, shear-deformable and elastically supported members match the governing differential equation within stated accuracy.",I,pure,[B,S,F],[m("flexibility integration",B)])
na("C35","Influence lines agree with the Mueller-Breslau principle","Every influence line equals the deflected shape of the correspondingly released structure.",I,pure,[IL],[m("create_ils",IL)])
na("C36","Vibration modes converge and are orthogonal","Natural frequencies bound and converge to theory with refinement and modes are mass-orthogonal.",I,pure,[MO],[m("solve_modal",MO)])
na("C37","Collapse load factors respect the plastic bound theorems","The collapse load factor lies between static and kinematic bounds and plastic moments are never exceeded.",I,pure,[NL],[m("incremental analysis",NL)])
na("C38","Tendon equivalent loads reproduce the prestress moments","Equivalent loads of a tendon profile reproduce force times eccentricity and are self-equilibrating.",I,pure,[PS],[m("equivalent loads",PS)])
na("C39","Beam and support notations parse to the same model","Every accepted textual or structured description of a beam or its supports produces the same model as the explicit vectors, and every malformed one is rejected.",I,pure,["src/pycba/types.py","src/pycba/utils.py"],[m("parsers","src/pycba/utils.py")])
na("C40","Library vehicles have their design-code axle values","Every library vehicle reproduces the axle loads and spacings of its design code.",["configurations"],pure,[V],[m("VehicleLibrary",V)])
na("C41","Drawings show the model faithfully","Schematics and diagrams place supports, loads, labels and ordinates at their true positions and magnitudes.",I,pure,[RE,PL],[m("BeamPlotter",RE)])
with open('/verif/properties.jsonl','w') as f:
    for r in rows: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(rows))
