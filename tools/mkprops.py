import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
S="src/trusspy/"
WHY="The tests contain no assertion: each runs one or two hand-picked models and passes if nothing raises. "
p("C01","Every stored increment is a static equilibrium of the structure",
 "After a model is built and run, in every result after the undeformed one the resultant of all element forces at every free degree of freedom balances the external load of that result (constant load of earlier steps plus load factor times current load) to within the force tolerance. Locked degrees of freedom carry exactly zero displacement, and the stored nodal force vector equals the vector sum of the stored element forces acting along the deformed element axes, including the reactions at locked degrees of freedom.",
 ["inputs","configurations","histories"],"every truss topology, support pattern, load case, material and solver setting of the bounded world; every stored increment of the run",
 WHY+"A result that is not an equilibrium still passes; the guarantee ranges over all structures, supports, loads and settings.",
 [S+"model.py",S+"elements/element_definition.py",S+"solvers/tpsolver.py",S+"solvers/zerosearch.py"],
 [("equilibrium()",S+"model.py:equilibrium"),("newton() convergence test",S+"solvers/zerosearch.py"),("accept branch",S+"solvers/tpsolver.py:pathfollow")],
 [("Results.R","list of converged increments",S+"handlers/handler_result.py")],["Model.Results.R[i].U / r / lpf / element_force"])
p("C02","Element stretch, stress, force and nodal forces follow the truss law",
 "For any positions of its two end nodes, an element's stretch is its current length over its undeformed length, its stress is the material response to stretch minus one (elastic modulus times it for the elastic material), and its normal force is stress times its own cross-section area. The element pulls its begin node along the deformed axis and its end node by the opposite amount, so every element is self-equilibrated in force and moment, in any spatial direction and for any area and modulus.",
 ["inputs"],"all element orientations on a 3-D lattice, all end-displacement pairs of a lattice, all areas / moduli of the alphabet, begin/end nodes in either order",
 WHY+"A wrong sign, area, length or direction for some orientation passes unnoticed.",
 [S+"elements/element_definition.py",S+"materials/material_definition.py",S+"model.py"],
 [("truss() stage G",S+"elements/element_definition.py"),("umat_el",S+"materials/material_definition.py")],(),
 ["Model.equilibrium -> Analysis.r, stretch, element_stress, element_force"])
p("C03","The tangent stiffness is the exact derivative of the internal forces",
 "At any displacement state the stiffness matrix of the free degrees of freedom equals the derivative of the internal nodal forces with respect to the free displacements, for the elastic material and for both the elastic and the yielding branch of the elastic-plastic material. It is symmetric and, before supports are applied, rigid translations produce no force.",
 ["inputs","histories"],"all lattice displacement states of the bounded structures, all support patterns, elastic and plastic states reached by every short load history",
 WHY+"A wrong tangent only slows or breaks convergence for some states; no test looks at it.",
 [S+"elements/element_definition.py",S+"model.py",S+"materials/material_definition.py"],
 [("truss() stage K",S+"elements/element_definition.py"),("stiffness()",S+"model.py"),("algorithmic tangent",S+"materials/material_definition.py:umat_elplast_iso")],(),
 ["Model.stiffness / Model.equilibrium"])
p("C04","Global force and stiffness are the assembly of all element contributions",
 "The global internal-force vector and stiffness matrix are the sum over all elements of that element's contribution placed at the rows of its own two end nodes, each element using its own material type, material parameters and area. This holds for any topology, including several elements sharing a node or connecting the same two nodes, any (also non-consecutive) node and element labels and any order of definition.",
 ["inputs"],"every multigraph of up to 4 nodes / 4 elements of the bound, every label map and insertion order of the bound, mixed material types",
 WHY+"The test models use labels 1..n in order and a single material, so any lookup slip is invisible.",
 [S+"model.py",S+"elements/element_definition.py",S+"handlers/handler_element.py"],
 [("element loop",S+"model.py:equilibrium"),("scatter-add of r and K",S+"elements/element_definition.py"),("lookups by label",S+"handlers/handler_element.py")],(),
 ["Analysis.r, Analysis.K, Model.stiffness"])
p("C05","Renumbering or reordering the model definition does not change the results",
 "Running the same structure with its nodes, elements, supports and loads entered in a different order, or with nodes and elements relabelled by any one-to-one map, gives the same sequence of load factors and the same displacement, force, stretch and stress for each physical node and element.",
 ["inputs","configurations"],"all permutations of the entry order and all label permutations / gap maps of small structures, elastic and plastic, one and several steps",
 WHY+"It relates many runs of the same structure; the tests run one order each and compare nothing.",
 [S+"model.py",S+"handlers/handler_node.py",S+"handlers/handler_boundary.py",S+"handlers/handler_extforce.py",S+"handlers/handler_element.py"],
 [("fix_nodes / fix_bounds_U / fix_forces sort",S+"handlers"),("label lookups",S+"model.py:equilibrium")],(),["Model.Results.R"])
p("C06","The elastic-plastic material obeys isotropic-hardening plasticity on any path",
 "For every sequence of strains, the stress is the modulus times (strain minus plastic strain), its magnitude never exceeds the current yield stress, the yield stress starts at the initial yield stress and only grows, by the hardening modulus times the accumulated plastic strain. Plastic strain changes only while the stress sits on the yield limit and in the direction of the stress, and inside the elastic range loading and unloading follow the elastic modulus.",
 ["histories","inputs"],"all strain histories over a finite strain alphabet up to the depth bound, for all parameter sets of the alphabet (tension and compression, reversals, perfect plasticity)",
 WHY+"Plastic tests follow at most four monotonic load steps, with no assertion on stress, yield stress or plastic strain.",
 [S+"materials/material_definition.py"],[("return mapping",S+"materials/material_definition.py:umat_elplast_iso")],
 [("state_v","[current yield stress, plastic strain] per element",S+"core/analysis.py")],["umat return values; Results.R[i].element_stress, state_v"])
p("C07","Material history advances once per stored increment and per element",
 "The plastic state of every stored increment is exactly the material update of the state of the previous stored increment with that increment's strains, element by element. Newton iterations, linear predictor solves, rejected or repeated attempts, step cuts and stiffness evaluations never change it, elements never see each other's state, and it carries over from load step to load step.",
 ["histories","schedules","configurations"],"all runs of the bounded world of elastic-plastic structures x load sequences x solver settings that provoke recycles and step cuts",
 WHY+"A state committed too early or twice gives plausible-looking numbers; tests never compare them.",
 [S+"model.py",S+"solvers/tpsolver.py",S+"elements/element_definition.py"],
 [("statev_write commit",S+"model.py:equilibrium"),("commit after accept",S+"solvers/tpsolver.py:pathfollow")],
 [("Analysis.state_v","committed history",S+"core/analysis.py")],["Results.R[i].state_v, element_stress, stretch"])
p("C08","Accepted increments respect the step limits and the control component",
 "In every stored increment without a locked control component, no displacement or load-factor change exceeds its current incremental limit by more than the allowed overshoot factor, and at least one component reaches its full limit. With a locked control component, that component changes in every stored increment by exactly its current limit in the requested direction; without adaptive step control the limits stay at the values the user set.",
 ["histories","configurations","schedules"],"all bounded environments (piecewise-linear equilibrium paths, convergence failures), settings, signs of the control component",
 WHY+"Tests never inspect the increments.",
 [S+"solvers/tpsolver.py",S+"model.py"],[("control equation",S+"solvers/tpsolver.py:f"),("solution_valid test",S+"solvers/tpsolver.py:pathfollow")],
 [("dxmax","current incremental limits",S+"solvers/tpsolver.py")],["differences of consecutive Results.R[i].U / lpf"])
p("C09","Adaptive step control follows its documented rule",
 "With adaptive step control on, all incremental limits change by one common factor: divided by the reduction factor when an attempt fails to converge with an unchanged control component (or the recycles are used up), and multiplied by 1 + (allowed - used)/allowed * increase when an increment converges at the first attempt after more than three increments since the last reduction. No reduction is made once the limits are at or below the minimum factor, no increase once they are at or above the maximum factor, in which case they are set back to the maximum.",
 ["histories","schedules","fault_sequences"],"all bounded sequences of convergence / failure / control-change answers of the nonlinear problem, all settings of the alphabet",
 WHY+"Tests with step control do not check sizes, and only see the one failure history of their model.",
 [S+"solvers/tpsolver.py"],[("dxmax_control",S+"solvers/tpsolver.py"),("counters b and z",S+"solvers/tpsolver.py:pathfollow")],
 [("b","increments since last reduction",S+"solvers/tpsolver.py"),("z","recycle counter",S+"solvers/tpsolver.py")],["sequence of stored increments"])
p("C10","The path is traced forward through limit points without doubling back",
 "For structures with a smooth equilibrium path the stored increments advance monotonically along that path, through load limit points and displacement turning points (snap-through, snap-back and stable again), without reversing direction or jumping to a remote part of the path. Each stored point lies on the exact path.",
 ["inputs","configurations","histories"],"two-bar arches (heights, stiffnesses, load signs, axes) and arch-with-spring snap-back structures x step sizes x step control settings",
 WHY+"Tests of snap-through do not check the direction or the curve.",
 [S+"solvers/tpsolver.py"],[("predictor sign and control choice",S+"solvers/tpsolver.py:pathfollow")],(),["sequence of (U, lpf)"])
p("C11","A run always ends, and what does not converge is never stored",
 "Whatever the nonlinear solver's answers, every run ends after a bounded number of solver iterations. An increment whose iterations did not converge to the tolerances, or that still violates the step limits when the recycles are used up, ends the load step: it is not added to the results, and the converged increments before it stay as they were and are the start of a following step.",
 ["fault_sequences","schedules","histories"],"all bounded sequences of failing / converging / control-switching answers x settings; physical structures with too few iterations and too large steps",
 WHY+"No test ever reaches a failing increment.",
 [S+"solvers/tpsolver.py",S+"model.py"],[("ERROR 1 / ERROR 2 exits",S+"solvers/tpsolver.py:pathfollow"),("recycle limit",S+"solvers/tpsolver.py:pathfollow")],(),["Results.R after run(); number of equilibrium evaluations"])
p("C12","A load step ends exactly at its increment limit or value limit",
 "A load step stores increments until the configured number of increments for that step is reached or until the first increment whose watched component exceeds its limit in magnitude, which is the last one stored; it does not end earlier unless an increment fails. Limits given per step apply to their own step, and the watched component is counted over the free degrees of freedom in node order with the load factor last.",
 ["inputs","configurations"],"all combinations of incs (single, per-step), limits (none, per-step, any component), number of steps, of the bounded world",
 WHY+"Tests never count increments.",
 [S+"solvers/tpsolver.py",S+"model.py"],[("EXIT 1 test",S+"solvers/tpsolver.py:pathfollow"),("per-step incs / xlimit",S+"model.py:run")],(),["len(Results.R), Results.R[i].step"])
p("C13","Load steps superpose: earlier steps stay at their final load factor",
 "In step s the external load of every stored increment is the sum over earlier steps of that step's own load vector times the load factor its last increment reached, plus the current factor times the load vector of step s; the factor restarts at zero in every step and each stored increment is labelled with its step. Displacements continue from the last increment of the step before.",
 ["histories","inputs","configurations"],"all load-step sequences up to the bound over a load alphabet, elastic and plastic, with per-step increment counts and limits",
 WHY+"Two tests run four steps and check nothing.",
 [S+"model.py",S+"handlers/handler_result.py"],[("f0_const accumulation",S+"model.py:run"),("step_lpf_end",S+"handlers/handler_result.py")],
 [("step_lpf_end","final load factor of each step",S+"handlers/handler_result.py")],["Results.R[i].ExtForces, lpf, step, r"])
p("C14","The result list is a consistent, immutable record of the increments",
 "The first result is the undeformed, unloaded model and each accepted increment appears exactly once and in order. Within a result the full, reduced and extended displacement vectors and the load factor agree with each other, the displacement at its beginning is the displacement at the end of the previous result, and a stored result is never altered by later increments, steps or evaluations.",
 ["histories","configurations"],"all runs of the bounded world, with snapshots of each result compared after later increments, steps and post-processing",
 WHY+"Aliasing between results needs a comparison of earlier results before and after; no test looks.",
 [S+"handlers/handler_result.py",S+"model.py",S+"solvers/tpsolver.py"],[("deepcopy of the analysis",S+"solvers/tpsolver.py:pathfollow"),("copy_increment / duplicate_first / remove_last",S+"handlers/handler_result.py")],
 [("Results.R","list of results",S+"handlers/handler_result.py")],["Results.R"])
p("C15","A build-and-run depends only on the current definition and settings",
 "The results of build followed by run are the same for a freshly defined model and for a model with the same current definition and settings that was built, run, plotted or edited before, and do not depend on other models in the same process. Building, running and plotting never change the coordinates, connectivity, properties, supports, loads or settings the user defined, nor objects the user passed in.",
 ["histories","schedules"],"all sequences up to the depth bound of build, run, edit and plot operations on one model, and all interleavings of the operations of two models",
 WHY+"One test rebuilds one model once and compares nothing; interference needs interleavings.",
 [S+"model.py",S+"core/analysis.py",S+"handlers"],[("fresh Results/Analysis per build",S+"model.py:build"),("deepcopy of loads per step",S+"model.py:run")],(),["Results.R after build/run"])
p("C16","Model tables always match what was added, assigned and deleted",
 "After any sequence of adding, assigning and deleting nodes, elements, supports and loads, looking up a label returns exactly the coordinates, connectivity, element type, material type, material parameters, area, support or load last given for that label, unchanged in value, and other labels are unaffected. Deleted labels are gone and the remaining labels keep their own data; single, list and object forms of the same operation are equivalent.",
 ["histories"],"all operation sequences up to the depth bound over a small alphabet of labels and values (integers and floats, lists, 'all')",
 WHY+"Deletion is never tested, and assignment only once per model.",
 [S+"handlers/handler_element.py",S+"handlers/handler_node.py",S+"handlers/handler_boundary.py",S+"handlers/handler_extforce.py",S+"core"],
 [("parallel arrays keyed by label",S+"handlers")],[("labels/conns/...","parallel tables",S+"handlers/handler_element.py")],["handler getters and tables"])
p("C17","Undefined supports are free, undefined loads zero; contradictions are refused",
 "When a model is built, every node without a support definition is completely free and every node without a load definition carries no load in any step; defined ones apply to exactly their own node and component, whatever the order of definition. A support or load for a node that does not exist, or a second one for the same node, makes the build fail with an exception instead of being silently dropped or shifted to another node.",
 ["inputs","configurations"],"all subsets and orders of support / load definitions over up to 4 nodes with all support patterns of the bound, incl. unknown and duplicate nodes",
 WHY+"Tests define well-formed models only.",
 [S+"handlers/handler_boundary.py",S+"handlers/handler_extforce.py",S+"model.py"],[("fix_bounds_U / fix_forces",S+"handlers"),("node sorting check",S+"model.py:build")],(),["Analysis.DOF0/DOF1, loads after build; exception"])
p("C18","The Newton solver reports success only for verified solutions",
 "The Newton solver returns success exactly when, within the allowed number of iterations, an iterate is reached whose residual norm is below the residual tolerance and whose last update norm is below the update tolerance, and it stops at the first such iterate. It returns that iterate, the number of iterations made and the two norms belonging to it, never exceeds the allowed iterations, and leaves the starting vector of the caller unchanged.",
 ["schedules","inputs","fault_sequences"],"all scripted answer sequences (residual and update above / below tolerance per iteration) up to the iteration bound, dimensions 1-3, real nonlinear functions",
 WHY+"Newton is only exercised through whole runs.",
 [S+"solvers/zerosearch.py"],[("newton loop",S+"solvers/zerosearch.py:newton")],(),["return values of newton"])
p("C19","The model plot shows the requested increment of the actual model",
 "A model plot draws every node at its undeformed position plus its displacement in the requested increment, every element between its own end nodes (for any node labels), and arrows for the total external load of that increment times the force scale, in the requested view. With a contour, each element is coloured by its own value of the requested quantity in that increment on the requested limits; increment 0 shows the undeformed model with the reference load, and negative increments count from the end.",
 ["inputs","configurations"],"all views x contours x limits x increments (positive, negative) x node numberings of the bounded models",
 WHY+"Tests draw plots and look at none.",
 [S+"tools/plot_utilities.py",S+"tools/helper_functions2.py",S+"model.py"],[("p_model",S+"tools/plot_utilities.py"),("plot_nodes/plot_elems/plot_force",S+"tools/helper_functions2.py")],(),["artists of the returned axes"])
p("C20","History and path plots show the stored values of the chosen nodes",
 "A history plot contains, after the origin, one point per stored result with the chosen quantity (displacement or force component, load factor, increment number) of the first node on x and of the second node on y. A path plot contains one point per listed node with that node's quantity in the chosen increment, and both work for any node labels, leave the results unchanged, and draw into a figure passed in.",
 ["inputs","configurations"],"all pairs of quantities x node pairs x node numberings; all paths and increments of the bounded models",
 WHY+"Tests draw plots and look at none.",
 [S+"tools/plot_utilities.py",S+"tools/helper_functions2.py"],[("p_history",S+"tools/plot_utilities.py"),("p_path",S+"tools/plot_utilities.py")],(),["line data of the returned axes"])
p("C21","A movie has exactly one frame per requested increment, in increment order",
 "Writing a movie leaves exactly one picture per requested increment and a GIF whose frames show these increments in ascending increment order, for any number of increments and for any earlier content of the output folder; no frame of an earlier movie survives. All increments except the undeformed one are used when none are named.",
 ["inputs","histories"],"all increment selections of the bound incl. numbers above 999, all sequences of two movies in one folder",
 WHY+"Movies are written but never read back; none has more than 160 frames.",
 [S+"tools/plot_utilities.py",S+"tools/movie_generator.py"],[("p_movie",S+"tools/plot_utilities.py"),("png_to_gif",S+"tools/movie_generator.py")],(),["figures/png, figures/gif/movie.gif"])
p("C22","Logging never influences results and gives the output stream back",
 "The results of a run are the same for every log level and with or without a log file. With a log file, what the model logs goes to that file completely, and after the run the standard output stream is the one in place before the model was created, also when several models are logged one after the other or nested; at log level 0 a run without errors or exits prints nothing.",
 ["configurations","schedules"],"all log levels x logfile flags x structures (incl. recycles and failures), all well-nested interleavings of logged models",
 WHY+"Tests use a log file in two models and check nothing.",
 [S+"model.py",S+"solvers/tpsolver.py",S+"solvers/zerosearch.py"],[("stdout redirection",S+"model.py:__init__/run"),("verbosity guards",S+"solvers/tpsolver.py")],(),["sys.stdout, log file, Results.R"])
p("C23","Results are independent of position and axis orientation of the structure",
 "Moving the whole structure by any translation leaves all results unchanged. Rotating or mirroring it, with its supports and loads, by any symmetry of the coordinate axes gives displacement and force vectors rotated or mirrored the same way and unchanged load factors, stretches, stresses and element forces.",
 ["inputs"],"all 48 axis symmetries x translations x bounded structures (elastic, plastic, multi-step, step control)",
 WHY+"It relates pairs of runs; tests run each structure in one orientation, mostly in the x-z plane.",
 [S+"elements/element_definition.py",S+"model.py"],[("isotropic element law",S+"elements/element_definition.py"),("DOF numbering",S+"model.py:build")],(),["Results.R"])
p("C24","Elastic structures are path-independent and return to zero on unloading",
 "For elastic structures on a stable path the state at a given total load does not depend on the increment sizes, the step control settings, or how the load was split into load steps. Removing the load in a further step returns displacements and element forces to zero, and elastic-plastic structures do the same as long as yield was not reached.",
 ["histories","configurations"],"all splits of a total load into steps of the alphabet x step sizes x settings x stable structures",
 WHY+"It relates several runs; tests compare none.",
 [S+"model.py",S+"solvers/tpsolver.py",S+"materials/material_definition.py"],[("total (not incremental) element law",S+"elements/element_definition.py"),("step bookkeeping",S+"model.py:run")],(),["Results.R[-1]"])
p("C25","Results do not depend on the units of length and force",
 "Expressing the same structure in other units of length and force (coordinates, areas, moduli, yield stresses, hardening, loads, displacement limit and tolerances converted accordingly) gives the same load factors, stretches and plastic strains in every stored increment. Displacements, nodal forces, element forces, stresses and yield stresses come out converted the same way, over many orders of magnitude of the units.",
 ["inputs","configurations"],"bounded structures x load-step patterns x settings x a lattice of length and force units from very small to very large",
 WHY+"All test models have lengths and moduli of order one, so an absolute threshold hidden anywhere stays invisible; it relates two runs.",
 [S+"elements/element_definition.py",S+"materials/material_definition.py",S+"solvers/tpsolver.py",S+"solvers/zerosearch.py",S+"model.py"],
 [("stretch and stress",S+"elements/element_definition.py:truss"),("return mapping",S+"materials/material_definition.py:umat_elplast_iso"),("ratios Dx/dxmax",S+"solvers/tpsolver.py:pathfollow")],(),["Model.Results.R"])
p("C26","Equivalent descriptions of the same structure give the same results",
 "Replacing a bar by parallel bars of the same total area, trading modulus (and yield stress, hardening) for area, adding bars between fully supported nodes, loads on supported components or a separate unloaded structure beside it leaves all load factors, displacements, stretches, nodal forces and total bar forces unchanged. Reversing the load together with the direction of the control component reverses only the sign of the load factor, scaling the load together with the load factor limit rescales only the load factor, and splitting a load step into two of the same load (load factor as locked control component) continues exactly like the single step.",
 ["inputs","configurations","histories"],"bounded structures x load-step patterns x settings x all enumerated equivalent descriptions and products of two of them",
 WHY+"It relates different models of one structure; tests compare none.",
 [S+"model.py",S+"elements/element_definition.py",S+"materials/material_definition.py",S+"solvers/tpsolver.py",S+"handlers/handler_element.py"],
 [("element loop",S+"model.py:equilibrium"),("control component and its sign",S+"solvers/tpsolver.py:pathfollow"),("constant part of the load",S+"model.py:_run")],(),["Model.Results.R"])
p("C27","The log reports exactly what the run stored",
 "At log level 1 and above every load step is announced once, each increment is numbered from one within its step, and a final load factor is printed for exactly the stored increments, in order and with their value; at level 2 each stored increment is also listed when the results are written. A step which ends early names its reason once, at every log level: an error if and only if an increment failed, an exit if and only if the value limit was exceeded.",
 ["histories","configurations","fault_sequences"],"all bounded environments of the path follower and bounded real structures x settings x load steps x log levels",
 WHY+"Tests discard the output.",
 [S+"model.py",S+"solvers/tpsolver.py"],[("prints of _run",S+"model.py:_run"),("prints of pathfollow",S+"solvers/tpsolver.py:pathfollow")],(),["standard output / log file", "Model.Results.R"])
p("C28","An interrupted run leaves no trace",
 "If a run is interrupted at any point by an exception or a keyboard interrupt, the exception reaches the caller, the output stream in place before is given back and a log file holds the beginning of the complete log. The definition and settings of the model are unchanged, and building and running this or any other model afterwards gives the same results as if the interrupted run had never been started.",
 ["crash_points","fault_sequences","histories"],"every evaluation of forces and stiffness (before and after it) of the runs of bounded models, every executed line of the library in small runs",
 WHY+"No test interrupts anything.",
 [S+"model.py",S+"solvers/tpsolver.py"],[("try/finally of run",S+"model.py:run"),("Analysis / Results rebuilt by build",S+"model.py:build")],(),["sys.stdout","handler tables","Model.Results.R"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), max(len(d["title"]) for d in P))
import re
for d in P:
    n=len(re.findall(r"[.](?:\s|$)",d["statement"]))
    if n>3: print(d["id"],n)
