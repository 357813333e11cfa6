import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
A="aerokit/aero/";I="aerokit/instance/";S="aerokit/stability/";C="aerokit/common/";E="aerokit/engine/"
p("C01","Concurrent callers never influence one another",
 "When several callers (threads, or user functions called back by the library) use the library at the same time, every call returns what it would return if its caller were alone, whatever the interleaving and whatever arrays and solved objects the callers share for reading. No call modifies its arguments or the objects it only reads.",
 ["schedules","inputs"],"every interleaving of 2-4 callers at function entries, loop back-edges, calls and returns; scalar and array arguments, shared or not",
 "The tests call everything from one thread, one call after the other; no interleaving is ever produced.",
 [A+"Isentropic.py",A+"ShockWave.py",A+"MassFlow.py",A+"Supersonic.py",A+"IterativeSolve.py",I+"riemann.py",C+"_ode.py",C+"numspectral.py"],
 [("functions keep their intermediate results in locals and closures","all of aerokit/aero"),("vectorised secant solver without shared state",A+"IterativeSolve.py:secant_solve")],
 observe=["return values","argument arrays after the call"])
p("C02","A failed or interrupted call leaves nothing behind",
 "A library call that fails or is interrupted at any point (interrupt, allocation, solver or linear algebra failure, output stream failure) leaves its arguments, the objects it reads and all process-wide settings (default and saved gas, numpy print and error options, warnings, streams) as they were, and later calls return what they return in a fresh process. The call itself raises or returns the right result, never a wrong one; and a call that succeeds leaves the same settings untouched.",
 ["fault_sequences","histories"],"every fault kind at every function entry, call, return, loop back-edge and output write of every public function, followed by any further calls",
 "No test injects any failure; tests only look at return values of successful calls.",
 [A+"ShockWave.py",A+"MassFlow.py",A+"Supersonic.py",A+"IterativeSolve.py",A+"Fanno.py",A+"Rayleigh.py",S+"_base.py",E+"propu_be.py"],
 [("no module-level state besides the default gas and the denomination database","aerokit"),("exceptions of numpy/scipy propagate","all modules")],
 observe=["return values","process-wide settings","arguments"])
p("C03","The default gas settings behave as one register",
 "Reading the default gas returns the values last set or restored, and restoring brings back exactly the pair (gamma, r) that was current at the last save, as often as wanted. No computation, construction of an object, failure or interruption anywhere in the library changes the current or the saved settings.",
 ["histories","schedules","fault_sequences"],"all histories of set/save/restore/read by several callers mixed with computations, faults and constructions of any object",
 "One test sets, saves and restores once, without any computation in between.",
 [C+"defaultgas.py",I+"nozzle.py"],[("module-level pair with get/set/save/restore",C+"defaultgas.py")],
 state=[("current gas","gamma and r used by default",C+"defaultgas.py"),("saved gas","slot filled by save_default",C+"defaultgas.py")],
 observe=["gamma()","r_ideal()"])
p("C04","An explicitly named gas is the only gas that matters",
 "A call or object given its own gas gives the same result whatever the default gas is, was when the modules were loaded, or becomes during the call. Naming a gas explicitly is equivalent to making it the default gas before the library is loaded.",
 ["histories","schedules","configurations"],"every public function and class taking a gas, every default gas value, set before the import, between calls or by another caller in the middle of a call, any import order",
 "Tests use explicit gamma rarely and only for formulas where it is applied directly; they never vary the default gas at the same time.",
 [A+"Isentropic.py",A+"ShockWave.py",A+"MassFlow.py",A+"Supersonic.py",A+"Fanno.py",A+"Rayleigh.py",A+"model1D.py",I+"nozzle.py",I+"riemann.py",E+"gasgenerator.py",E+"turbofan.py"],
 [("gamma argument passed down to every sub-function","all modules")],observe=["return values"])
p("C05","A nozzle always shows one whole operating point",
 "After any history of pressure-ratio requests, the Mach, pressure and total pressure distributions of a nozzle are those of a newly made nozzle at the pressure ratio of the last request that took effect. A request that fails or is interrupted leaves the previous operating point whole, and readers running at the same time never get a mixture. A distribution which was read does not change afterwards.",
 ["histories","fault_sequences","schedules"],"all sequences of valid and invalid set_NPR and reads by several callers, across all regimes, shapes and gases, with a failure or interruption anywhere inside a request",
 "Tests set one pressure ratio on one nozzle and only check that no value is NaN.",
 [I+"nozzle.py"],[("set_NPR recomputes all distributions",I+"nozzle.py:nozzle.set_NPR")],
 state=[("operating point","Mach, Ps, Ptot arrays","nozzle object")],observe=["Mach()","Ps()","Ptot()","NPR0, NPRsw, NPR1"])
p("C06","1D states keep their gas and honour every request through any history",
 "A 1D state keeps its own gas through every recomputation, copy, indexing and jump, and after computing it from total pressure, total temperature and Mach number, velocity or pressure, it has those values. A request that fails leaves the state as it was, and copies evolve independently of the original. A later request does not change the arrays the caller gave or got.",
 ["histories","fault_sequences","inputs"],"all histories of recomputations, copies, symmetric copies, indexing, Rankine-Hugoniot and isentropic changes on scalar and array states of any gas, with failures anywhere",
 "Tests make one recomputation of a state with the default gas.",
 [A+"model1D.py",A+"unsteady1D.py"],[("recomputation goes through the constructor, passing the gas on",A+"model1D.py:state.compute_from_pt_rtt_*"),("deep copy of unsteady states",A+"unsteady1D.py:unsteady_state.copy")],
 state=[("state","rho, u, p and gas","state objects")],observe=["rho, u, p","Mach()","asound()","Ptot()","rTtot()"])
p("C07","Riemann and inflow solutions are snapshots, solved all or nothing",
 "A Riemann or inflow problem answers for the states it was given when it was made, even if the caller changes them afterwards or several callers read it at the same time. Solving an inflow problem again replaces the whole solution; if that fails or is interrupted the previous solution remains whole. Solutions already obtained do not change.",
 ["histories","fault_sequences","schedules"],"all sequences of changes to the given states, solutions with any boundary values, failures inside a solution and concurrent readers",
 "Tests solve each problem once and never touch the input states afterwards.",
 [I+"riemann.py",I+"unsteady_inflow.py",A+"unsteady1D.py"],[("states are copied at construction",I+"riemann.py:riemann_pb.__init__"),("solution stored at the end of the resolution",I+"unsteady_inflow.py:inflow_pb.solve_with_pt0_rtt0")],
 state=[("solution","pstar, ustar, star states, waves","problem objects")],observe=["pstar()","ustar()","qstarL()","qstarR()","qsol()"])
p("C08","Stability operators follow their current base state and boundary conditions",
 "The matrices of a stability operator are those of a newly made operator with the base state and boundary conditions set last, whatever was set, computed, failed or interrupted before. The caller's base state and boundary condition dictionaries are not modified, so that they can be used for several operators and again.",
 ["histories","fault_sequences"],"all histories of base state and boundary condition changes (valid or not), matrix and spectrum computations, and failures anywhere inside them, for Euler and Orr-Sommerfeld operators sharing dictionaries and states",
 "Tests make one operator, set it once and solve it once.",
 [S+"_base.py",S+"Euler.py",S+"OrrSommerfeld.py"],[("operators built on demand and kept",S+"_base.py:LinOperator.get_RHS_time_matrices"),("boundary rows written into the matrices",S+"Euler.py:Euler1D.compute_BC")],
 state=[("cached operators","B and time matrices","LinOperator objects")],observe=["get_RHS_time_matrices()","solve_eig()"])
p("C09","Eigenpair refinement survives singular solves and never lies",
 "Refining an eigenpair when any of the linear solves reports a singular matrix still returns a unit-norm mode and the frequency that belongs to it, as obtained by the solves that did succeed. Any other failure reaches the caller, and the operator and the caller's estimate are not modified.",
 ["fault_sequences","inputs"],"any subset of the linear solves failing, singular or otherwise, at any iteration, for every operator, start estimate and number of iterations",
 "Singular solves occur only by accident of rounding; no test provokes one, nor any other solver failure.",
 [S+"_base.py"],[("LinAlgError handling inside the iteration",S+"_base.py:LinOperator.converge_eigenpair")],observe=["returned pair","exceptions"])
p("C10","Spectral tables are right for every history of requests",
 "Differentiation matrices, collocation points, extrapolation and fit of a collocation object equal those of a fresh object, whatever orders were requested before, in whatever order, by how many concurrent callers, after any failed or interrupted construction, and whatever callers do with the matrices they got.",
 ["histories","schedules","fault_sequences"],"all request sequences of orders 1-5 on shared objects, interleaved between callers at every point of the table construction, with failures inside it and results overwritten by their owners",
 "Tests request orders from a fresh object in one thread and leave the results alone.",
 [C+"numspectral.py",C+"_dev.py"],[("table of all orders built on demand and kept",C+"numspectral.py:ChebCollocation.matder"),("lazy properties",C+"_dev.py:lazyprop")],
 state=[("cached table","differentiation matrices by order","ChebCollocation objects")],observe=["matder()","x, xi","extrapol()","fit_to_gauss()"])
p("C11","Staged turbofan cycles resume and converge whatever the order of stages",
 "A staged turbofan cycle whose stages are called in any order and any number of times, by one or two callers (core and fan), with interruptions and failures at any point followed by completing the computation, ends with exactly the performance of a cycle computed in one go. A stage whose prerequisites are missing changes nothing.",
 ["schedules","fault_sequences","histories"],"all orders and repetitions of stage calls, interleavings of two callers and interruption points, for both cycle kinds",
 "No test covers these classes at all.",
 [E+"Cycle_Turbofan.py"],[("progress markers set at the end of each stage, checked before the next",E+"Cycle_Turbofan.py")],
 state=[("stage markers","progress of core and fan","cycle objects")],observe=["public attributes","show_perfo()"])
p("C12","Engine models depend on their current parameters only",
 "After update(), every result of a gas generator, turbojet or turbofan model equals that of a newly made model with the same parameters and flight conditions, whatever parameters, conditions, updates, failures and interruptions came before, and whether a parameter was given at construction or assigned later. Different models never influence one another. The legacy cycle functions give the same results at every call.",
 ["histories","fault_sequences","schedules"],"all histories of parameter assignments, flight conditions, updates and failures in the middle of an update, on several models used by several callers",
 "No test covers the engine models.",
 [E+"gasgenerator.py",E+"turbojet.py",E+"turbofan.py",E+"propu_be.py",E+"propu_be_double_corps.py"],[("update() recomputes every station from the parameters",E+"gasgenerator.py:base.update")],
 state=[("stations","total conditions by station","model objects")],observe=["station attributes","thrust and efficiency methods"])
p("C13","Iterative inversions always end",
 "Every iterative inversion (secant solver, shock and conical shock inversions, mass flow and Prandtl-Meyer inversions) ends after bounded work with a value or an exception, whatever the target, including targets without solution and user functions that misbehave (NaN, constant, discontinuous, failing, calling back). An exception raised by the user's function reaches the caller.",
 ["inputs","fault_sequences"],"all argument combinations, feasible or not, and user functions glitching at any evaluation",
 "Tests invert a few attainable targets; a missing bound shows only for other targets or misbehaving functions.",
 [A+"IterativeSolve.py",A+"ShockWave.py",A+"MassFlow.py",A+"Supersonic.py"],[("iteration limit",A+"IterativeSolve.py:secant_solve"),("adaptive step loop",A+"ShockWave.py:conical_deflection_Mach_sigma")],observe=["termination within a step budget","exceptions"])
p("C14","ODE integration reaches its end despite rejected steps and glitches",
 "An integration over a finite range (forward for RK4, either way for RKF45) ends exactly at the requested end with monotonic abscissas and the accuracy of an undisturbed run, whichever trial steps are rejected and, for the adaptive RKF45, at whichever points the function transiently cannot be evaluated (NaN); only a range needing more steps than RKF45 allows itself ends with an exception instead. An exception of the user's function reaches the caller, and trying again gives the undisturbed result.",
 ["fault_sequences","inputs"],"any set of rejected trial steps, NaN or raising evaluations, over smooth problems with known solution, ranges and initial steps of any size",
 "No test covers the integrators.",
 [C+"_ode.py"],[("last step detection and step size control",C+"_ode.py:RKF45"),("step clipped to the end",C+"_ode.py:RK4")],observe=["returned abscissas and values"])
p("C15","The variable denomination database switches whole and never loses entries",
 "At any time the denomination database shows one software's denominations, complete, plus the changes made since it was selected; selecting an unknown software or failing in the middle (interrupt, output failure) leaves either the previous or the new database, whole. Additions and changes never reach other softwares' databases, and selecting a software again gives its pristine denominations. The expressions of extended variables are those of one database.",
 ["histories","fault_sequences","schedules"],"all histories of selections, additions, changes, lookups and printouts by several callers with failures anywhere",
 "No test covers the module.",
 [C+"dicovar.py",C+"extendvar.py"],[("deep copy of the reference table, published at once",C+"dicovar.py:_DicoVar.__init__")],
 state=[("dicoVar","current database",C+"dicovar.py")],observe=["dicoVar.get/[]/()","keys()","printDicoVar()"])
p("C16","The default gas governs every call that does not name one",
 "Setting the default gas decides the gas of every later call or object that takes a gas but was not given one, whether the library modules were loaded before or after, in whatever order.",
 ["histories","configurations"],"every public function with an optional gas, default gas set before the first import, or at any later moment, any import order",
 "Tests read the default gas back but never compute with it.",
 [C+"defaultgas.py",A+"Isentropic.py",A+"ShockWave.py",A+"MassFlow.py",A+"Supersonic.py",A+"Fanno.py",A+"Rayleigh.py",A+"model1D.py",I+"nozzle.py",E+"gasgenerator.py"],
 [("default arguments taken from the default gas module","all modules")],observe=["return values"])
p("C17","Cleaning a notebook never loses it",
 "When the notebook cleaning script is killed or fails at any point (full disk, failed or torn write, unreadable notebook), the original notebook or its complete cleaned form is still on disk, as the notebook or as its backup, also after running the script again. When it succeeds, the notebook has all its cells without outputs and the backup is the original.",
 ["crash_points","fault_sequences","inputs"],"kill or I/O failure at every file operation, any number of notebooks on the command line, and repeated runs after a crash",
 "No test covers the script; file faults and kills cannot be produced by ordinary tests.",
 ["notebooks/remove_output.py"],[("rename to a backup before rewriting","notebooks/remove_output.py")],
 state=[("files","notebook and backup","disk")],observe=["file contents after the run"])
p("C18","Any import order, and retrying a failed import, give the same library",
 "Whatever module of the library is imported first, in whatever order the others follow, and after any import that was interrupted or failed and was repeated, every function gives the same results as after a plain import. No import, complete or not, changes a process-wide setting (numpy error and print options, warnings, random generators, plot style, default gas).",
 ["schedules","crash_points"],"all permutations of module imports, with an interrupt or failure at any point executed by an import, followed by a retry",
 "The test session imports the modules once, in one order.",
 ["aerokit"],[("modules without import-time side effects beyond constants","aerokit"),("relative order independence of imports","aerokit")],observe=["return values after import","process-wide settings"])
p("C19","Polar plots draw their own curves, where asked, and nothing else",
 "A polar plot call draws, on the axes it is given or else on the current ones, exactly the curves of its own Mach number, gas, options and style, whatever was plotted, failed, interrupted or set as default gas before and whoever draws on other axes meanwhile. A call that fails or is interrupted draws only curves which belong to it; no call changes earlier curves, other figures, the caller's options, the styles offered by the library or plot settings.",
 ["histories","fault_sequences","schedules"],"all sequences of figures, grids, shock and isentropic polars with any options on current or given axes, with failures anywhere inside them and another caller drawing on its own axes",
 "No test covers the plot functions.",
 [A+"plot/shockpolar.py",A+"plot/isentropicpolar.py",A+"plot/defaultstyle.py"],
 [("curves computed from arguments only and drawn on the axes given",A+"plot/shockpolar.py:plot_theta_pressure")],
 state=[("current axes","where pyplot draws","matplotlib"),("styles","dictionaries offered to callers",A+"plot/defaultstyle.py")],
 observe=["lines of all axes","style dictionaries","rcParams"])
# pure functions: outside this technique
N="pure function of its arguments: formulas are checked at sample points only"
def q(id,title,st,files):
    p(id,title,st,["inputs"],"all admissible inputs","Tests sample a handful of inputs; the statement quantifies over all of them.",files,[("closed formula or direct solution",files[0])],observe=["return values"])
q("P01","Isentropic relations are consistent and invertible","Total-to-static temperature and pressure ratios follow the ideal gas relations for every Mach number and gas, and their inverses recover the Mach number.",[A+"Isentropic.py"])
q("P02","Normal shock relations satisfy Rankine-Hugoniot","Ratios through a normal shock conserve mass, momentum and energy, increase entropy, and the inversions recover the Mach number.",[A+"ShockWave.py"])
q("P03","Oblique shock angle and deflection are consistent","Weak, strong, maximum and sonic shock angles satisfy the deflection relation and their ordering for every Mach number and deflection with an attached shock.",[A+"ShockWave.py"])
q("P04","Prandtl-Meyer function and its inverse agree","The Prandtl-Meyer angle increases with Mach number from zero at sonic and its inverse recovers the Mach number.",[A+"Supersonic.py"])
q("P05","Conical shock solutions satisfy Taylor-Maccoll","Cone angle, shock angle and Mach number obtained from one another agree within tolerance where an attached conical shock exists.",[A+"ShockWave.py"])
q("P06","Fanno relations","Fanno ratios are one at sonic and satisfy the conservation laws of adiabatic flow with friction.",[A+"Fanno.py"])
q("P07","Rayleigh relations","Rayleigh ratios are one at sonic, satisfy conservation laws of heated flow, and the inversions recover the Mach number.",[A+"Rayleigh.py"])
q("P08","Mass flow functions are invertible","The area ratio has its minimum one at sonic and the subsonic and supersonic inversions recover the Mach number.",[A+"MassFlow.py"])
q("P09","Riemann solution is the exact one","Star pressure and velocity satisfy wave relations on both sides, and the self-similar solution is made of the right waves.",[I+"riemann.py"])
q("P10","Nozzle regimes are physically right","The distributions of a nozzle conserve mass flow and match the pressure ratio for each regime.",[I+"nozzle.py"])
q("P11","Spectral differentiation is exact on polynomials","Collocation matrices differentiate, extrapolate and fit polynomials of low enough degree exactly.",[C+"numspectral.py"])
q("P12","Stability spectra match theory","Spectra of Euler and Orr-Sommerfeld operators converge to the known eigenvalues.",[S+"Euler.py",S+"OrrSommerfeld.py"])
q("P13","Engine models close their energy balance","Stations of engine models satisfy the shaft power, combustion and efficiency balances.",[E+"gasgenerator.py",E+"turbojet.py",E+"turbofan.py"])
q("P14","Real gas thermodynamics is consistent","Heat capacity is the derivative of enthalpy and gamma derives from it at every temperature.",[A+"ThermoRealGas.py",A+"ThermoKerosen.py"])
q("P15","Legacy interfaces and degree trigonometry equal their modern counterparts","Backward-compatible names and the degree trigonometry give the values of the functions they stand for.",[A+"CompressibleFlow.py",A+"degree.py",A+"plot/shockpolar.py"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
m={"version":1,"setup_cmd":"/opt/venv/bin/python dst/setup_check.py","checks":[],"not_applicable":[{"property":x["id"],"reason":"pure function of its arguments: no schedule, clock, I/O, fault or history for the property to depend on, so there is nothing for a simulator to decide (the guide says not to dress up input generation as simulation)"} for x in P if x["id"][0]=="P"]}
json.dump(m,open('/tmp/m0.json','w'),indent=1)
print(len(P))
