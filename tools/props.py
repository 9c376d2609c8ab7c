"""the properties; `prop` is injected by spec.py"""
DST = "deterministic simulation with seeded fault injection"

prop("C01", "Building and simplifying expressions never changes their value",
     "Whatever sequence of API operations (arithmetic, matrices, functions, conditionals, element access, simplification, in-place "
     "matrix assignment, deletion of other objects) built an expression, evaluating it gives the value that ordinary real matrix "
     "algebra gives for the operations requested. Simplifying an expression, or operations on other expressions that share parts "
     "with it, never change that value or its shape.",
     ["histories", "inputs", "schedules"],
     "all sequences of expression operations over scalar, vector and matrix symbols and numeric constants, any memory layout (object "
     "identity and address order decide internal sorting), any order of simplification of shared sub-expressions; principal branch of "
     "inverse functions; numerical tolerance",
     "unit tests check the printed form of about a hundred fixed expressions; simplification rewrites shared trees in place and sorts "
     "by type, value and address, so errors need a particular combination of operands or an earlier operation on a shared node",
     ["symbolics/functions/*.cpp", "symbolics/Basic.cpp", "symbolics/Matrix.cpp", "symbolics/wrapper/*.cpp", "pymbs/symbolics/__init__.py"],
     [("simplification of sums and products", "symbolics/functions/Add.cpp, Mul.cpp, Pow.cpp, Neg.cpp: simplify"),
      ("ordering used to merge like terms", "symbolics/functions/Operators.cpp operator<, NaryOp.cpp, Symbol.cpp"),
      ("matrix algebra and element access", "symbolics/Matrix.cpp, functions/Element.cpp, Transpose.cpp, Skew.cpp"),
      ("python objects wrapping expressions", "symbolics/wrapper/CBasic.cpp")],
     observe=["str(expression) evaluated as Python/numpy", "expression.shape()"],
     check="c01", technique=DST + ": random operation histories under seeded heap layouts against an interval-checked numeric reference",
     note="Sampled histories (thousands per quick run); every intermediate expression is evaluated at 2 points against an independent "
          "evaluator of the requested operations. Trusts numpy and the reference evaluator (sim/dst/ref.py); conditioning is tracked so "
          "that only well-conditioned values are compared.")

prop("C02", "Derivatives and jacobians are the mathematical derivatives",
     "The time derivative of any expression, and the jacobian of any vector of expressions, evaluate to the true derivative at every point "
     "where it exists. This holds for every combination of the supported operations, including products, inverses and transposes of "
     "matrices, and regardless of whether and in which order the operands were simplified.",
     ["histories", "inputs", "schedules"],
     "all expressions that can be built with the API and differentiated, all operation orders, all memory layouts; points where the expression "
     "is differentiable",
     "tests compare a few dozen derivatives as strings; the rules are applied to shared, partly simplified trees, so an error needs a "
     "certain nesting",
     ["symbolics/functions/*.cpp", "symbolics/functions/Der.cpp", "symbolics/functions/Jacobian.cpp", "symbolics/Matrix.cpp"],
     [("derivative rules", "symbolics/functions/*.cpp, include/*.h: der()"), ("jacobian", "symbolics/functions/Jacobian.cpp"),
      ("derivative symbols", "symbolics/Symbol.cpp: getDerivative")],
     observe=["str(der(expr)), str(jacobian(expr, symbols))"],
     check="c02", technique=DST + ": random operation histories with der/jacobian against truncated Taylor (jet) arithmetic",
     note="Sampled histories; the reference differentiates by jet arithmetic, independent of symbolic rules. Same trust as C01.")

prop("C03", "A refused or failed operation is reported and leaves no trace",
     "An operation on expressions whose arguments do not fit (shapes that do not match, indices outside of a matrix, unusable dimensions, wrong "
     "types or numbers of arguments, objects never initialised), or for which memory runs out at any point, raises an exception: it does not "
     "return an expression, crash or hang. Afterwards every existing expression has the value, shape, type and printed form it had before, and "
     "operations with fitting arguments (or the same one with enough memory) work as if nothing had happened.",
     ["histories", "inputs", "fault_sequences"],
     "all histories of expression operations, with unusable calls anywhere in between and the n-th memory allocation of any operation failing, for "
     "every n, any memory layout; arguments that Python could give a meaning (negative indices, numbers of other libraries) may be refused or "
     "must have that meaning",
     "tests try a few refused calls on fresh objects; whether a shortcut for special operands (zero, constant matrices) skips a check, and what a "
     "simplification that stops halfway leaves behind in shared trees, depends on the operands and on the allocation that fails",
     ["symbolics/wrapper/*.cpp", "symbolics/functions/*.cpp", "symbolics/Matrix.cpp", "symbolics/include/Basic.h", "symbolics/include/NaryOp.h"],
     [("checks of shapes", "symbolics/functions/*.cpp: validate, New; symbolics/Shape.cpp"),
      ("conversion of arguments and indices", "symbolics/wrapper/convert.cpp, CBasic.cpp, CMatrix.cpp, CSymbol.cpp"),
      ("translation of C++ exceptions", "symbolics/wrapper/include/CBasic.h: STD_ERROR_HANDLER"),
      ("rewriting of shared trees", "symbolics/functions/Add.cpp, Mul.cpp: simplify; include/Basic.h: Argument::setArg")],
     observe=["exception raised, str(expression), expression.shape(), type(expression), value of str(expression)"],
     check="c03", technique=DST + ": unusable calls and failing allocations injected into random operation histories, against the numeric reference",
     note="Sampled histories; about 40 kinds of unusable calls; one failing allocation (1st to 70th) per chosen operation. Memory that "
          "Python itself allocates does not fail. Expressions that were folded to Python numbers are not judged.")

prop("C04", "Generated Python computes the solution of the model's equations",
     "For every solvable set of equations, states, parameters, inputs and sensors, the generated Python functions return the state derivatives "
     "and sensor values that solve these equations at the given time, state and parameter values. The order in which equations were added, the "
     "optimisation level and anything else that only reorganises the computation do not change the results.",
     ["programs", "inputs", "schedules"],
     "all explicit equation systems with scalar, vector and matrix variables (including linear systems to solve, shared sub-expressions, "
     "aliases, constants and unused states), any insertion order, with and without optimisation, any memory layout and hash seed",
     "tests generate a handful of fixed models and compare text or a few numbers; graph ordering, alias and constant elimination depend on the "
     "structure of the whole system and on pointer order",
     ["symbolics/graph/*.cpp", "symbolics/writer/PythonWriter.cpp", "symbolics/printer/PythonPrinter.cpp", "pymbs/symbolics/graph.py"],
     [("assignment of equations to variables and ordering", "symbolics/graph/Graph.cpp, EquationSystem.cpp"),
      ("alias/constant elimination and substitution", "symbolics/graph/Factory.cpp, Equation.cpp"),
      ("writing of functions", "symbolics/writer/PythonWriter.cpp")],
     observe=["<model>_der_state.py, <model>_sensors.py, <model>_visual.py executed on random points"],
     check="c04", technique=DST + ": random equation systems in random insertion order under seeded heap layouts, generated program against a numeric reference",
     note="Sampled systems; each generated program runs at 3 points, compared where the reference solution is insensitive to rounding. "
          "Systems PyMbs refuses as unsupported (element of an element) are not judged.")

prop("C05", "Every target language computes the same model",
     "A model written as Fortran, C, Matlab or Modelica computes the same state derivatives and sensor values as the model's equations, "
     "and so the same as the generated Python. Where a language cannot express a model, PyMbs says so (an error, or an error message while "
     "generating); it never writes a program that quietly computes something else.",
     ["programs", "inputs", "schedules"],
     "the equation systems of C04 for each of the four languages, with optimisation on and off, any insertion order and memory layout",
     "tests compile a few MBS examples in two languages; printers differ per language in operator binding, index base, storage order of matrices "
     "and in how linear systems and multiple results are written, so an error needs a certain shape of expression",
     ["symbolics/writer/FortranWriter.cpp", "symbolics/writer/CWriter.cpp", "symbolics/writer/MatlabWriter.cpp", "symbolics/writer/ModelicaWriter.cpp",
      "symbolics/printer/*.cpp", "symbolics/graph/EquationSystem.cpp"],
     [("printers", "symbolics/printer/FortranPrinter.cpp, CPrinter.cpp, MatlabPrinter.cpp, ModelicaPrinter.cpp"),
      ("linear solvers written into the program", "symbolics/writer/*Writer.cpp: generateFunctionmodule"),
      ("scalar form for C", "symbolics/graph/EquationSystem.cpp: makeScalar")],
     observe=["generated Fortran and C compiled and called, Matlab and Modelica interpreted, at random points"],
     check="c05", technique=DST + ": random equation systems under seeded heap layouts, programs of four languages executed against a numeric reference",
     note="Sampled systems, 3 points each. Matlab and Modelica run in an interpreter of the emitted subset with strict shape rules, not in the real "
          "tools. Graphics are not written for Matlab. C# and FMU output is not covered.")

prop("C06", "Models of one process are independent and can be written to many targets",
     "Building, writing or deleting one model never changes another model of the same process or the expressions belonging to it, in whatever "
     "order the operations of several models are interleaved. A model that was built can be written to any targets any number of times, in any "
     "order, and every program written computes the solution of that model's equations.",
     ["histories", "schedules"],
     "all interleavings of the operations of several models, all sequences of targets (Python, Matlab, Modelica, Fortran, C, C#), models alive or "
     "already deleted, any memory layout",
     "the expression library keeps process-wide lists of expressions and rewrites shared trees and symbols in place; every test builds one model and "
     "writes it once",
     ["symbolics/graph/*.cpp", "symbolics/Basic.cpp", "symbolics/writer/Writer.cpp", "symbolics/wrapper/CGraph.cpp", "pymbs/symbolics/graph.py"],
     [("process-wide function lists and scopes", "symbolics/include/List.h, symbolics/graph/PreOptimisation.cpp, symbolics/Util.cpp"),
      ("in-place substitution", "symbolics/Basic.cpp: subs, symbolics/graph/PastOptimisation.cpp"),
      ("scalar copies for C and C#", "symbolics/graph/Graph.cpp, EquationSystem.cpp: makeScalar")],
     observe=["programs written by each model, str() of expressions the user holds"],
     check="c06", technique=DST + ": random interleavings of the operations of 2-4 models under seeded heap layouts, programs against numeric references",
     note="Sampled interleavings. Programs in C, C# and Fortran are written (to disturb later targets) but only Python, Matlab and Modelica are "
          "executed here; C and Fortran are executed by C05.")

prop("C07", "A code generation call that returns has written its files completely",
     "If a call that generates code returns normally, all files of that target are on the disk with their full content. If any file cannot be "
     "created or written completely (missing permission, full disk, I/O error at any point up to the close, exhausted memory) the call raises an error. "
     "Interrupted and short writes are no failures, and after a failure a further call, in the same or in a new process, writes complete files.",
     ["fault_sequences", "inputs"],
     "all targets and options (Python, Matlab, Modelica, Fortran, C, C#; wrappers, s-function, graphics), all positions at which creating a "
     "directory, opening, writing or closing a file or allocating memory can fail, one or several failures, existing older output, directories to be created",
     "no test makes a file operation fail; output is buffered, so most errors only show when the buffer is flushed or the file closed, at a point "
     "that depends on the sizes of all files written before",
     ["symbolics/writer/*.cpp", "symbolics/wrapper/CGraph.cpp", "pymbs/input/transformation.py", "pymbs/input/mbs_system.py"],
     [("files", "symbolics/writer/*Writer.cpp: f.open(), f.close(); class OutputFile in Writer.cpp"),
      ("errors reach Python", "symbolics/wrapper/include/CBasic.h: STD_ERROR_HANDLER, CGraph.cpp: writeOutput"),
      ("directories", "pymbs/input/transformation.py: genCode")],
     observe=["files below the given directory", "return or exception of MbsSystem.genCode.*"],
     check="c07", technique=DST + ": disk faults and failing allocations injected below the real writers, compared with the undisturbed generation from the same process state",
     note="Sampled models, targets and fault positions. Writes that the disk acknowledges and loses cannot be noticed and are not injected; FMU export is "
          "not covered (deprecated, needs templates).")

prop("C08", "Interrupted generation leaves nothing that a new run does not put right",
     "If the process dies at any point while code is generated, the files of calls that had already returned are complete, and starting over in the same "
     "directory produces exactly the files an undisturbed run produces, whatever partial or older files are there. No file that is not an output of the "
     "requested target is changed or deleted at any time.",
     ["crash_points", "histories"],
     "all targets and options of C07, death before any file operation or within any write, several deaths in a row, older complete output, foreign files "
     "whose names resemble the outputs",
     "no test kills a generation or generates into a used directory",
     ["symbolics/writer/*.cpp", "pymbs/input/transformation.py", "pymbs/input/mbs_system.py"],
     [("files are rewritten from the start", "symbolics/writer/*Writer.cpp: f.open()"), ("existing directories are accepted", "pymbs/input/transformation.py: genCode"),
      ("names of files written", "symbolics/writer/*Writer.cpp: filename")],
     observe=["contents of the output directory after each crash and after the final run"],
     check="c08", technique=DST + ": process death injected at random file operations, restart on the surviving files, compared with the undisturbed output",
     note="Sampled crash points; a process crash, not a power failure (written data survives). FMU export and the temporary files of the GUI are not covered.")

prop("C09", "Derived equations of motion are those of the mechanical system",
     "For every tree of bodies, joints, frames, parameters, loads and inputs, the generated program computes the accelerations that Newton and Euler's "
     "laws give at every state, time and input. All formalisms (explicit, recursive, order-n) and all their options compute the same motion, and deriving "
     "equations does not change objects the user passed in.",
     ["programs", "inputs", "configurations", "histories"],
     "all open kinematic chains with fixed and multi-axis joints, nested, shifted and rotated frames, numeric and parametric masses, inertia and geometry, all "
     "load types (between any frames, expressed in any frame, depending on sensors, inputs, parameters and time), all formalisms and options, all regular states; "
     "rigid bodies",
     "tests derive three fixed systems and compare text or few numbers; an error needs a certain combination of frame offsets, rotations, loads and formalism",
     ["pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py", "pymbs/processing/generator_order_n.py", "pymbs/processing/loads/*.py",
      "pymbs/input/transformation.py", "pymbs/input/mbs_system.py", "symbolics/"],
     [("formalisms", "pymbs/processing/generator_*.py"), ("conversion of the model, merging of bodies joined by fixed joints", "pymbs/input/transformation.py"),
      ("loads", "pymbs/processing/loads/*.py")],
     observe=["<model>_der_state.py at the states of a simulated motion"],
     check="c09", technique=DST + ": random systems derived by several formalisms under seeded heap layouts, programs stepped along a simulated motion with input jumps, "
     "every step against an independent Newton-Euler reference",
     note="Sampled systems of up to 6 bodies; closed loops and flexible bodies are not covered. Trusts the numeric Newton-Euler reference (sim/dst/mbs.py), which shares no "
          "method with the generators. Ill-conditioned states are skipped.")

prop("C10", "Sensors and displayed poses are those of the simulated motion",
     "At every state of a motion, every sensor (position, orientation, velocity, acceleration, angular rates, distance, energy, joint, cut force and torque) between "
     "any two frames, expressed in any frame, has the value that the motion of the bodies implies, and every visualisation object has the pose of its frame. This holds "
     "for every formalism and option; a sensor a formalism cannot deliver is refused.",
     ["programs", "inputs", "configurations", "histories"],
     "all open chains and states of C09, all sensor kinds, frames and reference frames, all formalisms and options including kinematics only, where accelerations are inputs",
     "tests evaluate a few sensors of one pendulum with one formalism",
     ["pymbs/processing/sensors/*.py", "pymbs/processing/generator_*.py", "pymbs/input/transformation.py", "pymbs/input/mbs_system.py", "symbolics/graph/*.cpp"],
     [("sensors", "pymbs/processing/sensors/*.py"), ("velocities and accelerations of frames", "pymbs/processing/generator_*.py"),
      ("visualisation", "pymbs/input/mbs_system.py: _addVisualisation, addGraphicSensors")],
     observe=["<model>_sensors.py and <model>_visual.py at the states of a simulated motion"],
     check="c10", technique=DST + ": random systems and sensors derived by several formalisms under seeded heap layouts, programs stepped along a simulated motion, every step "
     "against an independent kinematic and Newton-Euler reference",
     note="Sampled systems. Cut forces and torques are judged with the recursive formalism, the only one that delivers them. The reference is that of C09.")

prop("C11", "simulate() writes the motion of this model, or says that it could not",
     "The file simulate() writes holds the requested initial coordinates at rest followed by the states of this model's motion every 0.01 s up to the requested time, whatever models were "
     "simulated, generated or imported before under the same name. When files cannot be written, initial values do not fit the model or the integration fails it raises an error in "
     "finite time. Neither way does it leave temporary files or a changed import path behind.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all open systems of C09, formalisms and options, sequences of simulations, generations and imports in one process under equal or different names, initial values of every length, end times, "
     "text and binary output, disk errors at every file operation, file size limits, systems too stiff to integrate",
     "no test calls simulate(); programs are imported by name from temporary directories, so an error needs an earlier simulation in the same process or a fault",
     ["pymbs/input/mbs_system.py", "pymbs/common/modelcode.py", "pymbs/ui/integrator.py", "pymbs/processing/"],
     [("time stepping and result files", "pymbs/input/mbs_system.py: simulate"), ("fetching the generated code", "pymbs/common/modelcode.py"), ("integrator", "pymbs/ui/integrator.py")],
     observe=["<model>_values.npy / .csv", "exceptions of simulate()", "sys.path, temporary directory"],
     check="c11", technique=DST + ": histories of simulations in one process with disk faults, size limits and stiff systems; every result row against an independently integrated Newton-Euler motion",
     note="Sampled histories. The reference motion is integrated with the same solver (lsoda) at much tighter tolerance from the reference of C09; rows are compared within four times the difference "
          "between tight and default tolerance.")

prop("C12", "Closed loops stay closed: positions, velocities and accelerations agree",
     "For every mechanism closed by four bar, three bar, slider, crank or hexapod loops or transmissions, on fixed or moving hosts and in any plane, the generated program computes at every "
     "regular state dependent coordinates that close the loop in the chosen posture, with velocities and accelerations that keep it closed, and the motion and sensors are those of "
     "the constrained mechanism. Both the explicit and the recursive formalism say so.",
     ["programs", "inputs", "histories"],
     "all such mechanisms, parameters and states away from dead points, including aligned links, all derivation options, several loops that depend on each other",
     "the tests compare one linkage with recorded numbers; a wrong sign shows only for other axes, hosts or states",
     ["pymbs/processing/loops/", "pymbs/processing/generator.py", "pymbs/processing/generator_explicit.py", "pymbs/processing/generator_recursive.py"],
     [("closed-form loops", "pymbs/processing/loops"), ("loops in the equations of motion", "pymbs/processing/generator.py: handleLoops")],
     observe=["<model>_der_state(), <model>_sensors()"],
     check="c12", technique=DST + ": random mechanisms derived under seeded heap layouts, run along motions with jumps and compared with circle intersections and Lagrange multipliers",
     note="Sampled. Steering, ExpJoint and Hexapod_m_AV loops are not assembled; the order-n formalism does not support loops and refuses them. Ends are given in the documented order unless the host is the "
          "world. States within a margin of dead points are not judged, rotations are compared modulo a full turn.")

prop("C13", "A refused call leaves the model as it was",
     "When a call that defines part of a model (a body, frame, joint, parameter, input, expression, sensor, load, the options of genEquations, or a variable or equation of a graph) is "
     "refused with an error, the model is what it was before the call. The script can go on with the right call, and everything generated at the end is what the script without "
     "the mistake gives.",
     ["histories", "fault_sequences", "programs"],
     "all models and scripts, any number of mistakes at any call: names that are taken or impossible, arguments of the wrong kind or size, objects of another model, calls made twice; "
     "visualisations, loops and calls that fail for lack of memory are not included",
     "tests check that wrong calls are refused, not what they leave behind; what is left shows only when the model is derived and evaluated after further calls",
     ["pymbs/input/", "pymbs/symbolics/graph.py", "symbolics/graph/Graph.cpp", "symbolics/graph/EquationSystem.cpp", "symbolics/Symbol.cpp"],
     [("model definition", "pymbs/input/mbs_system.py, joint.py, body.py"), ("variables and equations", "symbolics/graph/Graph.cpp, EquationSystem.cpp")],
     observe=["result of the generated programs"],
     check="c13", technique=DST + ": seeded mistakes are injected into random model-building scripts; the programs generated at the end must solve the model of the script alone",
     note="Sampled. A run whose wrong call is accepted says nothing and is dropped. The model is judged through the generated programs (accelerations, or values of all variables), not by its data structures.")

prop("C14", "Starting and stopping the simulation thread never fails or doubles it",
     "Whatever the interleaving of the window's and the background thread's actions: after stop() at most one further step begins and the thread ends promptly, even while "
     "it waits for real time; reinit() followed by start() gives exactly one running loop, and two steps never overlap. A step that raises ends only its own loop, and the "
     "thread can be restarted.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings at line granularity of start, stop, restart, waits and joins with steps that stall, raise or stop the thread themselves, in free-running and real-time mode",
     "no test starts the thread; a race needs a switch between two certain lines",
     ["pymbs/ui/thread.py", "pymbs/ui/gui.py"],
     [("PyMbsThread", "pymbs/ui/thread.py"), ("its users", "pymbs/ui/gui.py: runSimulation, resetSimulation, closeEvent")],
     observe=["begin and end of every step, state of the threads"],
     check="c14", technique=DST + ": the thread class runs under a cooperative scheduler over a virtual clock; a seeded plan decides every preemption, stall and failing step",
     note="Sampled interleavings at the granularity of source lines. Python's threading and time are replaced by cooperative equivalents (sim/dst/simsched.py).")

prop("C15", "Real-time playback stays in step with the clock",
     "In real-time mode a step never begins before the simulated time already reached is due at the chosen scaling, and begins as soon as it is due and the "
     "previous step has ended: after a stall the animation catches up, and no error accumulates. Without real-time mode every step begins as soon as the previous one has "
     "ended. Adjustments of the system clock have no influence.",
     ["schedules", "fault_sequences", "inputs"],
     "constant and irregular model steps, all positive scalings, stalls, waits that last too long, wall-clock adjustments of seconds to years in both directions at any time",
     "no test measures time; adjusting the clock during a test is not possible",
     ["pymbs/ui/thread.py"],
     [("PyMbsThread.run", "pymbs/ui/thread.py")],
     observe=["virtual time at which every step begins"],
     check="c15", technique=DST + ": the real-time loop runs over a virtual clock with seeded computing times, oversleeping, stalls and clock jumps; every step is checked against due time",
     note="Sampled. The clock, Event.wait and sleep are virtual (sim/dst/simsched.py).")

prop("C16", "The integrator returns states of the motion and can be restarted",
     "Every step() returns the state of the motion at the previous time plus the current step size, within the tolerances asked for; states already returned never change. After reset() the "
     "integrator repeats exactly what a new one with the same settings and model does, whatever happened before. A right-hand side that raises, or an integration that fails, ends "
     "the step with an error.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of steps, step size changes and resets of one or several integrators, all smooth right-hand sides, right-hand sides that raise or return invalid numbers at any evaluation",
     "no test drives the integrator; it wraps a solver with global state and buffers of its own",
     ["pymbs/ui/integrator.py"],
     [("Integrator", "pymbs/ui/integrator.py")],
     observe=["arrays returned by step(), t"],
     check="c16", technique=DST + ": seeded histories of steps, resets and step sizes with failing right-hand sides; every state against the true motion and an undisturbed integrator",
     note="Sampled histories of closed-form systems (oscillators, forced, coupled).")

prop("C17", "The window shows the model that was asked for, where sliders or motion put it",
     "Without simulation the scene settles at the poses the model has at the coordinates the slider labels show; sliders open at the start values, reach their "
     "range, and Reset returns to the start. During simulation every drawn frame is one state of the motion from the slider values at rest under the current inputs, in step with time, "
     "never a mixture and never going back; once stopped, only the user moves the scene. Closing the window ends its threads, and a further show() shows its own model, whatever was shown before.",
     ["schedules", "histories", "inputs", "configurations"],
     "all models with visualisation, slider ranges, sequences and timings of moves, starts, stops, resets and closing, stalls and preemptions of window and simulation thread, several "
     "sessions in one process under equal names",
     "no test opens the window; races between the window and the simulation thread need a switch between two certain lines",
     ["pymbs/ui/gui.py", "pymbs/ui/thread.py", "pymbs/ui/integrator.py", "pymbs/input/mbs_system.py", "pymbs/common/modelcode.py"],
     [("window, sliders, scene", "pymbs/ui/gui.py"), ("time stepping", "pymbs/ui/integrator.py"), ("fetching the generated code", "pymbs/common/modelcode.py, pymbs/input/mbs_system.py: show")],
     observe=["matrices of the actors at every render call", "text of the slider labels"],
     check="c17", technique=DST + ": world.show() on a simulated desktop over virtual time; a scripted user and a seeded scheduler that preempts and stalls at source lines; every frame is "
     "judged against the labels or an independently integrated motion",
     note="Sampled sessions. PySide6 and VTK's render window are simulated (sim/dst/simui.py): windows, fonts and pixels are not checked. The reference motion uses the program of another formalism, "
          "which C09 checks.")

prop("C18", "A recording holds what was on the screen, and no recording is lost",
     "Every recording leaves one new directory with a row per sampling step of 40 ms, from its start (or the first frame) to its end: the time since the start, the coordinates, and position "
     "and orientation of every visualisation object as displayed at that time; nothing of another recording. Stopping, closing the window, two recordings within a second or an "
     "adjusted clock lose or overwrite nothing. If the disk refuses a recording, this is reported and later ones are complete.",
     ["schedules", "crash_points", "histories", "fault_sequences", "inputs"],
     "all models with visualisation, timings of recordings against simulation, slider moves and closing, stalls and preemptions, clock adjustments, and every failing operation of saving",
     "no test opens the window; the recorder samples on a timer while another thread computes the states",
     ["pymbs/ui/pi_recorder.py", "pymbs/ui/gui.py"],
     [("PIRecorder", "pymbs/ui/pi_recorder.py"), ("what is displayed", "pymbs/ui/gui.py: updateScene, getSensorData, closeEvent")],
     observe=["files below pi_record_*", "matrices of the actors at every render call"],
     check="c18", technique=DST + ": recordings made by a scripted user on the simulated desktop with disk faults, clock jumps and preemptions; every row against the frames drawn at that time",
     note="Sampled sessions. Desktop and render window are simulated (sim/dst/simui.py). Flexible bodies are not recorded in these sessions.")

prop("C19", "Result files are played as they are, in time, and only those",
     "After loading a result file (states over time, or Dymola/OpenModelica layout with constants, aliases and components) the scene shows its first sample. Played, every frame is a sample "
     "of the file that is due at the chosen speed, at 50 per second of its time, up to the last one; then the window is as after loading. Stopping, resuming, rewinding, loading, simulating and closing act at once "
     "and leave no thread; a cancelled dialog or an unusable file changes nothing.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "all result files and layouts including damaged ones, speeds, sequences and timings of actions, stalls and preemptions of the window and the playing thread",
     "no test opens the window; the playing thread and the window share the current sample",
     ["pymbs/ui/matlab_player.py", "pymbs/ui/gui.py", "pymbs/ui/thread.py"],
     [("MatlabPlayer", "pymbs/ui/matlab_player.py"), ("loading, playing, rewinding", "pymbs/ui/gui.py: loadResults, startPlayingResults, playResults, resetResults")],
     observe=["matrices of the actors at every render call", "state of the buttons"],
     check="c19", technique=DST + ": a scripted user plays seeded result files on the simulated desktop under preemptions and stalls; every frame against the samples due at that virtual time",
     note="Sampled sessions and files; files are written by the check. Desktop and render window are simulated (sim/dst/simui.py). HDF5-based files are refused by PyMbs. Speeds of zero or less are not judged.")
