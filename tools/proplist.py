TRAJ = "CPPQEDutils/Trajectory.h"; TRAJC = "CPPQEDutils/Trajectory.cc"; TT = "CPPQEDutils/Trajectory.tcc"
_note = "Sampling, not proof: every explored run is exactly repeatable from its seed; "
prop("P01", "Stopping and resuming a simulation changes nothing",
 "A trajectory that is run in several sessions, each continuing from the state saved by the previous one (in the same output files or from a named initial state), goes through exactly the same states, bit for bit, as if the sessions had been carried out by one process without saving and loading. This holds wherever the cuts are placed, for every kind of trajectory, step-size controller and saved precision, and with system calls that transfer fewer bytes than asked or are interrupted.",
 ["histories", "schedules", "configurations", "fault_sequences"], "every trajectory, every sequence of session lengths and sampling modes, every cut point, every pattern of short and interrupted system calls",
 "The repository's continue tests (not even built here) resume once, at one place, at the default settings, and compare printed digits.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/Trajectory.cc", "CPPQEDutils/ODE.h", "CPPQEDutils/Simulated_.h", "CPPQEDutils/Random.h", "CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h", "CPPQEDcore/quantumtrajectory/Master.h"],
 [("writing and reading of complete states", "cppqedutils::trajectory::writeViaSStream / readViaSStream"), ("state input-output of trajectories, steppers and random engines", "stateIO members and serialize functions"), ("skipping to the last state on resume", "trajectory::initialize")],
 ["final states and every snapshot of each session, output lines"], _note + "the reference is the same trajectory object advanced by an independent model of the driver without saving and loading.")
prop("P02", "A crash at any point loses no acknowledged work and invents no state",
 "If a run is killed at any instant, with any prefix of its last write on disk, a later run on the same files either continues exactly from a state that some earlier session saved, never from before the last state of a session that had reported success, or refuses with an error and leaves the files as they are. It never continues from a state nobody saved, and what earlier sessions wrote is never altered.",
 ["crash_points", "histories", "configurations"], "every crash point (file operation and number of bytes that reached the disk), in every session of every history of sessions",
 "No test kills a run; crash points are a quantifier that tests do not range over.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/Trajectory.cc"],
 [("append-only state and output files", "trajectory::openStateFileWriting, trajectory::run"), ("resume decision", "trajectory::initialize"), ("length-prefixed snapshots", "writeViaSStream / readViaSStream")],
 ["files before and after each session, final states, exceptions"], _note + "a crash keeps everything write() had accepted (the library never calls fsync, so nothing stronger can be promised).")
prop("P03", "A damaged or foreign state is refused, never silently used",
 "Resuming from a saved state that was cut short, had bits or blocks changed or lost, or belongs to a trajectory of another kind, element type or size ends in an error that leaves the files untouched, or, where the damage is harmless, continues exactly from one of the saved states. It never crashes, hangs, or continues from a state that was not saved.",
 ["fault_sequences", "inputs", "histories"], "every position and kind of damage to a compressed or uncompressed state file of every history, every pair of differing trajectories",
 "Tests only ever load intact files of the same trajectory.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/Trajectory.cc", "CPPQEDutils/Simulated_.h", "CPPQEDcore/quantumtrajectory/QuantumTrajectory.h"],
 [("archive metadata comparison", "trajectory::read in Trajectory.h"), ("length and completeness checks", "trajectory::readViaSStream"), ("dimension check", "Simulated::stateIO, quantumtrajectory::readStateArray")],
 ["exceptions, final states, files"], _note + "single flipped bits inside numerical payload of uncompressed files cannot be detected by any reader of the format and are excluded; bzip2-compressed files are checked in full.")
prop("P04", "Failing system calls are reported, unusual ones are absorbed",
 "When writing, reading, opening or a large allocation fails during a run, the run either reports an error or, if it reports success, has produced its complete output and final state; it never hangs and never dies of the fault. Short and interrupted reads and writes change nothing at all.",
 ["fault_sequences", "configurations", "histories"], "every failing operation (number, file, error code, transient or permanent, disk filling up at any byte), every pattern of short or interrupted calls",
 "Tests run on a healthy disk only.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/Trajectory.cc", "CPPQEDutils/CommentingStream.h"],
 [("stream exception masks and checks of the output and state files", "trajectory::run, trajectory::openStateFileWriting"), ("commented log and header output", "CommentingStream")],
 ["whether the run reports success, and the files afterwards"], _note + "allocation failures below 2 kB are not injected (the standard stream library swallows them itself).")
prop("P05", "Output lines and saved states appear exactly on schedule",
 "For every combination of sampling by time, by number of steps or by number of intervals, end time, snapshot frequency, first-line setting and precision, a run writes one output line per sampling instant, at that instant up to rounding, with the values of that instant's state to the requested precision, and saves states at the requested frequency plus the final one. Continuing a run neither repeats nor skips an instant, whatever step sizes and rejections the step-size controller produces.",
 ["configurations", "schedules", "histories"], "all sampling parameters and all behaviours of the step-size controller, over one to three consecutive sessions",
 "Tests use a few fixed sampling settings and compare only physics at low precision.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/FormDouble.h", "CPPQEDutils/ODE.h"],
 [("the driver loop", "trajectory::run"), ("advancing to an instant", "cppqedutils::advance / evolve"), ("number formatting", "FormDouble")],
 ["output file, snapshots in the state file"], _note + "the reference schedule is an independent re-implementation of the documented sampling rules.")
prop("P06", "Automatic stopping happens when the output has settled, and only then",
 "With automatic stopping on N lines, a run ends at the first output line each of whose values agrees with the mean of the N preceding lines of that run within the relative precision asked for (values below the absolute threshold counting as the threshold); it says so, and its final state is saved and can be resumed from like that of any other run. A run never ends earlier than that, and with automatic stopping switched off never before its end time.",
 ["configurations", "histories", "schedules"], "every number of lines, relative and absolute precision, sampling mode, trajectory and behaviour of the step-size controller, over one or two consecutive sessions",
 "No test uses automatic stopping with known output; whether a line settles depends on the whole history of lines.",
 ["CPPQEDutils/Trajectory.h", "CPPQEDutils/Trajectory.cc"],
 [("the stopping criterion", "trajectory::AutostopHandlerGeneric"), ("leaving the loop and saving", "cppqedutils::run")],
 ["number of output lines, announcement, final state, state file, continued sessions"], _note + "lines whose verdict depends on the rounding of a running mean are left open.")
prop("P07", "ODE engines step in tolerance, no further than asked, without trace of failures",
 "Whatever the equation, precision, first step and sequence of requests, one step of an ODE engine goes in the direction asked for, no further than asked, by the length it reports, and leads to the solution of the equation within the requested precision; rejected attempts leave no trace in the result, and tiny steps completing an interval do not shorten the steps that follow. The logged numbers of steps, failed steps and evaluations are the true ones.",
 ["inputs", "schedules", "configurations", "histories"], "all right-hand sides, initial values, precisions, first step sizes and sequences of requested steps, forward and backward, for both engines on real and complex arrays",
 "Tests integrate two equations forward at one precision and check the average deviation.",
 ["CPPQEDutils/ODE.h", "CPPQEDutils/ODE_GSL.h"],
 [("stepping and retrying", "ode_engine::Base::step"), ("the GSL stepper", "ode_engine::ControlledErrorStepperGSL::try_step"), ("construction with precision parameters", "ode_engine::MakeControlledErrorStepper"), ("logging", "ode_engine::DefaultLogger")],
 ["state, time, reported and next step length, log"], _note + "a step counts as inaccurate only beyond 20 times the tolerance (growing for steps long on the scale of the solution, where embedded error estimates fail).")
QT="CPPQEDcore/quantumtrajectory/"
prop("P08", "Every Monte Carlo step obeys the quantum-jump law",
 "For every system, state, step controller and random number, one step of a wave-function trajectory advances the time by the reported step length (at most what was asked for) and leads to the state evolved by the system's non-Hermitian Hamiltonian, normalised, unless the random number falls below the total jump probability of that step; then it leads to the outcome of one of the system's jumps, each with the share its rate commands, and exactly that jump is recorded with its time. The jump probability of an accepted step never exceeds the tolerated limit.",
 ["inputs", "histories", "schedules", "configurations"], "every composition of the framework's systems and interactions, every state, every value of the random number at every step, every initial and maximal step size, jump-probability limit and overshoot tolerance",
 "Tests compare a few runs at fixed seeds with stored averages at low precision; a jump taken with a wrong probability or a wrong rate changes them only statistically.",
 [QT+"MCWF_Trajectory.h", "CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDcore/composites/BinarySystem.h", "CPPQEDcore/composites/Composite.h", "CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Spin.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/frees/MultiLevel.h", "CPPQEDelements/interactions/JaynesCummings_.h", "CPPQEDelements/interactions/ParticleCavity_.h"],
 [("the stepping algorithm", "MCWF_Trajectory::step, manageTimeStep, performJump"), ("Hamiltonians, jumps and rates of elements", "CPPQEDelements/frees, CPPQEDelements/interactions"), ("their composition", "BinarySystem, Composite, Act")],
 ["state, time and record of jumps after each step, and what other random numbers would have led to"], _note + "the reference is a dense-matrix model of each system, independent of the framework's slicing and tridiagonal machinery; truncated thermal modes are compared up to the population of their last level.")
prop("P09", "Step attempts that were taken back leave no trace",
 "When a step is retried because an attempt overshot the jump-probability limit or was rejected by the step-size control, the result (state, time, random numbers consumed, record of jumps, and all steps that follow) is the same as if the accepted step length had been tried at once.",
 ["schedules", "histories", "configurations"], "every sequence of attempts in a step of every system, started from every state, followed by further steps",
 "Tests never provoke several attempts on purpose and do not look at what a retried step leaves behind.",
 [QT+"MCWF_Trajectory.h", "CPPQEDutils/ODE.h"], [("taking a step back", "MCWF_Trajectory::step, manageTimeStep"), ("rejected attempts", "ode_engine::Base::step")],
 ["state, time, number of random numbers consumed, record of jumps; the same for the following steps"], _note + "compared to solver precision: the two runs differ in the rounding of the step length only.")
prop("P10", "The Master equation follows the Lindblad equation and keeps a density operator",
 "For every system the Master equation applies to, every initial density operator and every sequence of step lengths, each step leads to the solution of the system's Lindblad equation to solver precision, keeping unit trace, hermiticity and positivity. A system it cannot be applied to is refused.",
 ["inputs", "histories", "configurations"], "every composition of systems, picture, initial density operator and sequence of step lengths",
 "Tests cover a few systems and compare averages at low precision.",
 [QT+"Master.h", "CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDcore/composites/BinarySystem.h", "CPPQEDcore/composites/Composite.h", "CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/interactions/JaynesCummings_.h"], [("the right-hand side", "Master::step"), ("superoperators", "Liouvillean::actWithSuperoperator"), ("exact part in both indices", "Master::continueStep")],
 ["density operator and time after each step"], _note + "reference: dense-matrix Lindblad equation integrated independently.")
prop("P11", "An ensemble is exactly the mean of its independent trajectories",
 "At every instant, the state of an ensemble of wave-function trajectories is the mean of the pure states of as many single trajectories, each run with a random stream of its own, and the displayed averages and step length are those of that mean; members never influence each other although they share the system.",
 ["schedules", "histories", "configurations"], "every system, number of trajectories, seed, stream ordinal and sequence of interval lengths",
 "Tests look at ensemble averages up to statistical error, which hides coupled or repeated members.",
 ["CPPQEDutils/Trajectory.h", QT+"MCWF_Trajectory.h", QT+"DensityOperatorStreamer.h", "CPPQEDutils/Random.h"], [("advancing and averaging members", "trajectory::Ensemble, AverageTrajectories"), ("making members", "mcwf::makeEnsemble, randomutils::incrementForNextStream")],
 ["averaged density operator, time, step length, displayed averages"], _note + "the single trajectories of the reference have system objects of their own.")
prop("P12", "Trajectories that share a system do not influence each other",
 "Several trajectories of any kind may use one system object, stepping and being observed in any interleaving: each evolves exactly as it would with a system object of its own.",
 ["schedules", "histories", "configurations"], "every interleaving of the steps and observations of two or three single, Master or ensemble trajectories over one system, in all pictures",
 "Tests run one trajectory at a time; ensembles step members in one fixed order.",
 ["CPPQEDcore/quantumoperator/Tridiagonal.h", "CPPQEDcore/quantumoperator/TridiagonalHamiltonian.h", "CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDcore/composites/BinarySystem.h", "CPPQEDcore/composites/Composite.h", "CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/interactions/JaynesCummings_.h"], [("time-dependent operators cached in system objects", "quantumoperator::Tridiagonal::propagate, TridiagonalHamiltonian"), ("diagonals of exact propagators cached in system objects", "structure::FreeExact / ElementLiouvilleans")],
 ["state, time and saved bytes of each trajectory after each step"], _note + "bit for bit where the system has no exact part; to 1e-6 where cached propagators are recomputed for another time difference.")
prop("P13", "Pictures and partitions of time do not change the physics",
 "The same system evolved in the Schroedinger picture or in any interaction picture, in one piece or in pieces of any length, with or without other trajectories branching off, arrives at the same state at the same time.",
 ["configurations", "schedules", "histories"], "all pictures of each element in each composition, all partitions of the time interval",
 "Tests compare pictures for two or three systems, in one go, at plotting precision.",
 ["CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Spin.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/frees/MultiLevel.h", "CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDcore/composites/BinarySystem.h", "CPPQEDcore/composites/Composite.h", "CPPQEDutils/Trajectory.h"], [("interaction-picture time arguments", "actWithU, addContribution with t0"), ("frequencies", "quantumoperator::Tridiagonal frequencies"), ("arriving at an instant", "cppqedutils::advance")],
 ["final state and time"], _note + "the common reference is the dense-matrix model; jumps are switched off by the scripted random numbers for wave functions, Master covers dissipation in full.")
prop("P14", "A run does what its parameters say, and nothing else matters",
 "A run started with evolve, in any mode of evolution and of sampling, from a state vector, density operator or stored array, in one or several sessions, displays and saves exactly what the trajectory made from those parameters goes through: same numbers, seeds and states, whatever the log level, output precision, place of output and content of fresh memory. The values it returns are those it displayed, and a state handed over by name is afterwards the evolved one, or, where the evolution has a state of its own, unchanged. The header of a fresh run tells its command line.",
 ["configurations", "histories", "schedules", "fault_sequences"], "every system, initial state, evolution mode, sampling mode and setting of the parameters on the command line, over one to three consecutive sessions, with short and interrupted system calls",
 "Tests start each script with a handful of command lines and compare averages at low precision; none looks at returned values, at the state handed over, or at a second session.",
 [QT+"Evolution_.h", QT+"EvolutionMethod.cc", QT+"MCWF_Trajectory.h", QT+"Master.h", "CPPQEDutils/Trajectory.h", "CPPQEDutils/Pars.cc", "CPPQEDutils/Random.h"], [("dispatch over evolution modes", "evolve, evolution::details::_"), ("making trajectories from parameters", "mcwf::make, mcwf::makeEnsemble, master::make"), ("parameters from the command line", "parameters::update"), ("the driver", "cppqedutils::run")],
 ["output, returned values, the state handed over, all saved states"], _note + "the reference is the trajectory made from the same parameters in another process and stepped by an independent model of the driver; whether its steps are right is the subject of other properties.")
prop("P15", "Observing a trajectory never changes it",
 "Displaying averages at any precision, printing the key, the parameters or the summary, and saving the state, any number of times between any two steps, leaves the trajectory's future bit for bit the same; asking twice gives the same answer twice.",
 ["schedules", "histories", "configurations"], "every pattern of observations between the steps of single, Master and ensemble trajectories of every system",
 "Tests always observe at the same fixed instants and cannot compare with an unobserved run.",
 [QT+"MCWF_Trajectory.h", QT+"Master.h", "CPPQEDutils/Trajectory.h", "CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/interactions/JaynesCummings_.h"], [("streaming of averages", "QuantumSystemWrapper::stream, Averaged::stream"), ("saving", "stateIO"), ("lazily built caches", "Ensemble::averaged, DensityOperatorStreamer")],
 ["saved bytes of the observed trajectory and of its unobserved twin, after every step"], _note + "both twins have system objects of their own.")
prop("P16", "What is displayed are the averages of the current state",
 "At every instant, each displayed column is the quantum average the key announces for it, evaluated in the current state, printed correctly to the requested number of digits; there are exactly as many columns as the key explains, numbered consecutively.",
 ["inputs", "histories", "configurations"], "every system, kind of trajectory, state, instant and precision",
 "Tests compare a few columns of a few systems.",
 ["CPPQEDcore/structure/Hamiltonian.h", "CPPQEDcore/structure/ElementLiouvillean.h", "CPPQEDcore/structure/ElementAveraged.h", "CPPQEDcore/structure/FreeExact.h", "CPPQEDcore/composites/BinarySystem.h", "CPPQEDcore/composites/Composite.h", "CPPQEDelements/frees/Mode_.h", "CPPQEDelements/frees/Qbit_.h", "CPPQEDelements/frees/Particle_.h", "CPPQEDelements/interactions/JaynesCummings_.h", "CPPQEDutils/FormDouble.h", QT+"DensityOperatorStreamer.h"], [("averages of elements", "average_v and process of frees and interactions"), ("averages of composites", "BinarySystem::average_v, Composite::average_v"), ("formatting", "FormDouble, Averaged::stream")],
 ["displayed numbers, returned averages, key"], _note + "reference averages are computed from the dense state; a few element-specific columns without an independent formula are only checked for stability and formatting.")
prop("P17", "The log tells what happened",
 "At every log level and after any number of restarts, the summary at the end of a wave-function trajectory counts the steps made, the overshoots and steps taken back, the evaluations of the right-hand side, and lists exactly the jumps that happened with their times and ordinals; what is reported during the run adds up to that summary. The summary of an ensemble is the mean and maximum of those of its members, and its histogram of jumps is that of their jumps; asking for less or more log never changes the trajectory.",
 ["histories", "schedules", "configurations"], "every system, sequence of step lengths and random numbers, log level, pattern of restarts and number of members and bins",
 "No test reads the log.",
 [QT+"MCWF_TrajectoryLogger.cc", QT+"MCWF_TrajectoryLogger.h", QT+"MCWF_Trajectory.h", "CPPQEDutils/ODE.h", "CPPQEDutils/StochasticTrajectory.h"], [("bookkeeping", "mcwf::Logger, ode_engine::DefaultLogger"), ("summaries", "mcwf::Logger::onEnd, mcwf::EnsembleLogger::stream"), ("what is logged when", "MCWF_Trajectory::step, manageTimeStep, performJump")],
 ["text of the log during and at the end of the run, states of a twin that logs nothing"], _note + "jumps are told independently from the state where the outcome differs from that without jump; the norm deviation of lossy spins and thermal modes is left open (it depends on a constant without physical meaning, and on the truncation).")
prop("P18", "The command line says what is simulated, or is refused",
 "Whatever elements a script combines under whatever modifiers, and in whatever order and notation options are given, each parameter has the value last given for it, or its default, and no option affects another parameter; the initial states (coherent, Fock, qbit, wave packet, oscillator eigenstate), elements and picture are those the parameters name. A command line with an unknown option, a missing or unreadable value or a missing prefix, and an initial state that does not exist, are refused instead of being simulated as something else.",
 ["inputs", "configurations"], "every combination of elements, modifiers, order of declaration, and command line: order, repetition, notation of values, switches and their negation, and mistakes",
 "Tests start a handful of scripts with well-formed command lines and look at averages of the outcome.",
 ["CPPQEDutils/Pars.h", "CPPQEDutils/Pars.cc", "CPPQEDutils/ContainerIO.h", "CPPQEDutils/BooleanNegatedProxy.cc", "CPPQEDcore/high/QM_Picture.cc", QT+"EvolutionMethod.cc", "CPPQEDelements/frees/Mode.cc", "CPPQEDelements/frees/Particle.cc", "CPPQEDelements/frees/ParsMode.cc", "CPPQEDelements/frees/ParsParticle.cc", "CPPQEDelements/utils/ModeFunction.cc"], [("parsing", "parameters::update"), ("declaring", "parameters::Table::add"), ("picture", "picture::updateWithPicture"), ("initial states", "mode::init, qbit::init, particle::init, particle::wavePacket, particle::hoState")],
 ["values of all parameters, amplitudes of initial states, parameters told by the elements, how the process ended"], _note + "what the initial states are is recomputed from their definition; the same structures filled in by hand are the reference for the rest. The automatic width of an oscillator eigenstate of a pumped particle is left open.")
NA = []
