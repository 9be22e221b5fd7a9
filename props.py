"""What each property's check runs. Suites: binary (see sim/<binary>.list), number of simulated runs per tier."""
_drv_real = "trajectory driver (cppqedutils::run, parameter parsing and update), Simulated trajectory, ODE engines (Boost and GSL steppers), state archives incl. bzip2, stream formatting, libstdc++ file streams"
_drv_stub = "disk (write/read/open/close/rename/unlink/truncate/fsync of files in the scratch directory go through the fault seam), process (forked, killed at a chosen operation), scripted step-controller in a third of the runs, version string"
_fs_assume = ["what write() accepted before the process died stays on disk (no loss of the page cache: the library never calls fsync)", "the reference for what a run must do is a re-computation from the same trajectory objects driven by an independent model of the driver"]
_q_real = "quantum trajectories (MCWF, Master, Ensemble), ODE engine and Boost steppers, systems and interactions of CPPQEDelements and their compositions (BinarySystem, Composite), quantum data and operators, state archives"
_q_stub = "random numbers (scripted engine where the property quantifies over them, otherwise the library's own engine with drawn seed and stream), dense test elements written against the framework's interfaces next to the library's own, version string"
_q_assume = ["the dense-matrix models of the elements state what their documentation says they are", "tolerances cover solver precision and, for truncated thermal modes, the population of the last level"]
PROPS = {
 "P01": dict(suites=[dict(binary="files", quick=16000, thorough=400000), dict(binary="qlaw", quick=4000, thorough=80000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = a random trajectory, a random history of sessions cut at random points (through the state file or an initial-state file, with short and interrupted system calls), compared with the uninterrupted history; non-trivial: at least two sessions; distinct by trajectory and session parameters"),
 "P02": dict(suites=[dict(binary="files", quick=6000, thorough=150000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = a history of sessions of which some are killed at a chosen file operation with part of its bytes written; non-trivial: at least one crash fired; distinct by session parameters and crash points"),
 "P03": dict(suites=[dict(binary="files", quick=16000, thorough=400000), dict(binary="qlaw", quick=3000, thorough=60000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = a state file damaged (torn, bit flipped, block lost or zeroed) or made by another trajectory, then resumed from; non-trivial: the stored bytes differ from the intact ones; distinct by damage and position"),
 "P04": dict(suites=[dict(binary="files", quick=9000, thorough=200000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = sessions under one fault each (failing, short, interrupted writes and reads, full disk, failing opens, failing large allocations); non-trivial: the fault fired; distinct by fault and session parameters"),
 "P05": dict(suites=[dict(binary="p05", quick=25000, thorough=600000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = one to three sessions with random sampling parameters and scripted step sizes and rejections, all output lines and snapshots compared with the reference schedule; non-trivial: at least one line expected beyond the first; distinct by parameters"),
 "P06": dict(suites=[dict(binary="p06", quick=24000, thorough=600000)], real=_drv_real, stub=_drv_stub, assumptions=_fs_assume,
   rule="a run = one or two sessions with random sampling and stopping parameters, compared with the run without automatic stopping and an independent evaluation of the stopping criterion; non-trivial: there were enough lines for the criterion to apply; distinct by parameters"),
 "P07": dict(suites=[dict(binary="p07", quick=60000, thorough=1500000)], real="ODE engine (ode_engine::Base with its logger), Boost.Odeint Cash-Karp and GSL Cash-Karp controlled steppers on real and complex arrays", stub="the right-hand side (a family of linear, driven, nonlinear and time-dependent equations)", assumptions=["reference solutions are integrated in long double with extrapolation", "the error estimate of an embedded Runge-Kutta method is reliable for steps short on the scale of the solution; the tolerated error grows with the sixth power of the step length beyond that"],
   rule="a run = an engine of random kind, precision and first step, a random equation and initial value, and a sequence of steps of random length and direction, each compared with the reference solution and with the same step made without earlier attempts; non-trivial: at least three steps; distinct by engine and equation"),
 "P08": dict(suites=[dict(binary="qphys", quick=50000, thorough=1000000)], rule="a run = a random system (one to three subsystems), state and step controller; up to six steps with scripted random numbers, each compared with the law, and with what other random numbers lead to; non-trivial: the system has jumps or a Hamiltonian that acted; distinct by system and step sequence"),
 "P09": dict(suites=[dict(binary="qlaw", quick=40000, thorough=800000)], rule="a run = a random system with oversized first attempts; non-trivial: at least one step was retried; distinct by system and parameters"),
 "P10": dict(suites=[dict(binary="qphys", quick=30000, thorough=600000)], rule="a run = a random system, density operator and sequence of steps; non-trivial: always; distinct by system and parameters"),
 "P11": dict(suites=[dict(binary="qlaw", quick=16000, thorough=320000)], rule="a run = a random system, an ensemble of it and its members run alone; non-trivial: more than one member; distinct by system and number of members"),
 "P12": dict(suites=[dict(binary="qlaw", quick=16000, thorough=320000)], rule="a run = two or three trajectories sharing one system, a random interleaving of their steps and observations; non-trivial: more than two switches between trajectories; distinct by system, kinds and interleaving length"),
 "P13": dict(suites=[dict(binary="qlaw", quick=5000, thorough=100000)], rule="a run = a random system evolved in up to three pictures and partitions of time; non-trivial: always; distinct by system"),
 "P14": dict(suites=[dict(binary="qrun", quick=8000, thorough=160000)], rule="a run = one to three sessions of a random system with a random command line in processes of their own; non-trivial: more than one output line; distinct by system and evolution mode"),
 "P15": dict(suites=[dict(binary="qlaw", quick=20000, thorough=400000)], rule="a run = two twins of which one is observed at random between steps; non-trivial: at least one observation; distinct by system and kind"),
 "P17": dict(suites=[dict(binary="qlaw", quick=30000, thorough=600000)], rule="a run = a trajectory or ensemble logged at a random level, with restarts; non-trivial: the system has jumps, or it is an ensemble; distinct by system and level"),
 "P18": dict(suites=[dict(binary="script", quick=60000, thorough=1500000)], rule="a run = a script of one to three elements with a random command line, in a process of its own; non-trivial: an element or a refusal was compared; distinct by elements and command line"),
 "P16": dict(suites=[dict(binary="qlaw", quick=30000, thorough=600000)], rule="a run = a random system and kind of trajectory, displayed at random precision after each of a few steps; non-trivial: always; distinct by system and kind"),
}
for _p in ("P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17"): PROPS[_p].update(real=_q_real, stub=_q_stub, assumptions=_q_assume)
PROPS["P14"].update(real=_drv_real + "; evolve; " + _q_real, stub=_drv_stub + "; dense test elements next to the library's own", assumptions=_fs_assume)
PROPS["P18"].update(real="parameter table and command-line parsing, parameter structures of the driver, trajectories and elements, preparation of initial states, construction of elements", stub="the script itself (which elements, under which modifiers, and the order in which their parameters are declared), process (forked), version string", assumptions=["initial states are those their documentation names: coherent and Fock states, Gaussian wave packets and oscillator eigenstates on the grid"])
for _p in ("P01", "P03"): PROPS[_p]["real"] = _drv_real + "; " + _q_real
