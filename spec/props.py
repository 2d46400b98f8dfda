"""The properties, as data.  build.py turns this into properties.jsonl and MANIFEST.json."""
MTL, MTLN, NW, DISP, PROBES, PARSER, EXTR = ("python/src/mtl.py", "python/src/mtln.py", "python/src/networks.py",
                                             "python/src/dispersive.py", "python/src/probes.py",
                                             "python/src/jsonParser.py", "python/src/networkExtraction.py")
NOTE = ("Seeded search over simulated runs of the real solver; bounded by the number of seeds and the sizes of the generated "
        "worlds (up to 3 bundles, 3 shield levels, about 20 cells, a few hundred steps). Trusts NumPy/SciPy and the oracle. ")


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note="", **anchors):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": mechanism, **anchors}}
    if technique:
        p["technique"] = technique
        p["level_note"] = NOTE + note
    PROPS.append(p)


prop("C01", "A stand-alone line obeys the discretised line equations through any history",
     "For any stand-alone multiconductor line (any number of conductors, coupled matrices, losses, path, unequal subdivision, "
     "series terminations at both ends, lumped dispersive elements) every recorded or stored voltage and current equals the solution "
     "of the staggered-grid telegrapher's equations with those terminations and sources. This holds through any history: sources "
     "attached or replaced, losses and lumped elements added, probes added and time steps changed between runs, runs and single steps "
     "in any number.",
     ["inputs", "histories", "configurations"],
     "all line geometries, matrices, terminations, waveforms and all sequences of run / step / edit / change-of-time-step operations",
     "The tests run about twenty fixed lines once, from rest, mostly with one conductor pair and the default time step, and compare a "
     "peak or a sample with a loose tolerance; no test edits a line between runs or changes its time step mid-way.",
     [MTL, DISP, PROBES],
     mech(("half-step update of voltages and currents", f"{MTL}: MTL.step / advance_voltage / advance_current"),
          ("series terminations with sources", f"{MTL}: MTL.update_boundary terms, add_voltage_source"),
          ("regional losses", f"{MTL}: set_resistance_in_region, add_conductance_in_region"),
          ("recursive dispersive memory", f"{DISP}")),
     technique="lock-step refinement against an executable leapfrog reference through seeded histories of runs, pauses, clock changes and live edits",
     note="Decides equality with the reference to 1e-7 of the peak; histories contain live edits and time-step jumps as the injected disturbances.",
     state=[{"name": "v, i", "meaning": "voltages at nodes, currents at cells", "where": MTL}],
     observe_at=["MTL.v, MTL.i", "Probe.t, Probe.val"], hook_needed=None)

prop("C02", "Bundles joined by networks behave as one coupled circuit",
     "For any set of bundles (conductors and shields in nested levels, coupled by transfer impedances) whose ends are joined or "
     "terminated by resistors, capacitors, series-parallel RLC groups, shorts and links, every stored and recorded voltage and current "
     "equals the solution of the coupled line equations and the nodal equations of those circuits. Elements and sources connected to "
     "one node add up, and the result does not depend on which bundle, end or level a node belongs to.",
     ["inputs", "configurations", "histories"],
     "all topologies of bundles, levels, terminations and junctions, all element values and source waveforms, all run histories",
     "Tests cover a dozen fixed circuits, most with one bundle and one element per node; they sample none of the combinations of "
     "levels, junction sizes, element kinds and several sources on a node.",
     [MTLN, NW, MTL, DISP, PROBES],
     mech(("state equations of lumped circuits", f"{NW}: Network.connect_* and advance_voltage"),
          ("joining networks to line ends", f"{MTLN}: MTLN.step, add_network; {NW}: NetworkD"),
          ("levels inside a bundle", f"{MTL}: MTLD"), ("transfer impedances between levels", f"{DISP}")),
     technique="lock-step refinement of whole networks against an executable circuit-plus-line reference under seeded topologies and live edits",
     note="Tolerance 2e-7 of the peak, 5e-3 where an ideal link is present (the solver models it by a very large conductance).",
     observe_at=["MTLD.v, MTLD.i", "Probe.val"], hook_needed=None)

prop("C03", "One clock: cutting a simulation into runs and steps changes nothing",
     "A simulation advanced in any number of runs and single steps ends in the same state as one advanced in one piece, and all parts "
     "(bundles, networks, dispersive memory, probes) stand at the same instant at all times, also after the time step was changed. "
     "Every source is read only at instants of that clock and never later than the step that needs it.",
     ["schedules", "histories"],
     "all ways to cut a history into runs, single steps and changes of the time step",
     "Tests call run once per simulation with the default time step; chunked runs, mixed runs and steps and changes of the time step do not occur.",
     [MTLN, MTL, NW, PROBES],
     mech(("common time step", f"{MTLN}: dt setter, run_until, step"), ("clock of a line", f"{MTL}: run_until, step"),
          ("clock of the probes", f"{PROBES}: Probe.update, resize_frames")),
     technique="seeded schedules of runs, single steps and clock changes compared with the uninterrupted run; source reads are tapped",
     observe_at=["state arrays", "instants at which sources are read", "Probe.t"], hook_needed=None)

prop("C04", "The order in which equivalent parts are listed does not matter",
     "Listing the bundles, networks, lines, connections, elements, cables, probes or junctions of a simulation in any other order, "
     "or running it in a process with a different hash seed, changes no recorded or stored quantity beyond rounding. "
     "Running the same description again in another process gives identical records.",
     ["schedules", "configurations", "inputs"],
     "all permutations of the parts of a description and all hash seeds of the interpreter",
     "Tests build each system in one order and run in one process; a dependence on order or on the hash seed shows up as an "
     "occasionally failing run, never as a failing assertion.",
     [MTLN, NW, PARSER, MTL],
     mech(("assembly of bundles and networks", f"{MTLN}: add_bundle, add_network"), ("collecting cables and ends", f"{PARSER}: Parser"),
          ("nodes of a network", f"{NW}: Network.__init__")),
     technique="seeded permutations of every list of a system or description, and worker processes with seeded hash seeds, compared with the original order",
     note="Systems with ideal links are compared to 0.5 percent only, because the solver models a link by a very large conductance. ",
     observe_at=["Probe.val", "state arrays"], hook_needed=None)

prop("C05", "Simulations in one process do not influence each other",
     "Any number of simulations living in one process, advanced in turns or by concurrent threads in any interleaving, built from "
     "shared input objects or as copies of one another, each give exactly the results they give alone. A copy of a line behaves as the "
     "original did when copied, and advancing or editing either leaves the other alone.",
     ["schedules", "histories"],
     "all interleavings of steps, runs and edits of several simulations, on one or several threads, and all moments of copying",
     "Tests never keep two simulations alive in interaction and use no threads; shared mutable defaults or aliased arrays stay invisible.",
     [MTL, MTLN, NW, DISP, PROBES],
     mech(("per-object state arrays", f"{MTL}: MTL.__init__"), ("copies", f"{MTL}: create_clean_copy"), ("element lists of networks", f"{NW}: Network.__init__")),
     technique="deterministic thread and turn scheduler interleaving several simulations, each compared with its solo run",
     note="Threads are real and are parked and released at executed solver lines by a seeded scheduler, so a seed repeats an interleaving exactly.",
     observe_at=["state arrays", "Probe.val"], hook_needed=None)

prop("C06", "Effects follow their causes and travel at most one cell per step",
     "If two simulations differ only in one source from some instant on, their states are identical before that instant, and afterwards "
     "they differ only within one cell per elapsed step of the disturbed place, through junctions and between levels included.",
     ["inputs", "histories", "configurations"],
     "all structures, all sources, all instants and forms of disturbance",
     "Tests compare output waveforms with references; a read of a future sample, or a leak between unconnected parts too small for the "
     "plotted tolerance, passes them.",
     [MTLN, MTL, NW, DISP],
     mech(("local stencil", f"{MTL}: advance_voltage, advance_current"), ("network step", f"{NW}: advance_voltage")),
     technique="seeded source faults at arbitrary instants; light-cone and causality checked on the twin histories",
     observe_at=["state arrays after every step"], hook_needed=None)

prop("C07", "Passive systems never create energy",
     "With all sources off, the energy stored in lines and lumped elements never grows, whatever the losses, terminations, junctions, "
     "dispersive elements and the instants at which losses are added, at any time step up to the stability limit. While sources act, no stored "
     "quantity overflows.",
     ["histories", "configurations", "inputs"],
     "all passive structures, all time steps up to the limit, all instants at which the sources are switched off or losses added",
     "Tests run a few fixed lines for a short time; slow growth needs particular values and long runs.",
     [MTL, MTLN, NW, DISP],
     mech(("update coefficients", f"{MTL}: update_lr_terms, update_cg_terms"), ("time step limit", f"{MTL}: get_max_timestep"),
          ("network update", f"{NW}: advance_voltage")),
     technique="energy invariant evaluated after every simulated step, sources switched off at seeded instants",
     note="For resistive worlds the discrete energy is compared step by step; with reactive or dispersive elements growth is bounded over windows.",
     observe_at=["state arrays after every step"], hook_needed=None)

prop("C08", "Once the sources hold still, lossy systems settle to their static solution",
     "After the sources stop changing and edits stop, a lossy system reaches, within a number of steps bounded by its decay times, the "
     "direct-current solution of its circuit of resistances, leakages and sources, and stays there.",
     ["histories", "inputs", "configurations"],
     "all lossy structures, all final source levels, all disturbances before the sources hold still",
     "No test runs to the steady state of a junction or of nested levels; errors in static terms hide under transients.",
     [MTL, MTLN, NW],
     mech(("update coefficients", f"{MTL}"), ("network update", f"{NW}: advance_voltage")),
     technique="bounded-liveness check after seeded disturbances stop, against an independent direct-current solver",
     observe_at=["state arrays"], hook_needed=None)

prop("C09", "Each probe records each completed step exactly once, in order, at its own place",
     "After any history of runs and single steps a probe holds one frame per step completed since its last reset, with strictly "
     "increasing time stamps on the clock of its kind, and each frame is the value of its own kind at its own place when that step ended. Frames already "
     "recorded never change, probes never influence the simulation, and a probe beyond the end of a line is refused.",
     ["histories", "inputs"],
     "all probe places and kinds and all histories of runs, single steps and late attachments",
     "Tests read one or two probes after one run; counts, aliasing and late attachment are not asserted.",
     [PROBES, MTL, MTLN],
     mech(("frame storage", f"{PROBES}: Probe.resize_frames, update"), ("places", f"{PROBES}: Probe.__init__; {MTL}: add_probe")),
     technique="history check of probe records against a twin read step by step",
     observe_at=["Probe.t, Probe.val"], hook_needed=None)

prop("C10", "A failing step is reported, spoils no records, and can be repeated",
     "When a source fails or an interrupt or error strikes in the middle of a step or run, the caller is told, frames recorded before "
     "stay unchanged and no frame of the unfinished step appears. A step that failed because a source raised can be repeated, and the simulation "
     "then continues exactly as if nothing had happened.",
     ["fault_sequences", "crash_points", "histories"],
     "all places within a step at which a fault can strike, all kinds of fault and all numbers of faults",
     "No test lets a step fail.",
     [NW, MTL, MTLN, PROBES, DISP],
     mech(("sampling of sources before state changes", f"{MTLN}: MTLN.update_sources; {NW}: update_sources"),
          ("recording after the step", f"{MTL}: step; {PROBES}: update")),
     technique="fault injection at arbitrary source reads and executed solver lines, with retry, compared with a fault-free twin",
     note="Retry is exact for faults raised by sources of networks of bundles and of lines; interrupts at arbitrary lines are checked for being reported and for intact records.",
     observe_at=["exceptions", "state arrays", "Probe.val"], hook_needed=None)

prop("C11", "Clean copies and repeated runs start afresh, whatever happened before",
     "A clean copy of a line, taken after any history (an aborted step included), behaves as a newly built line with the same edits and leaves "
     "the original as it was. Running a parsed description again, after any number of complete or aborted runs with any time steps, gives the "
     "records of the first run of a fresh parse.",
     ["histories", "crash_points"],
     "all histories before the fresh start, all places where a run can be aborted, all histories after it",
     "Tests take a clean copy or run a description once, before anything else happened.",
     [MTL, PARSER, DISP, NW],
     mech(("clean copy", f"{MTL}: MTL.create_clean_copy"), ("rest state", f"{MTL}: MTLD.reset; {NW}: Network.reset; {DISP}: reset"),
          ("repeated run", f"{PARSER}: Parser.run")),
     technique="seeded histories with interrupts at arbitrary executed lines, then a fresh start compared with a newly built twin",
     note="Repeated runs with an external field are not covered: the field stays attached to the bundles. ",
     observe_at=["state arrays", "Probe.val"], hook_needed=None)

prop("C12", "Descriptions that cannot be read in full are reported, sound ones read one way",
     "If the file of a description cannot be opened, breaks off, loses blocks, fails while it is read, refers to a part that is not there, "
     "asks for a kind of part that does not exist, names two parts alike, or puts a source where none can act, parsing or running it raises an error instead of simulating something else; nothing is written, no handle stays open, and the next attempt on a "
     "sound file works. However a sound file is delivered, in whatever pieces and alongside whatever other parsing and running in the process, "
     "the simulation is the same to the last bit.",
     ["inputs", "crash_points", "schedules"],
     "all places where reading can fail or the text can break off, all lost, doubled and unknown parts, all deliveries in pieces, all interleavings with another parser",
     "Tests read sound files from a sound disk, one at a time.",
     [PARSER],
     mech(("reading the document", f"{PARSER}: Parser.__init__"), ("references between parts", f"{PARSER}: _get*")),
     technique="simulated disk under the description file with seeded read errors, short reads, torn and lost blocks, and a seeded thread scheduler; oracle: the same description read alone from a sound disk",
     note="A lost part nothing depends on may be ignored: the check asks for an error or the identical simulation. ",
     observe_at=["exceptions", "file handles", "MTLD.v, MTLD.i", "Probe.val"], hook_needed=None)

prop("C13", "A JSON description means the circuit it describes",
     "Parsing and running a description gives the voltages, currents and probe records of the circuit it describes: nested cables, transfer "
     "impedances, connectors, terminations and junctions grouped in any way, terminal and distributed sources, lumped elements, cable ends and "
     "probes each act on their own conductor at their own place. This holds whatever the ids, listing order and sharing of materials.",
     ["inputs", "configurations"],
     "all descriptions of bundles, connectors, sites, sources, elements and probes, in all listing orders and numberings",
     "About twenty example files are parsed, each in one listing order; parts that are dropped or attached to a neighbour go unnoticed when the "
     "few compared peaks agree.",
     [PARSER, MTLN, NW, MTL],
     mech(("collecting cables, ends and connectors", f"{PARSER}: Parser.__init__ and _get*"), ("nested levels", f"{PARSER}: _buildGraphFromConnections, _buildBundles"),
          ("terminations and junctions", f"{PARSER}: _buildTerminations, _buildJunctions"), ("sources", f"{PARSER}: _addSources, _getTerminalSourceInNode")),
     technique="seeded generation of abstract descriptions, rendered to JSON in a random order, refined against the reference model in lock step",
     note="Terminations that name only part of the conductors of a cable end, and integer resistances, are refused by the parser and not generated. ",
     observe_at=["MTLD.v, MTLD.i", "Probe.val"], hook_needed=None)

prop("C14", "Under steady sinusoidal sources a simulation reaches the phasors of the circuit",
     "A system that settles under sources of one frequency ends up oscillating with the amplitudes and phases that the continuous theory gives: line equations "
     "with series impedance R + jwL and shunt admittance G + jwC, transfer and lumped impedances as the rational function of jw their model states, sources and "
     "lumped elements joined by Kirchhoff's laws. Deviations stay within what the cells and the time step explain. This holds at any frequency the cells "
     "resolve, for any of the networks, shields and lumped elements, and however the run up to the steady state is cut into pieces.",
     ["inputs", "configurations", "histories"],
     "all systems that settle, all frequencies resolved by their cells, all ways of running them there",
     "Tests compare a few magnitudes with curves from textbooks, on one configuration each and with wide tolerances.",
     [MTL, MTLN, NW, DISP],
     mech(("line update", f"{MTL}: step"), ("terminal networks", f"{NW}: Network"),
          ("rational impedances", f"{DISP}: DispersiveConnector, TransferImpedance")),
     technique="seeded simulations driven to their steady state and checked against frequency-domain solutions with a self-calibrated error bound",
     note="Runs that do not settle in 6000 steps or whose cells are too coarse to decide are counted as trivial. ",
     observe_at=["Probe.val, Probe.t"], hook_needed=None)

prop("C15", "An incident field drives each cell and node where and when it is there",
     "With an external field attached, along the whole line or a stretch of it, every voltage and current equals the solution of the line equations "
     "driven by the longitudinal field at the middle of each cell and the transverse field between conductor and reference at each node, at the "
     "instants of the scheme. This holds for any orientation and bend of the line, any offset of the conductors from the reference, any field as "
     "a function of position and time, and any history of runs, single steps, resets and other sources.",
     ["inputs", "configurations", "histories"],
     "all geometries of line and reference, all field waveforms and directions, all stretches, all run histories",
     "Tests attach a plane wave to one straight two-wire line and compare with a coarse tolerance one sample or one curve.",
     [MTL, MTLN],
     mech(("longitudinal and transverse forcing", f"{MTL}: add_external_field, add_localized_longitudinal_field"),
          ("sampling in time", f"{MTL}: update_sources")),
     technique="lock-step refinement against an executable forced-line reference under seeded fields, geometries and histories",
     note="One external field per line; an external field replaces distributed sources attached earlier to the same cells, which the reference follows. ",
     observe_at=["MTL.v, MTL.i", "Probe.val"], hook_needed=None)

prop("C16", "The symmetries of transmission-line physics hold for every simulated system",
     "Answers of a simulation are linear in its sources, shift in time with them, and do not depend on which end the lines are described from, on the "
     "numbering of the conductors inside a line, on the unit of length and time or the impedance level, or on whether lines that do not touch are "
     "simulated apart or as blocks of one. Without external sources and with transfer impedances that act both ways the system is reciprocal: the current a source "
     "in one branch drives through another at each step is the current it would drive through the first from there. This holds for stand-alone "
     "lines and networks with losses, lumped and dispersive elements, edits while running and any time steps.",
     ["inputs", "configurations", "histories"],
     "all systems the public interface can build, all source waveforms, all histories of runs, steps and edits, all such transformations",
     "Tests compare single systems with stored or analytic curves; no test relates two simulations by a transformation.",
     [MTL, MTLN, NW, DISP],
     mech(("line update", f"{MTL}: step, advance_voltage, advance_current"),
          ("terminal networks", f"{NW}: Network.advance_voltage"),
          ("dispersive memory", f"{DISP}: update_q3_phi")),
     technique="metamorphic twins of one seeded run (superposition, scaling, delay, reversal, renumbering, units, merging, exchange of source and receiver) compared step by step",
     note="Ideal links are modelled by a fixed large conductance: runs with them use a coarser tolerance and are left out of impedance scaling. ",
     observe_at=["MTL.v, MTL.i", "Probe.val"], hook_needed=None)

prop("C17", "Ports show the waves that enter and leave the line, whatever was run before",
     "The incident and reflected power waves of a port are, at every frequency of the last run, those of the line voltage and of the current into the "
     "line at the middle of its end cell, for the impedance that terminates that conductor there; a port without an impedance refuses. Scattering "
     "parameters taken from two ports of a driven line are the ratios of those waves, and extracting a two-port network drives one port at a time on fresh "
     "copies and leaves the line itself as it was. This holds for any line, time step and history of runs, steps and edits before and after the port was added.",
     ["inputs", "configurations", "histories"],
     "all lines, terminations, port positions, source waveforms, time steps and histories of runs, steps and edits",
     "Tests read a port once, on straight lines at the natural time step, and compare magnitudes coarsely.",
     [MTL, PROBES, EXTR],
     mech(("port probes", f"{MTL}: add_port_probe"), ("power waves", f"{PROBES}: Port"), ("scattering parameters", EXTR)),
     technique="lock-step refinement: port spectra against spectra of an executable reference line under seeded sources, edits and time steps",
     note="extract_2p_network is a known finding (it stops with an error for every line); the rest of its path was checked on a copy with that line repaired. ",
     observe_at=["Port.get_incident_and_reflected_power_wave", "extract_s_reciprocal"], hook_needed=None)

prop("C18", "A request that cannot be met is refused and leaves no trace",
     "When a simulation is asked for something that cannot be - a probe, connector or source away from the line or of an unknown kind, a region given backwards, "
     "a conductor, level, node, side, bundle or terminal that does not exist, matrices, pole lists, fields, directions or paths that do not fit, a second part of the same name "
     "or in the same place, a source without a resistance, a run without an end - it raises an error at once. Before, between and after any runs and steps, the "
     "simulation then goes on exactly, to the last bit, as if the request had never been made.",
     ["fault_sequences", "histories", "configurations"],
     "all simulations of lines, bundles and networks, all histories of runs, steps and edits, and all moments in them at which a refused request arrives",
     "Tests make a refused request once, on an object they then throw away; none looks at what the refusal left behind.",
     [MTL, MTLN, NW, DISP, PROBES],
     mech(("requests on lines and bundles", f"{MTL}: MTL, MTLD"), ("networks", f"{NW}: Network"), ("simulations", f"{MTLN}: MTLN"), ("couplings and connectors", DISP)),
     technique="seeded histories with impossible requests injected at arbitrary moments, compared bit for bit with a twin that never received them",
     observe_at=["MTL.v, MTL.i", "Probe.t, Probe.val", "MTLN.time, MTLN.dt"], hook_needed=None)

NOT_APPLICABLE_PROPS = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism)
    NOT_APPLICABLE_PROPS.append({"property": id, "reason": reason})


na("N01", "Rational fitting reproduces the fitted data",
   "For any sampled passive impedance the rational fit returns stable poles in conjugate pairs and reproduces the samples to the stated error.",
   ["inputs"], "all sampled impedances", "Tests fit a few fixed curves.",
   ["python/src/VF/VF_z.py", "python/src/VF/VF_eps.py"], mech(("vector fitting", "python/src/VF")),
   "Plotting scripts around an external fitting library, pure functions of their arguments: no time, scheduling, I/O, parties or history to control; "
   "its results enter the simulations only as pole/residue models, which the other properties generate directly.")
na("N02", "Closed-form waveforms have their stated shape",
   "The built-in pulse shapes return the value of their formula at every instant.",
   ["inputs"], "all instants and parameters", "Tests do not evaluate them.",
   ["python/src/waveforms.py"], mech(("formulas", "python/src/waveforms.py")),
   "Stateless one-line formulas; no schedule, fault or history can change them. The simulator supplies its own waveforms instead.")
na("N03", "The Fortran solver agrees with the Python solver",
   "Both implementations give the same records for the same description.",
   ["inputs"], "all descriptions", "No test compares them.",
   ["fortran/src/class_MTL.f90"], mech(("skeleton", "fortran/src")),
   "The Fortran tree is a skeleton without a runnable time loop, so there is no system to put under a simulator.")
NOT_APPLICABLE = NOT_APPLICABLE_PROPS
