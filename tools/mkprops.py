#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that wording stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Lattice parser is memory-safe and total on arbitrary bytes",
  "For every byte sequence offered as a lattice (from a buffer or a file), parsing terminates with either a configuration or an error exception. "
  "It never crashes, reads or writes outside its memory, releases memory wrongly, leaks memory, or executes undefined behaviour, whether parsing succeeds or fails. "
  "The error raised for a malformed text names the 1-based line of the first offending statement (of its end, for a statement spread over several lines).",
  ["inputs"], "every byte string, including truncated, mutated, deeply nested, binary and huge-literal ones; parsed from memory and from a file",
  "The suite parses a few dozen well-formed snippets and a handful of one-line errors, without sanitizers; the error-recovery paths of the grammar (which own the memory clean-up) are almost never run.",
  ["src/glps.l", "src/glps.y", "src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
  [("bison %destructor clean-up", "src/glps.y"), ("first error wins, parse_common", "src/glps_parser.cpp")],
  observe=["GLPSParser::parse_byte / parse_file result or exception", "sanitizer reports", "live heap blocks before and after"])

p("C02", "Lattice expressions evaluate to their arithmetic value or are rejected",
  "Every expression in a lattice has the value given by ordinary arithmetic with the usual precedence, left associativity, unary minus, parentheses, the documented functions and the constant pi, where a name denotes the value it was last known by at that point of the file (including values supplied by the caller before parsing). "
  "Number, string and vector values reach the configuration unchanged, to full double precision and in order. "
  "Division with a non-finite result, operands of the wrong type, names used before definition, redefinition of a variable, and unknown functions are rejected, never silently given a value. print() shows the line and the value of its argument (numbers to six digits) and has no other effect.",
  ["inputs", "programs"], "all expression trees over all operators, functions, value types and variable environments",
  "The tests evaluate about twenty fixed expressions; precedence/associativity interactions, numeric literal forms and type combinations are not covered.",
  ["src/glps_ops.cpp", "src/glps_parser.cpp", "src/glps.y", "src/glps.l", "src/config.cpp"],
  [("operator table and type dispatch (glps_add_op)", "src/glps_parser.cpp"), ("operator precedence", "src/glps.y")],
  observe=["values in the Config returned by the parser"])

p("C03", "Beamline expansion and element scoping are exact",
  "The element list of a parsed lattice is exactly the flattening of the selected beamline: the one named by USE, or the last one defined, with nested lines spliced in place, N*line repeated N times and -line reversed. "
  "Each element carries its own type, name and properties, and for any other name sees the value of the file-level variable, with the element's own property taking priority. "
  "A duplicate element or line name, an undefined beamline in USE, an empty selected line, or no line at all is rejected.",
  ["programs"], "all nestings, repetition factors, reversals and orderings of definitions, and all overlaps of element property names with file-level variables",
  "Tests contain a few hand-written lines; nested reversal of repeated lines and shadowing of globals are sampled once each.",
  ["src/glps_parser.cpp", "src/glps_ops.cpp", "src/config.cpp"],
  [("glps_append_expr/glps_add_line", "src/glps_parser.cpp"), ("fill_context", "src/config.cpp"), ("binary_bl_mult, unary_bl_negate", "src/glps_ops.cpp")],
  observe=["elements[] of the Config", "Machine.conf(i)", "trace order of propagation"])

p("C04", "Printing a configuration and parsing it back preserves it",
  "The text produced for any configuration that a lattice can express (numbers, strings and vectors of finite numbers; element names distinct from variable names) parses back to a configuration with the same variables, the same elements in the same order with the same types, names and properties, and the same beamline name. "
  "String values and vectors come back identical and numbers agree to the six significant digits that are printed; printing again yields the same text.",
  ["configurations"], "all configurations obtainable by parsing a lattice or from a dict with lattice-expressible values",
  "recurse1/recurse2 compare two fixed files.",
  ["src/config.cpp", "python/flame/modconfig.cpp"],
  [("GLPSPrint", "src/config.cpp")],
  observe=["GLPSPrinter output", "re-parsed Config"])

p("C05", "Configurations behave as independent values with scoped lookup",
  "A configuration behaves as an independent map from names to values: changing, swapping into, flattening or scoping one object never changes what any other object, copy or derived scope yields. "
  "A lookup yields the innermost definition of the name, otherwise the inherited one, otherwise a missing-parameter error (or the caller's default), and asking for the wrong type is an error (or the default), never a conversion.",
  ["histories"], "every sequence of set, typed and untyped get, swap, copy, assignment, new scope, push scope and flatten over any number of related objects",
  "test_config exercises three short fixed sequences; aliasing between related copies needs particular multi-step histories.",
  ["src/config.cpp", "src/flame/config.h"],
  [("copy-on-write (Config::_cow)", "src/config.cpp"), ("implicit_values scope chain", "src/config.cpp")],
  state=[("values / implicit_values", "own and inherited definitions, shared between copies", "src/flame/config.h")],
  observe=["Config get/tryGet/iteration on every live object after every step"])

p("C06", "A Machine represents exactly the configuration it was built from",
  "A machine has exactly one element per entry of the configuration's element list, in order, each with the configured name, type and properties, and reports the configuration it was given. "
  "Looking up by name or by type yields exactly the indices of the elements with that name or type, in ascending order. "
  "A configuration with an unknown simulation type, unknown element type, or missing or mistyped mandatory entry is refused with an error, at construction or, for parameters an element needs only when a beam passes, at propagation; a faulty element is identified in it by its name, its index or its type.",
  ["configurations"], "all element lists, duplicate names, name collisions between prefixes, all element types of all three simulation types, and configurations given as text, file, list of pairs or dict",
  "Tests look up a few names in one small lattice.",
  ["src/base.cpp", "src/flame/base.h", "python/flame/modmachine.cpp", "python/flame/modconfig.cpp"],
  [("Machine::Machine", "src/base.cpp"), ("p_lookup/p_lookup_type ordered maps", "src/flame/base.h")],
  observe=["len(), conf(), find()", "Machine iteration, equal_range, find(name,n)"])

p("C07", "Propagation composes and visits exactly the requested elements",
  "Propagating from element a over n elements and then over m more gives the same state as propagating over n+m at once, for every split of any beamline and for every starting state. "
  "A request visits exactly the elements from the start index up to the requested count or the end of the beamline, once each and in order, reports the index of the next element, and advances the longitudinal position by the sum of the visited lengths. "
  "A start past the end or a zero count changes nothing but the next-element index.",
  ["histories", "inputs"], "all beamlines, all start indices and counts (including out-of-range ones), all splits, all states",
  "Tests split one lattice at one or two places.",
  ["src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp"],
  [("Machine::propagate loop", "src/base.cpp")],
  observe=["final state arrays", "next_elem, pos", "observer log"])

p("C08", "Results never depend on what a machine computed before",
  "The state produced by propagating a given input state through a given machine depends only on the configuration and on that input state. "
  "Whatever states, directions, partial passes, edits of state attributes, failed passes or re-reads happened before on the same machine, the result equals the one from a newly built machine, and equals the one with caching disabled. A backward pass through an rf cavity is the exception: it undoes the machine's own last forward pass.",
  ["histories"], "all sequences of propagations with differing states (energy, charge states and their number and weights, phase, frequency, orbit), directions and sub-ranges on one machine, compared with fresh machines",
  "Tests propagate at most twice with the same machine; staleness needs two states that agree on some but not all cache keys.",
  ["src/moment.cpp", "src/rf_cavity.cpp", "src/flame/moment.h", "src/moment_sup.cpp"],
  [("MomentElementBase::check_cache", "src/moment.cpp"), ("Particle operator==", "src/flame/moment.h"), ("ElementRFCavity::advance", "src/rf_cavity.cpp")],
  state=[("last_real_in, last_ref_in, transfer", "per-element cache of the last transfer matrices", "src/flame/moment.h")],
  observe=["final state arrays of the reused machine against a fresh machine"])

p("C09", "Reconfiguring an element equals rebuilding the machine",
  "After any sequence of reconfigurations, with propagations in between, the machine gives the same results, reports the same per-element configuration and answers the same lookups as a machine newly built from the edited configuration. "
  "Elements that were not reconfigured are unaffected, and a reconfiguration that is refused (bad index, different type, missing or wrong parameter) leaves the machine as it was.",
  ["histories", "configurations"], "all element types, all parameters, all edit sequences interleaved with propagation",
  "Tests reconfigure one parameter of two element types once.",
  ["src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/flame/linear.h", "src/linear.cpp", "src/chg_stripper.cpp", "python/flame/modmachine.cpp"],
  [("Machine::reconfigure / rebuild / assign", "src/flame/base.h")],
  observe=["states, conf(i), find() of the edited against the rebuilt machine"])

p("C10", "Backward propagation undoes forward propagation",
  "For a beamline of elements that support reverse tracking (rf cavities without emittance growth included), propagating a state forward over a range and then backward over the same range restores position, reference and per-charge energies, phases, centroids and second moments to rounding accuracy, provided the pass back starts from the state the forward pass produced. "
  "Elements that cannot be reversed (stripper, sextupole, all elements of the linear simulations) refuse backward propagation with an error instead of returning a result, and so does an rf cavity for a state whose charge states, weights, energies or frequencies are not those its last forward pass produced.",
  ["inputs", "configurations"], "all reversible element types and parameters, all ranges and all states",
  "One test reverses one fixed lattice.",
  ["src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/base.cpp"],
  [("retreat branch of MomentElementBase::advance", "src/moment.cpp"), ("check_backward", "src/moment.cpp")],
  observe=["state arrays before and after the round trip"])

p("C11", "States are independent objects with exact attribute access",
  "A clone of a state equals its original in every attribute except the index of the next element, which starts at zero, and afterwards neither propagation of, nor writes to, one of them changes the other; states of one machine never influence each other. "
  "Writing an attribute and reading it back yields the written values, changes no other independent attribute, and takes effect in the next propagation exactly as if the state had been created with that value. "
  "Values or shapes that do not fit the attribute are refused and leave the state unchanged.",
  ["histories", "inputs"], "all attributes of all state types, all charge-state counts, all interleavings of clone, write, propagate and delete",
  "Tests write and read two or three attributes and clone once.",
  ["src/moment.cpp", "src/linear.cpp", "src/base.cpp", "python/flame/modstate.cpp"],
  [("clone constructors and assign", "src/moment.cpp"), ("PyState_setattro/getattro over getArray", "python/flame/modstate.cpp")],
  observe=["all attributes before/after"])

p("C12", "Observers see every requested visit once, in order, without side effects",
  "An observed propagation delivers, for each visited element in the observe list and in visiting order, one entry holding that element's index and the state exactly as it left that element. "
  "The delivered states are snapshots that later steps do not alter, observing does not change the propagation's result, and observation applies to that call only, also when the call fails. "
  "The debugging trace lists each visited element once, in order.",
  ["inputs", "histories"], "all beamlines, observe lists, start/count/direction combinations, failing passes",
  "Tests observe a fixed list on one small lattice.",
  ["src/base.cpp", "python/flame/modmachine.cpp", "src/flame/base.h"],
  [("observer call in Machine::propagate", "src/base.cpp"), ("PyScopedObserver", "python/flame/modmachine.cpp")],
  observe=["list returned by propagate(observe=...)", "C++ Observer call log", "trace stream"])

p("C13", "Reported beam statistics always match the per-charge-state data",
  "In every state a user can obtain (newly allocated, propagated, observed, cloned), the mean centroid is the charge-weighted mean of the charge states' centroids, the overall second-moment matrix is the charge-weighted mean of their second moments plus the spread of their centroids (in the six phase-space coordinates), and each rms value is the square root of its diagonal, whenever the total weight is positive. "
  "They are invariant under reordering the charge states and under scaling all weights, and for a symmetric positive semi-definite input they remain symmetric positive semi-definite.",
  ["inputs", "configurations"], "all element types, numbers of charge states, weights and moments; after every element",
  "Tests compare a few recorded numbers for one to five charge states.",
  ["src/moment.cpp", "src/chg_stripper.cpp", "src/rf_cavity.cpp"],
  [("MomentState::calc_rms", "src/moment.cpp")],
  observe=["moment0_env, moment0_rms, moment1_env against moment0, moment1, IonQ after each element"])

p("C14", "Every element acts on each charge state by its reported transfer matrix",
  "After a pass through one element, each charge state's centroid is the reported transfer matrix applied to the incoming centroid, its second-moment matrix is that matrix applied on both sides, and the last row of the matrix is that of an affine map. "
  "The motion of one charge state depends only on itself and on the reference particle, never on the other charge states present (the charge stripper excepted), nor on their order or weights. "
  "Magnetic and drift elements (the thick-lens sextupole excepted) have a symplectic transverse 4x4 block.",
  ["inputs", "configurations"], "all moment element types and parameters, all sets of charge states",
  "Tests compare final numbers for fixed sets of charge states; they never compare a joint run with separate runs.",
  ["src/moment.cpp", "src/moment_sup.cpp", "src/rf_cavity.cpp"],
  [("MomentElementBase::advance", "src/moment.cpp"), ("ElementRFCavity::advance", "src/rf_cavity.cpp")],
  observe=["transmat, moment0, moment1 per charge state before/after each element"])

p("C15", "Magnet and static-element transfer matrices follow the documented optics",
  "For every element of the moment simulation other than the rf cavity and the stripper, the transfer matrix of each charge state equals the documented analytic matrix for the element's parameters (including curve-defined fields, edge angles, field index, fit mode, misalignment and rotation) and for that particle's charge and energy and the reference's. "
  "In particular an unpowered element is a drift of its length, a split element equals the whole, misalignment acts as the exact change of coordinates and its inverse, an element that only marks a place is the identity, and a curve file that was edited or replaced between machines (its modification time in seconds differs) is read anew.",
  ["inputs", "configurations"], "all parameter values (zero, negative and large strengths, lengths, angles, offsets), charge states and energies",
  "Tests compare a few recorded lattices to numbers from another code; most parameters (pitch, yaw, roll, negative index, curves, ver, spher, realpara, xyrotate) are never varied.",
  ["src/moment.cpp", "src/moment_sup.cpp"],
  [("recompute_matrix of each element", "src/moment.cpp"), ("GetQuadMatrix, GetSolMatrix, GetSBendMatrix, GetEBendMatrix, RotMat, GetCurveData", "src/moment_sup.cpp")],
  observe=["transmat and state after each element against an independent reference model"])

p("C16", "Reference and per-charge kinematics stay consistent along the beamline",
  "After every element, total energy, gamma, beta, beta*gamma and sampling wave number of the reference and of each charge state are the exact functions of its rest energy, kinetic energy and sampling frequency. "
  "Through elements without acceleration the energies, charges, weights and frequencies are unchanged, the phase of the reference and of each charge state advances by its sampling wave number times the element's length (plus the bend's path-length term for bends), and the position advances by the element's length. "
  "A state allocated from a configuration, or set by a source element, holds exactly the configured charges, weights, energies (with each charge state's own energy and phase offset), frequency and moments, and a source leaves nothing of what the state held before.",
  ["inputs", "configurations"], "all element types and parameters, energies from non-relativistic to relativistic, sampling frequencies, charge-state selections",
  "Tests check end-of-line energies of a few lattices.",
  ["src/flame/moment.h", "src/moment.cpp", "src/chg_stripper.cpp", "src/rf_cavity.cpp"],
  [("Particle::recalc", "src/flame/moment.h"), ("MomentState::MomentState", "src/moment.cpp"), ("phase update in advance()", "src/moment.cpp")],
  observe=["IonW, gamma, beta, bg, SampleIonK, phis, IonEk (ref_* and per charge) after each element"])

p("C17", "RF cavities accelerate according to their field, phase and particle",
  "The energy and phase change that a cavity gives the reference particle and each charge state, and its transfer matrix, are those of the documented thin-lens model for that cavity's type, field scale, synchronous phase, frequency and particle: a cavity with zero field is a drift, changing the drive phase by a full turn changes nothing, and the centroid gains exactly the energy its own charge state gains relative to the reference. "
  "Cavities described by the generic data files follow the same rules as built-in ones, and a data file that was edited or replaced between machines (its modification time in seconds differs) is read anew.",
  ["inputs", "configurations"], "all built-in and generic cavity types, phases, scales, energies, charge states and model flags",
  "Tests run one accelerator lattice with fixed phases per type.",
  ["src/rf_cavity.cpp", "src/flame/rf_cavity.h"],
  [("PropagateLongRFCav, GetCavMat, InitRFCav", "src/rf_cavity.cpp"), ("LoadCavityFile", "src/rf_cavity.cpp")],
  observe=["ref_IonEk, IonEk, phis, ref_phis, transmat, moment0 before/after a cavity; independent reference model"])

p("C18", "Charge stripping replaces charge states and conserves the beam",
  "After a stripper the state has exactly the configured charge states with the configured weights (or those of the documented Baron distribution), every one holding the incoming beam's weighted mean centroid, phase and energy, the energies shifted by the documented straggling law, and the same second-moment matrix. "
  "That matrix is the incoming overall second-moment matrix with exactly the documented growth of the two angle and the energy spreads, so spatial sizes and, for a beam with non-zero angle and energy spreads, correlation coefficients are preserved; the reference particle takes the configured charge and the shifted energy; position is unchanged.",
  ["inputs", "configurations"], "all numbers of incoming and outgoing charge states (growing, shrinking, equal), weights, model choices and parameters",
  "Tests strip once with the default parameters.",
  ["src/chg_stripper.cpp"],
  [("Stripper_GetMat", "src/chg_stripper.cpp"), ("Stripper_Propagate_ref", "src/chg_stripper.cpp")],
  observe=["IonZ, IonQ, IonEk, phis, moment0, moment1, ref_* before and after the stripper"])

p("C19", "Vector and matrix simulations are one linear map",
  "For every beamline, the matrix accumulated by the transfer-matrix simulation applied to a vector equals the result of the vector simulation of that beamline started from that vector, and both equal the ordered product of the documented element matrices. "
  "The transverse block of drifts, bends, quadrupoles and solenoids has unit determinant and is symplectic, a split element equals the whole, zero strength equals a drift, a marker is the identity, and a user-given matrix is applied as given.",
  ["inputs", "configurations"], "all beamlines of the linear simulation types and all vectors, parameter signs including zero",
  "Tests propagate through two or three elements with one value each.",
  ["src/linear.cpp", "src/flame/linear.h", "src/flame/state/vector.h", "src/flame/state/matrix.h"],
  [("LinearElementBase::advance", "src/flame/linear.h"), ("element constructors", "src/linear.cpp")],
  observe=["state attribute of both simulations against a reference product"])

p("C20", "Failures are reported as errors and leave everything usable and unleaked",
  "Every mistake in a configuration, data file or request (missing or mistyped mandatory parameter, unknown type, wrong sizes, missing or malformed data file, unsupported mode) ends in an exception, never in a crash, memory error, undefined behaviour or a silently wrong result; an optional parameter of another type counts as absent. "
  "After a failed construction, allocation, reconfiguration or propagation the library keeps working: no memory is leaked, other machines and states are unaffected, repeating the request fails in the same way, and the machine gives correct results for valid requests.",
  ["fault_sequences", "configurations"], "every single and combined corruption of valid configurations, cavity data files, curve data and requests, for every element type and simulation type",
  "Tests trigger about ten construction errors and never look at memory or at the machine after a failure.",
  ["src/base.cpp", "src/moment.cpp", "src/rf_cavity.cpp", "src/chg_stripper.cpp", "src/moment_sup.cpp", "src/util.cpp", "src/linear.cpp"],
  [("exception translation in Machine::Machine", "src/base.cpp"), ("size checks (load_storage)", "src/moment.cpp")],
  observe=["exception or result", "sanitizer reports", "live heap blocks", "results of following valid requests"])

p("C21", "Numeric tables are read exactly and never served stale",
  "Reading a numeric table yields exactly the numbers of its data lines, row by row, and its column names by position, whatever the line ends, blanks, blank lines and headers; ragged or non-numeric data is rejected. "
  "A table fetched again through the shared cache is the same object while the file is unchanged, reflects the new contents after the file was modified, never changes under a holder, and is read anew after the cache is cleared; any number of threads may fetch at once.",
  ["inputs", "histories", "schedules"], "all table texts and all histories of fetch, modify, clear and failure, from any number of threads",
  "test_util reads three fixed tables from strings; the cache is not tested.",
  ["src/util.cpp", "src/flame/util.h"],
  [("numeric_table::read", "src/util.cpp"), ("numeric_table_cache::fetch", "src/util.cpp")],
  observe=["table and colnames after read/fetch", "pointer identity"])

p("C22", "Recorded HDF5 output equals the states that were recorded",
  "For every state type and number of charge states, after a sequence of states is written, each dataset holds in its k-th record exactly the attribute values of the k-th state, with that attribute's shape, and all datasets have as many records as states written. "
  "Writing does not alter the states; records already written survive later records, closing and re-opening; a closed writer holds nothing of the file; a location that cannot be opened or a state of a different type is refused with an error. When the number of charge states changes between records, a dataset takes the largest shape and each record occupies its leading part. A matrix loaded from HDF5 (H5Loader) is exactly the stored dataset of at most two dimensions.",
  ["histories", "inputs"], "all state types, charge-state counts, numbers of records, nested output locations, and write/close/reopen histories",
  "No test reads back what the writer wrote.",
  ["src/h5writer.cpp", "src/flame/h5writer.h", "tools/cli.cpp"],
  [("H5StateWriter::append", "src/h5writer.cpp")],
  observe=["datasets read back with an independent HDF5 reader"])

p("C23", "The Python interface is safe and faithful for every call",
  "No sequence of calls of the Python interface, with arguments of any type, value or lifetime order, crashes the interpreter, corrupts memory or reference counts, or leaves a pending error; bad arguments raise a Python exception. "
  "Numbers, strings, vectors and element lists cross between Python and the library in both directions without change, and array attributes remain valid views or copies as long as Python holds them. "
  "Repeating any call a thousand times does not grow memory.",
  ["histories", "inputs"], "all exported functions, methods and attributes, all argument types including malformed, wrong-typed and hostile ones, all deletion orders",
  "Tests call each method with one or two valid argument lists.",
  ["python/flame/modmachine.cpp", "python/flame/modstate.cpp", "python/flame/modconfig.cpp", "python/flame/modmain.cpp", "python/flame/__init__.py"],
  [("PyRef ownership, CATCH macros", "python/flame/pyflame.h")],
  observe=["exceptions, values, sanitizer reports, live heap blocks, sys.getrefcount"])

p("C24", "The command-line tool reports the same simulation as the library",
  "For every lattice, the output of the command-line tool in each of its formats (final state, all elements, selected elements or types, HDF5) contains exactly the values and elements that the library computes for that lattice, in beamline order, with the variables defined on the command line known to the lattice (which is refused if it defines one of them again); a selection that matches nothing and an unknown format option only warn. "
  "Invalid lattices, options or output locations give an error message and a non-zero exit status, and the tool never crashes or leaves memory errors.",
  ["inputs", "configurations"], "all lattices, option combinations, output formats and select lists",
  "No test runs the tool on more than a fixed lattice.",
  ["tools/cli.cpp", "src/h5writer.cpp"],
  [("StateStreamer / propagate loop", "tools/cli.cpp")],
  observe=["stdout, exit status, HDF5 output against the library's states"])

p("C25", "Independent threads may build, run and destroy machines concurrently",
  "Any number of threads may at the same time parse lattices, build, reconfigure, propagate and destroy their own machines and states, look up and register types, and log, without data races, deadlock or crashes. "
  "Each thread gets bit-for-bit the results it would get running alone, also when the threads share configurations, lattice files, cavity data files and curve files.",
  ["schedules"], "all interleavings of all thread-local operations over the process-wide registry, logger, table cache, curve and cavity data caches",
  "No test uses more than one thread.",
  ["src/base.cpp", "src/util.cpp", "src/rf_cavity.cpp", "src/moment_sup.cpp", "src/config.cpp"],
  [("info_mutex", "src/base.cpp"), ("numeric_table_cache lock", "src/util.cpp"), ("CavConfMap / CurveMap", "src/rf_cavity.cpp, src/moment_sup.cpp")],
  observe=["ThreadSanitizer reports", "per-thread result digests against a sequential run"])

p("C26", "The generated IOC database addresses every element of the lattice",
  "For every lattice, the support files written by the database generator (flame.ioc) contain, for each element whose type has a template, exactly one entry in the common list and one in the list of its type, in beamline order. "
  "The element address of an entry (name, or name[n] for the n-th repetition counted from 0) designates that very element in the machine built from the lattice; an element's prefix comes from the naming rule, is the same in both lists, and is unique whatever the naming rule yields. "
  "The lattice and the templates used are copied unchanged, the start-up script names the lattice by an absolute path and states the number of markers, and a lattice without any element that has a template is refused before anything is written.",
  ["inputs", "configurations"], "all lattices with repeated elements, naming rules, template sets, output directories",
  "No test runs the generator.",
  ["python/flame/ioc.py", "python/flame/data/st.cmd"],
  [("Generator.emit_subst", "python/flame/ioc.py")],
  observe=["files written, entries resolved through Machine.find of the same lattice"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
