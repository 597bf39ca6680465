"""What each property's check runs."""
from vrt import Spec


def T(tier, q, t):
    return q if tier == "quick" else t


NUM = ["IEEE double arithmetic; sanitizer build (gcc -O1) of the same sources as the shipped library",
       "inputs are sampled: realistic beams and element parameters with the documented signs, zeros and extremes"]

PLAN = {
    "C07": dict(
        specs=lambda t: [Spec("C07", "c07", "py", T(t, 2400, 24000))],
        rule="distinct (simulation, element-type sequence, start, count) of a propagation that was split and compared",
        min={"splits": 1000, "empty-requests": 500, "resumes": 100, "backward-splits": 150}, assumptions=NUM),
}
PLAN["C08"] = dict(
    specs=lambda t: [Spec("C08", "c08", "py", T(t, 3600, 30000))],
    rule="distinct (operation history, element-type sequence) whose passes were compared with a new machine and with caching off",
    min={"compared-passes": 1500, "failing-passes": 30, "backward-ok": 50, "compared-backward": 50}, assumptions=NUM)
PLAN["C09"] = dict(
    specs=lambda t: [Spec("C09", "c09", "py", T(t, 4000, 30000))],
    rule="distinct edit histories (element, type, edited parameters) after which machine and rebuilt machine were compared",
    min={"compared-edit": 500, "compared-final": 500, "refused": 100, "edits": 1000, "replace": 100}, assumptions=NUM)
PLAN["C10"] = dict(
    specs=lambda t: [Spec("C10", "c10", "py", T(t, 6400, 60000))],
    rule="distinct (element-type sequence, range) of a forward pass that was undone and compared step by step",
    min={"compared": 2000, "refused": 100}, assumptions=NUM + ["rf cavities with alignment errors: see known-findings.txt"])
PLAN["C13"] = dict(
    specs=lambda t: [Spec("C13", "c13", "py", T(t, 4800, 40000))],
    rule="distinct (element-type sequence, number of charge states) whose states' statistics were recomputed after every element",
    min={"states-checked": 10000, "permuted": 200, "type:rfcavity": 100, "type:stripper": 30}, assumptions=NUM)
PLAN["C14"] = dict(
    specs=lambda t: [Spec("C14", "c14", "py", T(t, 4800, 40000))],
    rule="distinct (element-type sequence, number of charge states) whose transfer matrices were applied by the monitor after every element",
    min={"matrix-checks": 5000, "company-checks": 1000, "symplectic": 1000, "type:rfcavity": 100}, assumptions=NUM)
PLAN["C15"] = dict(
    specs=lambda t: [Spec("C15", "c15", "py", T(t, 12000, 120000))],
    rule="distinct (element type, parameter, sign, misalignment combination) of an element whose pass was compared with the reference model",
    min={"edited-curve-file": 100, "compared": 3000, "relations": 1000}, assumptions=NUM + ["oracle: lib/refm.py, written from the documentation and independent of the library's code"])
PLAN["C16"] = dict(
    specs=lambda t: [Spec("C16", "c16", "py", T(t, 4800, 50000))],
    rule="distinct (element-type sequence, charge states, energy class, selection) whose kinematics were recomputed after every element",
    min={"kinematics-checks": 3000, "allocated": 1000, "written": 200, "type:rfcavity": 100, "type:stripper": 30, "type:source": 300}, assumptions=NUM)
PLAN["C17"] = dict(
    specs=lambda t: [Spec("C17", "c17", "py", T(t, 4000, 40000))],
    rule="distinct (cavity type, flags, misalignment combination, phase sign) of a cavity whose pass was compared with the reference model",
    min={"compared": 500, "zero-field": 100, "full-turn": 100, "centroid": 100, "charge-times-field": 50, "edited-file": 50, "edited-builtin": 50},
    assumptions=NUM + ["oracle: lib/refm.py, written from the documentation; transit-time fit coefficients in lib/cavtab.py are data copied once from the library"])
PLAN["C18"] = dict(
    specs=lambda t: [Spec("C18", "c18", "py", T(t, 8000, 80000))],
    rule="distinct (incoming and outgoing number of charge states, charge model, given parameters) of a checked stripping",
    min={"strips": 1000, "grow": 100, "shrink": 100, "equal": 50, "model:off": 100, "model:baron": 100}, assumptions=NUM)
PLAN["C19"] = dict(
    specs=lambda t: [Spec("C19", "c19", "py", T(t, 16000, 160000))],
    rule="distinct (element type and sign of strength) sequences tracked by both simulations and the reference product",
    min={"steps": 5000, "one-map": 1000, "split": 300, "zero-is-drift": 200, "given-matrix": 100}, assumptions=NUM)
PLAN["C11"] = dict(
    specs=lambda t: [Spec("C11", "c11", "py", T(t, 6400, 60000))],
    rule="distinct (write or refused write: simulation, attribute, kind of value) and (written against created beam: element sequence)",
    min={"pool-checks": 10000, "writes": 1000, "refused": 300, "clones": 300, "created": 200, "passes-back": 300, "twins": 300}, assumptions=NUM)
PLAN["C12"] = dict(
    specs=lambda t: [Spec("C12", "c12", "py", T(t, 1200, 25000)),
                     Spec("C12", "c12n", "drv", T(t, 3000, 60000), mode="c12n", prep=48)],
    rule="distinct (simulation, element-type sequence, start, count, observe list) of an observed pass checked against a stepwise pass",
    min={"snapshots": 2000, "passes": 2000, "failed-passes": 20, "bad-lists": 200, "native-passes": 5000, "native-views": 5000, "native-traces": 2000}, assumptions=NUM)
PLAN["C02"] = dict(
    specs=lambda t: [Spec("C02", "c02", "py", T(t, 24000, 240000)),
                     Spec("C02", "c02n", "drv", T(t, 8000, 80000), mode="c02n")],
    rule="distinct lattice texts whose every value was compared, and distinct invalid statements that were rejected with their line",
    min={"values": 5000, "exact": 1000, "rejected": 1000, "files": 100, "big-texts": 50, "paths:h5file": 300, "paths:missing": 200, "paths:nested": 200, "given-values": 10000, "given-rejected": 500, "given:1": 1000}, assumptions=["oracle: lib/latgen.py, an independent evaluator; functions are compared within an error bound, plain arithmetic bit for bit"])
PLAN["C03"] = dict(
    specs=lambda t: [Spec("C03", "c03", "py", T(t, 24000, 240000))],
    rule="distinct lattice texts whose expansion, elements and scopes were compared with the independent expansion",
    min={"expansions": 1500, "elements": 5000, "scopes": 2000, "shadowed": 200, "rejected": 500}, assumptions=["oracle: independent expansion in props/c03.py and lib/latgen.py"])
PLAN["C04"] = dict(
    specs=lambda t: [Spec("C04", "c04", "py", T(t, 16000, 160000))],
    rule="distinct printed texts that were parsed back and compared with the configuration they came from",
    min={"round-trips": 2000, "elements": 5000, "values": 2000, "machines": 300}, assumptions=["finite numbers; element names that are not also variable names"])

PLAN["C06"] = dict(
    specs=lambda t: [Spec("C06", "c06", "py", T(t, 4000, 60000)),
                     Spec("C06", "c06n", "drv", T(t, 4000, 60000), mode="c06n")],
    rule="distinct (simulation, form, element names and types) of a machine compared with its configuration, and distinct faults refused",
    min={"elements": 5000, "lookups": 10000, "faults": 3000, "native-lookups": 50000, "native-edits": 5000, "huge": 2}, assumptions=["find() without arguments: the set of indices only"])

PLAN["C05"] = dict(
    specs=lambda t: [Spec("C05", "c05", "drv", T(t, 12000, 300000), mode="c05")],
    rule="distinct operation histories after every step of which every live object was compared with the map model",
    min={"objects-compared": 100000, "op:push": 1000, "op:flatten": 1000, "op:newscope": 1000, "op:swapAny": 1000, "op:bulk": 200},
    assumptions=["ten names (4% of cases: up to 160), up to nine related objects at a time"])

PLAN["C01"] = dict(
    specs=lambda t: [Spec("C01", "c01", "drv", T(t, 60000, 1500000), mode="c01")],
    rule="distinct (kind of text, acceptance or first words of the error) of a text that was parsed from buffer, string, stream and file and watched for leaks",
    min={"accepted": 500, "rejected": 3000, "error-lines": 1000, "kind:deep": 50},
    assumptions=["requests of more than 24 MB of memory at once fail with std::bad_alloc in the native driver"])

PLAN["C22"] = dict(
    specs=lambda t: [Spec("C22", "c22", "drv", T(t, 1600, 40000), mode="c22")],
    rule="distinct histories (locations, state types, numbers of records, refusals) after every session of which all files were read back",
    min={"records": 20000, "sessions": 1000, "refused-root": 20, "other-type": 50, "nested": 30, "loads": 100, "attributes": 100},
    assumptions=["the reader is the HDF5 C library itself, called by the monitor"])

PLAN["C21"] = dict(
    specs=lambda t: [Spec("C21", "c21", "drv", T(t, 12000, 300000), mode="c21"),
                     Spec("C21", "c21t", "thr", T(t, 240, 6000), mode="c21t", nshard=4)],
    rule="distinct table texts read back number by number, and distinct cache histories (writes, fetches, removals, clears) checked at every step",
    min={"reads": 5000, "rejected": 1000, "fetches": 5000, "same-object": 1000, "new-objects": 1000, "clears": 100, "missing": 100, "wide-histories": 50, "concurrent-fetches": 10000, "versions-seen-to-change": 200},
    assumptions=["a modified file has a modification time that differs in seconds", "numbers within the range of double"])

PLAN["C25"] = dict(
    specs=lambda t: [Spec("C25", "c25", "thr", T(t, 400, 12000), mode="c25", nshard=4, prep=24)],
    rule="distinct (number of threads, operations per thread) of a concurrent run whose every result was compared with the sequential run",
    min={"digests": 3000, "threads": 1000, "log-records": 300, "op:register": 100, "op:build-run": 100, "op:table": 100},
    assumptions=["each machine and state is used by one thread at a time", "interleavings are those the scheduler and injected delays produce"])

PLAN["C26"] = dict(
    specs=lambda t: [Spec("C26", "c26", "py", T(t, 8000, 80000))],
    rule="distinct (prefix rule, types used, number of elements, number of markers) of a lattice whose generated database was compared entry by entry with the machine",
    min={"databases": 1500, "entries": 30000, "repeats": 3000, "refused": 50, "tool": 30, "mangler:const": 100, "mangler:serial": 100},
    assumptions=["element types are those of the library", "the EPICS side (vaccel/) needs EPICS and is not built here: its addressing rule name[n] is taken from its source"])

PLAN["C24"] = dict(
    specs=lambda t: [Spec("C24", "c24", "py", T(t, 2400, 24000))], targets=["cli"],
    rule="distinct (format, selections, element types, limit) of a run of the tool whose complete output was compared, and distinct mistakes refused",
    min={"states": 1000, "values": 20000, "refusals": 100, "runs:txt": 100, "runs:hdf5": 50, "runs:utest": 50, "verbose": 50, "stdin": 50, "relative-files": 30},
    assumptions=["numbers are compared to the digits printed", "a selection matching nothing and unknown format options only warn"])

PLAN["C20"] = dict(
    specs=lambda t: [Spec("C20", "c20", "py", T(t, 12000, 40000))],
    rule="distinct (injected fault, outcome) of a request that was repeated, weighed for leaks and followed by checks of bystanders",
    min={"must-refuse": 1000, "refused": 1000, "heap-checks": 300, "bystander-checks": 1500, "asked-again": 5000, "aftermath": 80, "survived": 50},
    assumptions=["an optional parameter of another type counts as absent"])
PLAN["C23"] = dict(
    specs=lambda t: [Spec("C23", "c23", "py", T(t, 16000, 160000))],
    rule="distinct (call, argument types, outcome) of a call whose exception, references and aftermath were checked, and distinct value, lifetime and logging histories",
    min={"calls": 5000, "exceptions": 2000, "refcounts": 3000, "refused-unchanged": 200, "values": 1000, "attribute-writes": 300, "arrays": 200, "lifetimes": 100, "log-records": 100, "heap-checks": 200},
    assumptions=["arguments that make the library allocate unbounded memory are left out"])

# ---- what decides each property (MANIFEST technique / level_note)
SANNOTE = "; every run is also watched by ASan+UBSan. Sampled inputs, no proof; trusts the oracle and the compiler"
TECH = {
    "C01": ("sanitized parser runs on generated, mutated and truncated lattices; heap-balance and error-line monitors",
            "Observed executions only: no sanitizer report, no hang, no heap growth, error line as predicted"),
    "C02": ("runtime monitor with an independent expression evaluator as oracle", "Every value of random lattices equals the independent evaluation; invalid statements must be refused"),
    "C03": ("runtime monitor with an independent beamline expansion as oracle", "Element lists and scopes of random lattices equal the independent expansion"),
    "C04": ("round-trip monitor: print, parse, compare, print again", "Random configurations survive the round trip"),
    "C05": ("online model-based monitor of operation histories on Config objects", "After every operation every live object is compared with a map model"),
    "C06": ("runtime monitor comparing machine, lookups and errors with the configuration given", "Random configurations of all simulation types"),
    "C07": ("trace monitor: split against unsplit propagation, visit log, length conservation", "Bit-exact comparison of split and unsplit passes on random beamlines"),
    "C08": ("history monitor: reused machine against fresh machine and against caching off", "Bit-exact comparison after random histories"),
    "C09": ("history monitor: edited machine against machine rebuilt from the edited configuration", "Bit-exact comparison after random edit histories"),
    "C10": ("round-trip monitor: forward then backward pass, step by step", "Comparison within a rounding bound derived from the monitored matrices"),
    "C11": ("state-pool monitor: every live state is re-read after every operation and compared with a shadow copy", "Random interleavings of clone, write, propagate, delete"),
    "C12": ("observer-log monitor against a stepwise pass on another machine", "Random observe lists, ranges, directions and failures; C++ observer and trace logs"),
    "C13": ("online monitor recomputing the statistics of every state after every element", "Recomputed from the per-charge data within rounding"),
    "C14": ("online monitor applying the reported matrices and replaying charge states alone", "Comparison within rounding; separate runs bit-exact"),
    "C15": ("runtime differential monitor against an independent reference model, plus metamorphic relations", "Reference model lib/refm.py written from the documentation"),
    "C16": ("online monitor recomputing kinematics after every element", "Recomputed from rest energy, kinetic energy, frequency and length"),
    "C17": ("runtime differential monitor against an independent cavity model, plus metamorphic relations", "Reference model lib/refm.py; built-in transit-time fit coefficients are data"),
    "C18": ("online monitor of the stripper's input and output against the documented laws", "Random beams, charge distributions and foil parameters"),
    "C19": ("runtime differential monitor: vector against matrix simulation against reference product", "Random linear beamlines"),
    "C20": ("fault injection into configurations, data files and requests under sanitizers; heap-balance and aftermath monitors", "Sampled corruptions of every element type"),
    "C21": ("runtime monitor of table reads against an independent reader; cache-history monitor; TSan threads", "Random table texts, cache histories and threads"),
    "C22": ("offline checker: recorded states against datasets read back by an independent HDF5 reader", "Random write/close/reopen histories"),
    "C23": ("hostile-argument fuzzing of the extension module under ASan/UBSan with refcount and heap-balance monitors", "Random calls with hostile arguments"),
    "C24": ("end-to-end monitor: sanitized command-line tool's output and exit status against the library", "Random lattices and options"),
    "C26": ("offline checker: the generated files resolved entry by entry against the machine built from the same lattice", "Random lattices, prefix rules and template sets"),
    "C25": ("ThreadSanitizer on multi-threaded workloads with injected delays; per-thread result digests against a sequential run", "Observed interleavings only"),
}
for _k, _v in PLAN.items():
    _v["technique"], _v["note"] = TECH[_k][0], TECH[_k][1] + SANNOTE
