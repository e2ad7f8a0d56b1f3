"""Which verification tasks decide which property."""
import re
import ops
import buffers
import inout
import joins
import demux
import variable
import resample
import func
import saved
import emission
import links
import inner
import program
import trip
import made
import bind


def prefixed(ts):
    return ts


_TASKS = {
    "P01": inout.input_tasks,
    "P02": buffers.tasks,
    "P03": joins.tasks,
    "P04": joins.function_tasks,
    "P05": demux.tasks,
    "P06": variable.tasks,
    "P07": lambda: ops.tasks(ops.P07) + inout.output_tasks(),
    "P08": lambda: ops.tasks(ops.P08),
    "P09": lambda: ops.tasks(ops.P09),
    "P10": resample.p10,
    "P11": func.p11,
    "P12": lambda: saved.tasks() + inner.saved_tasks(),
    "P14": emission.tasks,
    "P15": lambda: links.tasks() + made.init_tasks()[:1],
    "P13": lambda: program.p13() + made.init_tasks() + bind.p13(),
    "P16": lambda: program.p16() + made.init_tasks()[:1] + bind.p16(),
    "P17": lambda: program.p17() + made.init_tasks()[1:] + bind.p17(),
    "P18": lambda: inner.tasks() + made.pipeline_tasks(),
    "P19": trip.p19,
    "P21": lambda: bind.p21() + made.init_tasks()[1:],
}


def safety_tasks():
    """Every operator once more, for the obligations of the categories safety and termination (smaller port counts)."""
    keep = lambda ts, rx: [t for t in ts if re.search(rx, t[0])]
    ts = keep(inout.input_tasks(), r"^Input\(([12])\)\.(init|step|batch)") + keep(inout.output_tasks(), r"^Output\(2\)")
    ts += buffers.tasks()
    ts += keep(joins.tasks(), r"^Join\((2|<2)\)|^Join\((3|11)\)\.processData")
    ts += keep(joins.function_tasks(), r"(init|processData)$|^Linear\(<2\)|^Linear\(2\)\.step")
    ts += keep(demux.tasks(), r"^Demultiplexer\((0|1|2)\)|reject")
    ts += variable.tasks()
    ts += ops.tasks(ops.P07) + ops.tasks(ops.P08) + ops.tasks(ops.P09)
    ts += keep(emission.tasks(), r"^emit.(message|batch|map|2ports)") + resample.p10() + func.p11() + keep(saved.tasks(), r"^(?!.*\((2|11)\))")
    ts += links.tasks() + inner.tasks() + program.p13() + program.p16() + program.p17() + trip.p19() + made.init_tasks() + made.pipeline_tasks()
    ts += bind.p13() + bind.p16() + bind.p17() + bind.p21()
    seen, out = set(), []
    for t in ts:
        if t[0] not in seen:
            seen.add(t[0])
            out.append(t)
    return out


_TASKS["P20"] = safety_tasks


def tasks(prop):
    f = _TASKS.get(prop)
    return f() if f else []


LEVEL = {}
BOUNDED = {}


def decisive(prop, task, f):
    """A failed obligation is a violation of the property; what the engine itself proposed (loop summaries) is not."""
    if prop == "P20":
        return f["cat"] in ("safety", "termination")
    return f["cat"] in ("post", "inv", "safety", "termination")


TRUSTED = [
    "vcg: symbolic executor for the clang AST of the instantiated templates, its loop rule and its models of std:: containers, "
    "optional, function, pow/sqrt/cos (see DESIGN.md)",
    "clang 18 front end (the AST of the text that is compiled)",
    "Z3",
]
ASSUMPTIONS = [
    "double arithmetic is real arithmetic; pow, sqrt, cos, floor are functions of their arguments",
    "times, sizes and counters do not overflow 64 bits (32-bit int parameters are range-checked where narrowed)",
    "the instantiation is T = uint64_t, V = double",
]
