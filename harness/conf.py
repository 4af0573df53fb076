"""Per-property configuration of the checks (no import of the package under test)."""


class Conf(object):
    LEVEL = "model_checking"
    BATCH = 40000
    ENV = None
    ASSUME = ["the event recorder (harness/project.py) reads buffers and values faithfully",
              "TLC evaluates the specification correctly"]
    MODELS = {}
    RULE = ""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def nontrivial(self, e):
        if "roots" in e:
            return len(e["cmds"]) > 1
        if "cmds" in e:
            return len(e["cmds"]) > 1 and e["cmds"][0].get("out", {}).get("err", "none") == "none"
        return e.get("out", {}).get("k") != "err"


def builder(maxlen, alphabet):
    """all command sequences of this length over some of the commands of MC_Builder"""
    return {"module": "MC_Builder", "cfg": "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nAlphabet = {%s}\nINVARIANTS Typed Kinds Opened Shown\n"
            "PROPERTY Append1\nCHECK_DEADLOCK FALSE\n" % (maxlen, ",".join(map(str, alphabet)))}


def forth(main, maxlen, stack, depth, words=range(1, 9)):
    """all programs with a main part of this length around one of the words, under all sessions of this length"""
    return {"module": "MC_Forth", "cfg": "SPECIFICATION Spec\nCONSTANTS MainLen = %d\nMaxLen = %d\nWords = {%s}\nStack = %d\nDepth = %d\n"
            "INVARIANTS Bounded Nested Decided Pauses Shown\nCHECK_DEADLOCK FALSE\n" % (main, maxlen, ",".join(map(str, words)), stack, depth)}


def lazy(maxlen, maxhs, form, cached):
    """all sessions of this length with two lazy columns"""
    return {"module": "MC_Lazy", "cfg": "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nMaxHs = %d\nForm = %s\nCached = %s\n"
            "INVARIANTS Once Needed Quiet Shapes Shown\nCHECK_DEADLOCK FALSE\n" % (maxlen, maxhs, str(form).upper(), str(cached).upper())}


CONF = {
    "C01": Conf(TRACE="Trace_Builder",
                MODELS={"quick": [builder(4, range(1, 18))], "thorough": [builder(5, range(1, 18)), builder(7, [1, 3, 4, 8, 9, 13, 15, 17])]}, N={"quick": 12000, "thorough": 300000},
                RULE="random command sessions on the array builder, with small buffers so that they grow; non-trivial: at least one value was completed"),
    "C02": Conf(TRACE="Trace_Builder",
                MODELS={"quick": [builder(5, [1, 3, 4, 6, 8, 9, 13, 15, 17, 18])],
                        "thorough": [builder(6, [1, 3, 4, 6, 8, 9, 13, 15, 16, 17, 18]), builder(5, range(1, 19))]}, N={"quick": 8000, "thorough": 200000},
                RULE="random command sessions with many snapshots, each read again later; non-trivial: at least one snapshot was re-read"),
    "C04": Conf(TRACE="Trace_Forth",
                MODELS={"quick": [forth(2, 3, 6, 5)],
                        "thorough": [forth(2, 4, 6, 5), forth(2, 3, 2, 5), forth(2, 3, 6, 3), forth(3, 2, 4, 4), forth(3, 3, 6, 5, [3, 4])]}, N={"quick": 12000, "thorough": 250000},
                RULE="random AwkwardForth programs run in sessions of begin, step, resume, call, run and stack commands; non-trivial: the session got past its first command without an error"),
    "C05": Conf(TRACE="Trace_Forth", N={"quick": 12000, "thorough": 250000},
                RULE="random AwkwardForth programs that read random inputs in every format and write every output type; non-trivial: the session got past its first command without an error"),
    "C06": Conf(TRACE="Trace_Getitem", N={"quick": 20000, "thorough": 400000},
                RULE="random typed arrays in random physical layouts, sliced with random items; non-trivial: does not raise"),
    "C07": Conf(TRACE="Trace_Validity", N={"quick": 16000, "thorough": 300000},
                RULE="random trees of buffers with positions that are not there, asked for their validity in every way; results of random operations of the other properties; non-trivial: a verdict was given"),
    "C08": Conf(TRACE="Trace_Reduce", N={"quick": 20000, "thorough": 400000},
                RULE="random typed arrays in random physical layouts, reduced by every reducer along every axis; non-trivial: does not raise"),
    "C09": Conf(TRACE="Trace_Struct", N={"quick": 16000, "thorough": 300000},
                RULE="random typed arrays (numbers with NaN and infinities, booleans, strings, missing values) in random physical layouts, sorted and argsorted at every axis in both directions; non-trivial: does not raise"),
    "C10": Conf(TRACE="Trace_Ufunc", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays of related and unrelated structure combined by universal functions; non-trivial: does not raise"),
    "C11": Conf(TRACE="Trace_Struct", N={"quick": 20000, "thorough": 400000},
                RULE="random typed arrays in random physical layouts; counting, padding, flattening, unflattening, regularising, packing at every axis; non-trivial: does not raise"),
    "C12": Conf(TRACE="Trace_Combine", N={"quick": 14000, "thorough": 250000},
                RULE="random typed arrays in random physical layouts, combined by combinations, argcombinations, cartesian and argcartesian at every axis; non-trivial: does not raise"),
    "C13": Conf(TRACE="Trace_Struct", N={"quick": 16000, "thorough": 300000},
                RULE="random typed arrays with missing values in random physical layouts; is_none, fill_none, mask, full_like, values_astype, nan_to_num, copy; non-trivial: does not raise"),
    "C14": Conf(TRACE="Trace_Merge", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays in random physical layouts, concatenated at every axis, selected by where, zipped, unzipped and extended by fields; non-trivial: does not raise"),
    "C15": Conf(TRACE="Trace_Convert", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays in random physical layouts, converted to Python objects, JSON and NumPy and back; non-trivial: does not raise"),
    "C16": Conf(TRACE="Trace_Convert", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays in random physical layouts with parameters, taken apart into buffers and put together (eagerly, lazily, in partitions), pickled, copied; forms and types in every representation; non-trivial: does not raise"),
    "C17": Conf(TRACE="Trace_Convert", N={"quick": 10000, "thorough": 150000},
                RULE="random arrays in random physical layouts, converted to Arrow arrays and tables and back; random Arrow arrays (sliced, chunked, with every kind of null) read; non-trivial: does not raise"),
    "C18": Conf(TRACE="Trace_Lazy", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays with lazy nodes (with and without form, length and cache) under the operations of the other properties; non-trivial: does not raise"),
    "C19": Conf(TRACE="Trace_Lazy", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays cut into partitions at arbitrary places under the operations of the other properties; non-trivial: does not raise"),
    "C21": Conf(TRACE="Trace_View", N={"quick": 800, "thorough": 12000},
                RULE="random typed arrays (also lazy and partitioned) in random physical layouts, read by compiled functions along random steps into compiled builders, returned and appended; non-trivial: does not raise"),
    "C22": Conf(TRACE="Trace_Typing", N={"quick": 16000, "thorough": 300000},
                RULE="random arrays with named records and lists in random physical layouts under operations that keep or change types in a known way; non-trivial: does not raise"),
    "C23": Conf(TRACE="Trace_Named", N={"quick": 12000, "thorough": 200000},
                RULE="random arrays of strings, categories and named records and lists: conversions to and from categories, comparisons, registered classes and functions; non-trivial: does not raise"),
    "C20": Conf(TRACE="Trace_Heap", N={"quick": 12000, "thorough": 200000},
                RULE="random sessions of operations, field assignments and writes into copies on a pool of arrays that share buffers, all of which are looked at after every step; cases of the other properties whose inputs are looked at again; non-trivial: at least one operation was run"),
    "C24": Conf(TRACE="Trace_Cache",
                MODELS={"quick": [lazy(3, 4, True, True), lazy(3, 4, False, True), lazy(2, 4, True, False)],
                        "thorough": [lazy(4, 5, True, True), lazy(4, 5, False, True), lazy(3, 4, True, False)]}, N={"quick": 12000, "thorough": 200000},
                RULE="random sessions with lazy columns, tables and lazily read buffers, counting after each command how often each of them was generated; non-trivial: more than one command"),
}

# not claimed yet: known to the development aid (dev.py) only
DEV = {}
