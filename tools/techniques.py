VF = "interprocedural value-flow analysis over MIR: summary of every function involved compared with its specification"
NOTE = "all paths and all inputs of the analysed functions, joined at merges; library calls by model; loops by closed forms"
LA = VF + "; the reader as an automaton: its transfer function for every class of lines in every state, the fold over the lines, and every way the input can end"
TECH = {
    "C01": (VF + "; the decoder loop abstracted to its per-round transfer function and checked against every code word of the encoder", NOTE),
    "C02": (VF + "; the decoder loop abstracted to its per-round transfer function; the reader's transfer function for every class of lines in every state", NOTE),
    "C04": (VF + "; every panic site and allocation reached by the reader shown unreachable or bounded", NOTE),
    "C05": (VF, NOTE),
    "C16": (VF, NOTE),
    "C17": (VF, NOTE),
    "C07": (VF + "; effect analysis of the file operations: which path, what is written, whose outcome is tested", NOTE),
    "C09": (VF, NOTE),
    "C10": (VF, NOTE),
    "C25": (VF + "; cut positions shown to be a subsequence of the break opportunities", NOTE),
    "C26": (VF + "; order taint from hash-map iteration to the output", NOTE),
    "C33": (VF, NOTE),
    "C34": (VF + "; every panic site reached from public functions that neither read nor save shown unreachable", NOTE),
    "C03": (LA + "; every panic site shown unreachable", NOTE),
    "C06": (LA, NOTE),
    "C08": (LA + "; every field's path to the text and from it", NOTE),
    "C11": (LA, NOTE),
    "C12": (LA, NOTE),
    "C13": (LA, NOTE),
    "C27": (LA, NOTE),
    "C28": (LA + "; summaries for the ways of giving the input compared with each other", NOTE),
    "C14": (VF, NOTE),
    "C15": (VF, NOTE),
    "C23": (VF + "; the Python crate linked to the summaries of the Rust crate", NOTE),
    "C24": (VF + "; exception flow from the Rust results to the Python exceptions; reachability of panics in the Python crate", NOTE),
    "C29": ("auto-trait queries to the compiler for the public types; reachability over the call graph from public functions to statics, thread-locals and process-wide state; provenance of file names by value flow", "For every static, type and call in both crates. Functions of other crates are taken not to keep state."),
    "C18": (VF, NOTE),
    "C19": (VF, NOTE),
    "C20": (VF, NOTE),
    "C21": (VF, NOTE),
    "C22": (VF, NOTE),
}
NA = {
    "C30": "needs the composition of the writer and the reader over unbounded files; the two halves are decided separately by C08-C12, C25 and C27",
    "C31": "line breaking is delegated to tables of a library that static analysis of this crate does not see",
    "C32": "cost bounds would need an amortised complexity analysis that is not available here",
}
