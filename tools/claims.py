G = ("Every obligation generated from the current source is discharged for all inputs, parameters and history lengths; "
     "values as reals, 64-bit times as unbounded integers; trusts the VC generator, clang's AST and Z3. ")
CLAIMS = {
    "P01": ("proof", G + "Port counts 1, 2, 3 (constructor also 11)."),
    "P02": ("proof", G),
    "P03": ("proof", G + "Port counts 2 and 3 for the synchronisation, also 4 and 11 for construction and the emitted sets."),
    "P04": ("proof", G + "Linear with 2 and 3 ports for the synchronisation, also 4 and 11 for its formula."),
    "P05": ("proof", G + "1, 2 and 3 outputs for the routing."),
    "P06": ("proof", G),
    "P07": ("proof", G),
    "P08": ("proof", G),
    "P09": ("proof", G),
    "P10": ("proof", G),
    "P11": ("proof", G + "std::sort by its contract."),
}
CLAIMS["P12"] = ("proof", G + "Operators with a variable number of ports at 1, 2 and 11 ports (11 with at most one message per further "
                 "buffer); the byte format by its typed pieces: a value is only accepted back as the type it was written as.")
CLAIMS["P14"] = ("proof", G + "emit with one port for any number of connections, batches of any length; the bodies of emit and mergeOutput together for one port with 1 or 2 "
                 "and two ports with up to 1 connections each; merged maps of up to 2 operators and 3 ports, every batch of any length. What a connected operator does is unknown (any answer).")
CLAIMS["P15"] = ("proof", G + "Texts of up to 4 operators and 3 connections; Operators with up to 2 outputs, 2 or 3 data and 1 or 2 control ports (ports are told apart by name only); any number of earlier connections.")
CLAIMS["P18"] = ("proof", G + "Pipeline texts of up to 4 inner operators and 2 connections; Pipelines with up to 11 inner input and 3 inner output ports (any subset of inputs pending, any answer of the inner operators with up to 3 "
                 "batches of any length); composites with up to 4 inner operators. The inner operators are unknown.")
CLAIMS["P13"] = ("proof", G + "Programs of up to 4 operators with ids of any kind; text and states of any length.")
CLAIMS["P16"] = ("proof", G + "receiveDebug for batches of any length on up to 3 ports with any answers (empty ones included); output sections and results of up to "
                 "3 operators and 4 ports. The entry operator is unknown.")
CLAIMS["P17"] = ("proof", G + "Up to 3 programs with up to 2 buffered ports each, batches of any length, every call of the interface over any such state "
                 "(and so every interleaving of calls). The programs are unknown and may raise errors.")
CLAIMS["P19"] = ("proof", G + "Every registered type with any parameters (port counts 1, 2, 3 and 11; coefficient and point lists of any length, Linear with 2, 3 and 11 "
                 "coefficients); the JSON library by its contract: a dumped value parses to the same value (no NaN or infinity).")
CLAIMS["P20"] = ("proof", G + "The safety and termination obligations of every operator of the library; for the operators with a "
                 "variable number of ports at 1 or 2 ports (Join and Linear also 3 and 11 where stated).")
CLAIMS["P21"] = ("proof", G + "The validator library by its interface (it may accept or reject anything, or refuse the schema); the schema itself is generated by a "
                 "JavaScript tool and not in this tree; schemas of up to 4 operator types.")
NA = {
    "P22": "needs the Python/JavaScript/Rust/WebAssembly tool chains and generated bindings; a cross-language equivalence is not a contract on the C++ functions in reach",
}
