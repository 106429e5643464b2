CHECKS = {
    "S01": ("sem_int", "model_checking"),
    "S02": ("sem_int", "model_checking"),
    "S03": ("sem_struct", "model_checking"),
    "S04": ("sem_more", "model_checking"),
    "S05": ("sem_more", "model_checking"),
    "S06": ("sem_rec", "model_checking"),
    "S10": ("sem_more", "model_checking"),
    "S11": ("linear", "model_checking"),
    "M02": ("gcobs", "model_checking"),
    "T01": ("reprint", "model_checking"),
    "O05": ("data", "model_checking"),
    "D02": ("data", "model_checking"),
    "D03": ("data", "model_checking"),
    "D04": ("options", "model_checking"),
    "D06": ("options", "model_checking"),
    "D07": ("flatzinc", "model_checking"),
    "S12": ("globals", "model_checking"),
    "S13": ("globals", "model_checking"),
    "S14": ("sem_more", "model_checking"),
    "S07": ("sem_func", "model_checking"),
    "S08": ("sem_func", "model_checking"),
    "S15": ("sem_func", "model_checking"),
    "S09": ("arith", "model_checking"),
    "S16": ("par", "model_checking"),
    "S17": ("par", "model_checking"),
    "P01": ("process", "model_checking"),
    "P02": ("process", "model_checking"),
    "P03": ("process", "model_checking"),
    "O01": ("stream", "model_checking"),
    "O02": ("stream", "model_checking"),
    "O03": ("stream", "model_checking"),
    "O04": ("stream", "model_checking"),
}
_SEM = ("Trusts TLC, the TLA+ denotational semantics in specs/MznSem.tla, the FlatZinc solvers used as back ends (external Gecode, "
        "cross-checked against the reference enumerator tools/enumfzn.py) and the JSON output reader; models are random within "
        "stated size bounds, each model's solution set is compared completely.")
# module or property -> (technique, note)
META = {
    "sem_int": ("TLA+ semantics (MznSem/MznSolve) checked with TLC against recorded all-solutions runs of generated models", _SEM),
}
META["linear"] = META["sem_rec"] = META["sem_more"] = META["sem_func"] = META["sem_struct"] = META["globals"] = META["sem_int"]
META["gcobs"] = ("TLA+ semantics (MznSem/MznSolve) checked with TLC against recorded all-solutions runs under forced garbage collection schedules",
                 "Trusts TLC, the specification, the reference enumerator tools/enumfzn.py and the collection hook in lib/gc.cpp (collections are forced where the implementation may collect, and reclaimed memory is overwritten).")
META["reprint"] = ("TLA+ semantics (MznSem/MznSolve) checked with TLC against recorded runs of models printed by the real printer",
                   "Trusts TLC, the specification and the harness harness/reprint.cpp (calls the real parser and printer). Only the plain printer is covered, not the document printer used for documentation.")
META["data"] = ("TLA+ specification of parameter data (MznData) checked with TLC against recorded runs with generated declarations and data sources",
                "Trusts TLC, specs/MznData.tla, the rendering of values to DZN and JSON in checks/data.py and the JSON output reader; data are random within size bounds.")
META["options"] = ("TLA+ state machine of option processing and solver selection (MznOptions) checked with TLC against the command lines recorded by scripted solver processes",
                   "Trusts TLC, specs/MznOptions.tla, the recording solver tools/fakesolver.py and the splitting of command lines into options in checks/options.py; configurations and option sequences are random within bounds. Only FlatZinc solver processes are covered.")
META["flatzinc"] = ("TLA+ reader of FlatZinc (MznFlatZinc) run by TLC over the FlatZinc compiled from generated models",
                    "Trusts TLC, specs/MznFlatZinc.tla, the table of standard constraints in specs/MznFlatZincSigs.tla and the FlatZinc parser in checks/flatzinc.py; models are the random models of the S checks, compiled for four solver libraries.")
META["stream"] = ("TLA+ state machine of the stream translation (MznStream) checked with TLC against recorded outputs for scripted solver processes",
                  "Trusts TLC, specs/MznStream.tla, the scripted solver tools/fakesolver.py and the rendering of line records to bytes in checks/stream.py; streams are random within bounds.")
META["process"] = ("TLA+ model of the solver process life cycle (MznProcess): schedules from TLC run through the real loop in a virtual operating system, recorded runs checked with TLC",
                   "Trusts TLC, specs/MznProcess.tla and the virtual operating system harness/procworld.cpp (pipes, signals, time); a few end-to-end runs use real processes. Only the POSIX code is exercised.")
META["par"] = ("TLA+ evaluator for fixed expressions (MznPar) checked with TLC against recorded evaluations of generated expressions",
               "Trusts TLC, specs/MznPar.tla and the JSON output reader; expressions are random within size bounds, floats are multiples of 1/4.")
META["arith"] = ("TLA+ unbounded integer arithmetic (MznBig) checked with TLC against recorded results of generated 64-bit expressions",
                 "Trusts TLC, specs/MznBig.tla (its laws are checked on boundary operands at every start) and the JSON output reader; expressions are random with operands at word boundaries.")
NA = {}
