"""The registered checks: which harness decides which property, how many cases."""
API = ["pbt.cpp", "prog.cpp", "api.cpp", "interp.cpp"]
ISL = "isl's set operations are right"
PIP = "piplib is replaced by an isl-based stand-in"
BINARIES = {
    # name: (variant, sources)
    "api": ("asan", API + ["c_legal.cpp", "c_sched.cpp", "c_par.cpp", "c_tile.cpp", "c_str.cpp", "c_fuse.cpp", "c_state.cpp", "c_auto.cpp", "c_opt.cpp", "c_diam.cpp", "c_mem.cpp"]),
    "int": ("asan", ["pbt.cpp", "prog.cpp", "iprog.cpp", "interp.cpp", "c_graph.cpp", "c_ana.cpp", "c_dep.cpp", "c_edit.cpp", "c_reuse.cpp"]),
    "core": ("asan", ["pbt.cpp", "prog.cpp", "c_cst.cpp", "c_conv.cpp", "c_math.cpp"]),
}
CHECKS = {
    "C01": {
        "binary": "api",
        "technique": "generated programs and options, the schedule of pluto_transform compared with the dependences by isl",
        "note": "about 3000 generated program/option pairs (quick) or 60000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 3000, "thorough": 60000},
        "rule": "a schedule came back for a program with at least one dependence and every dependence was compared "
                "with it by isl; distinct by program, dependences and options",
        "assumptions": [ISL, PIP],
    },
    "C02": {
        "binary": "api",
        "technique": "generated programs and options, the returned map compared with the domains by isl",
        "note": "about 2000 generated program/option pairs (quick) or 40000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 2000, "thorough": 40000},
        "rule": "a schedule came back and totality, single-valuedness and injectivity were decided by isl; distinct by program and options",
        "assumptions": [ISL, PIP],
    },
    "C03": {
        "binary": "api",
        "technique": "generated programs executed by an interpreter in the original order and in the order of pluto_schedule",
        "note": "about 2000 generated programs with options and parameter values (quick) or 40000 (thorough)",
        "cases": {"quick": 2000, "thorough": 40000},
        "rule": "a schedule came back for a program of at least 3 executed instances with at least one dependence, and both "
                "executions were compared; distinct by program, options and parameter values",
        "assumptions": ["isl enumerates the instances of a schedule at fixed parameters", PIP],
    },
    "C04": {
        "binary": "int",
        "technique": "generated programs, the computed dependences compared pair by pair with those of a sequential execution",
        "note": "about 2500 generated programs with parameter values and relations of accesses (quick) or 60000 (thorough)",
        "cases": {"quick": 2500, "thorough": 60000},
        "rule": "a program with at least one pair of conflicting accesses was analysed (or at least one access converted) and all pairs "
                "compared; distinct by program, options and parameter values",
        "assumptions": ["isl enumerates the points of a relation at fixed parameters"],
    },
    "C14": {
        "binary": "int",
        "technique": "generated graphs and programs in Pluto's own form, components and cuts compared with a reachability model",
        "note": "about 60000 generated graphs and programs (quick) or 2000000 (thorough)",
        "cases": {"quick": 60000, "thorough": 2000000},
        "rule": "a graph was built and every analysis compared with the model; distinct by graph or program",
        "assumptions": [],
    },
    "C18": {
        "binary": "int",
        "technique": "generated transformed programs in Pluto's own form, directions and satisfaction compared with isl's answers",
        "note": "about 8000 generated programs (quick) or 300000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 8000, "thorough": 300000},
        "rule": "some dependence has a non-zero distance at some level; distinct by program",
        "assumptions": [ISL],
    },
    "C19": {
        "binary": "int",
        "technique": "generated transformed programs in Pluto's own form, loops and bands compared with a model of the loop nest",
        "note": "about 20000 generated programs (quick) or 600000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 20000, "thorough": 600000},
        "rule": "the program has a loop and its lists were compared; distinct by program",
        "assumptions": [ISL],
    },
    "C20": {
        "binary": "int",
        "technique": "generated statements and transformations, domains, inverses and accesses compared by evaluation",
        "note": "about 40000 generated statements (quick) or 1500000 (thorough)",
        "cases": {"quick": 40000, "thorough": 1500000},
        "rule": "a statement with at least one loop was transformed and compared; distinct by statement",
        "assumptions": [],
    },
    "C24": {
        "binary": "api",
        "technique": "generated programs, the longest dependence distance of the loops chosen compared with that of all other small choices",
        "note": "about 2500 generated programs with options (quick) or 50000 (thorough), alternatives with coefficients from 0 to 2 enumerated "
                "and decided exactly for all parameter values",
        "cases": {"quick": 2500, "thorough": 50000},
        "rule": "some other choice of loops was legal with bounded distance and compared; distinct by program and options",
        "assumptions": [ISL, PIP],
    },
    "C25": {
        "binary": "api",
        "technique": "generated stencils, the schedule with diamond tiling compared with the one without: one loop replaced, a face between it and the others",
        "note": "about 1600 generated stencils of one or several statements with options (quick) or 40000 (thorough)",
        "cases": {"quick": 1600, "thorough": 40000},
        "rule": "diamond tiling replaced a loop, or had to, and the result was compared; distinct by program and options",
        "assumptions": [ISL, PIP],
    },
    "C26": {
        "binary": "api",
        "technique": "generated programs, options and histories of operations run again and again from nothing to nothing; the bytes in use must not grow each time",
        "note": "about 1500 generated calls and histories (quick) or 40000 (thorough), each run up to 4 times (histories 13)",
        "cases": {"quick": 1500, "thorough": 40000},
        "rule": "the call or history ran to its end; distinct by program and options, or by the operations and their operands",
        "assumptions": ["the allocator's count of bytes in use (AddressSanitizer) is right", PIP],
    },
    "C05": {
        "binary": "api",
        "technique": "generated programs and options, every loop reported as parallel compared with every dependence by isl",
        "note": "about 2500 generated program/option pairs (quick) or 50000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 2500, "thorough": 50000},
        "rule": "at least one loop was reported as parallel for a program with at least one dependence and compared with all "
                "dependences; distinct by program and options",
        "assumptions": [ISL, PIP],
    },
    "C06": {
        "binary": "api",
        "technique": "generated programs, tile sizes and options, the tiled schedule compared with the untiled one by isl",
        "note": "about 2000 generated program/option pairs (quick) or 50000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 2000, "thorough": 50000},
        "rule": "a schedule came back with and without tiling, some loop was tiled (or none asked for) and both were compared "
                "for every statement; distinct by program and options",
        "assumptions": [ISL, PIP],
    },
    "C07": {
        "binary": "api",
        "technique": "generated programs with a fusion structure asked for, the nesting of the returned schedule compared with it",
        "note": "about 2500 generated programs with options and partition or transformation files (quick) or 50000 (thorough)",
        "cases": {"quick": 2500, "thorough": 50000},
        "rule": "a schedule came back and at least one pair of statements had to be kept apart, or rows or fusion were asked for and "
                "compared; distinct by program, options and files",
        "assumptions": [ISL, PIP],
    },
    "C08": {
        "binary": "api",
        "technique": "generated programs given as text, the answers compared with the isl interface and by evaluating the inverse maps",
        "note": "about 1500 generated program/option pairs (quick) or 30000 (thorough); inverse maps evaluated at one choice of parameters",
        "cases": {"quick": 1500, "thorough": 30000},
        "rule": "a schedule came back and at least one instance was mapped back; distinct by program, options and parameter values",
        "assumptions": [ISL, PIP],
    },
    "C10": {
        "binary": "core",
        "technique": "stateful generated sequences of constraint-system operations against a model that enumerates points",
        "note": "about 25000 generated histories (quick) or 600000 (thorough), compared with a point-set model and a rational elimination of our own",
        "cases": {"quick": 25000, "thorough": 600000},
        "rule": "at least one operation ran and its result was compared with the model; distinct by operations and initial systems",
        "assumptions": ["coefficients are small; the model enumerates points of a box"],
    },
    "C11": {
        "binary": "core",
        "technique": "generated sets, maps, functions and values converted to and fro, compared by isl and by evaluation",
        "note": "about 40000 generated objects (quick) or 1000000 (thorough)",
        "cases": {"quick": 40000, "thorough": 1000000},
        "rule": "an object was converted and compared with its source; distinct by object",
        "assumptions": [ISL],
    },
    "C12": {
        "binary": "core",
        "technique": "generated polyhedra and cost problems; Farkas elimination and lexicographic minima compared with enumeration",
        "note": "about 25000 generated problems (quick) or 600000 (thorough)",
        "cases": {"quick": 25000, "thorough": 600000},
        "rule": "a problem was solved (or found infeasible) and compared with the model; distinct by problem",
        "assumptions": [PIP],
    },
    "C13": {
        "binary": "core",
        "technique": "stateful generated sequences of matrix operations against a model in rational arithmetic",
        "note": "about 200000 generated histories (quick) or 8000000 (thorough)",
        "cases": {"quick": 200000, "thorough": 8000000},
        "rule": "at least one operation ran and its result was compared with the model; distinct by operations and matrices",
        "assumptions": ["entries stay below 2^40"],
    },
    "C15": {
        "binary": "api",
        "technique": "stateful generated histories of calls, in sequence, on reused contexts and in threads; results compared call by call",
        "note": "about 1200 generated histories of 2 to 7 calls (quick) or 25000 (thorough)",
        "cases": {"quick": 1200, "thorough": 25000},
        "rule": "at least two calls for the same program were compared; distinct by programs, options and order of calls",
        "assumptions": ["thread interleavings are those that the operating system gives"],
    },
    "C16": {
        "binary": "api",
        "technique": "generated programs and options, the printed transformations read back and compared with the returned schedule",
        "note": "about 1200 generated program/option pairs, each run at four levels of verbosity (quick) or 25000 (thorough)",
        "cases": {"quick": 1200, "thorough": 25000},
        "rule": "a schedule came back and at least one printed level was compared with it at some instance; distinct by program, options "
                "and parameter values",
        "assumptions": ["isl enumerates the instances of a schedule at fixed parameters", PIP],
    },
    "C17": {
        "binary": "core",
        "technique": "generated functions, matrices and systems printed, read back by a parser of our own and compared",
        "note": "about 100000 generated objects (quick) or 4000000 (thorough)",
        "cases": {"quick": 100000, "thorough": 4000000},
        "rule": "an object was printed and its text read back; distinct by object",
        "assumptions": [],
    },
    "C09": {
        "binary": "int",
        "technique": "generated programs and dependences, the pieces after index set splitting compared with the originals by isl",
        "note": "about 9000 generated programs (quick) or 300000 (thorough), each decided exactly for all parameter values",
        "cases": {"quick": 9000, "thorough": 300000},
        "rule": "a statement was split, or a cut looked for, and the pieces or the cut compared; distinct by program and cuts",
        "assumptions": [ISL, PIP],
    },
    "C21": {
        "binary": "int",
        "technique": "stateful generated sequences of edits of a program against a model of it",
        "note": "about 60000 generated histories of up to 8 edits (quick) or 2000000 (thorough)",
        "cases": {"quick": 60000, "thorough": 2000000},
        "rule": "at least one edit ran and the whole program was compared with the model after each; distinct by program and edits",
        "assumptions": [ISL],
    },
    "C22": {
        "binary": "api",
        "technique": "generated programs, caches and element sizes; schedules tiled with chosen sizes compared with each other",
        "note": "about 1500 generated program/cache/option triples (quick) or 30000 (thorough)",
        "cases": {"quick": 1500, "thorough": 30000},
        "rule": "a schedule with sizes chosen by the library came back and was compared; distinct by program, cache and options",
        "assumptions": [ISL, PIP],
    },
    "C23": {
        "binary": "int",
        "technique": "generated transformed programs with accesses, reuse counted by evaluation and proposed loops checked against all dependences by isl",
        "note": "about 6000 generated programs (quick) or 200000 (thorough)",
        "cases": {"quick": 6000, "thorough": 200000},
        "rule": "the program has a loop and at least one answer was compared; distinct by program",
        "assumptions": [ISL],
    },
}
