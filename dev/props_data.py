prop("C01","Every schedule Pluto returns respects every dependence",
 "Whatever program and options the caller gives (tiling at one or two levels with any sizes, diamond tiling, parallelisation, every fusion choice, every solver and cost model), if a schedule is returned then the target of every given dependence is executed strictly after its source, for all parameter values. A single statement whose dependences each go forward at one loop always gets a schedule.",
 ["programs","configurations"],"all static control programs (up to 6 statements, 3 loops, 2 parameters here), all dependence relations that agree with some sequential order, and combinations of options",
 "The tests compare printed output for a handful of fixed kernels; an illegal order can appear for one shape of dependence under one combination of options only.",
 ["lib/plutolib.c","lib/pluto.c","lib/framework.cpp","lib/framework-dfp.c","lib/tile.c","lib/polyloop.c","lib/post_transform.c"],
 [("scheduling","lib/pluto.c pluto_auto_transform"),("legality constraints","lib/framework.cpp get_permutability_constraints"),("tiling and wavefronts","lib/tile.c pluto_tile, pluto_create_tile_schedule_band"),("distribution","lib/pluto.c cut_smart, cut_between_sccs")],observe_at="the isl union map returned by pluto_transform")
prop("C02","A schedule gives every instance of every statement exactly one time of its own",
 "A returned schedule is total and single-valued on the given iteration domains, for all parameter values: every instance of every statement gets exactly one time. Times of all statements have the same length, two instances of one statement never share a time, and statements and parameters keep the caller's names.",
 ["programs","configurations"],"all static control programs (up to 6 statements, 3 loops, 2 parameters, union domains here) and combinations of options, tile sizes included",
 "A tile constraint or a level that drops or doubles instances shows only at sizes, bounds or depths that the fixed kernels of the tests do not have, and the printed schedule still looks right.",
 ["lib/plutolib.c","lib/tile.c","lib/polyloop.c","lib/program.cpp","lib/framework.cpp"],
 [("linear independence","lib/pluto.c get_linear_ind_constraints"),("tiling","lib/tile.c pluto_tile_band"),("schedules to isl","lib/plutolib.c pluto_transform")],observe_at="the isl union map returned by pluto_transform")
prop("C03","Executing a program in the order Pluto chose gives the same results",
 "For a program given by its original order, its reads and its writes, executing all instances in the returned order leaves every array with the same final contents, and every instance reads the same values, as in the original order. This holds for memory-based and last-writer dependences and however instances with equal times are ordered.",
 ["programs","configurations","inputs"],"all programs of affine accesses (up to 3 statements, 3 loops, 2 parameters, strided and union domains here), options, and parameter values",
 "It needs dependence analysis, scheduling, tiling and the conversion back to agree on arbitrary access functions; the tests only diff the output of fixed kernels.",
 ["lib/plutolib.c","lib/program.cpp","lib/pluto.c","lib/tile.c","lib/framework.cpp"],
 [("dependence analysis","lib/program.cpp compute_deps_isl"),("dependences to polyhedra","lib/program.cpp extract_deps_from_isl_union_map"),("scheduling","lib/pluto.c pluto_auto_transform")],observe_at="the isl union map returned by pluto_schedule, interpreted")
prop("C05","A loop reported as parallel carries no dependence",
 "For every loop that Pluto reports as parallel in the final transformed program, no given dependence between statements inside that loop goes from one iteration of it to another, for all parameter values. Reported loops exist and enclose at least one statement.",
 ["programs","configurations"],"all static control programs and combinations of options, with tiling, wavefronts, several degrees of parallelism and inner parallelism",
 "Whether a loop is parallel follows from satisfaction levels kept up to date through tiling and skewing; a stale level shows only for particular dependence shapes.",
 ["lib/pluto.c","lib/polyloop.c","lib/tile.c"],
 [("parallel loops","lib/polyloop.c pluto_get_parallel_loops, pluto_loop_is_parallel"),("satisfaction","lib/pluto.c pluto_compute_dep_satisfaction"),("wavefront","lib/tile.c pluto_create_tile_schedule")],observe_at="the list of parallel loops that pluto_transform reports")
prop("C10","Operations on constraint systems compute exactly the integer sets they name",
 "Over any history of operations on systems of affine equalities and inequalities (adding, intersecting, uniting, subtracting, eliminating and projecting out variables, inserting and removing dimensions, simplifying, copying, substituting), the points of the result are those that the operation's meaning gives for the points of its operands. Emptiness, equality and constant-bound queries answer what the points say, and operands that are not to change do not.",
 ["histories","inputs"],"all sequences of operations on systems of up to 6 dimensions and unions of up to 4 systems (small coefficients here)",
 "The tests run whole programs; a wrong sign, a lost equality or a stale row count shows only for particular shapes of systems, and often only as a worse or wrong schedule far away.",
 ["lib/constraints_isl.c","lib/constraints.c"],
 [("elimination","lib/constraints.c fourier_motzkin_eliminate"),("simplification","lib/constraints.c pluto_constraints_simplify"),("set operations","lib/constraints.c pluto_constraints_unionize, pluto_constraints_intersect"),("bounds","lib/constraints.c pluto_constraints_get_const_lb / _ub")],observe_at="the constraint systems that the operations return")
prop("C11","Converting sets, maps and values between isl and Pluto changes nothing",
 "Every integer set, affine function or value converted from isl into Pluto's own form and every one converted back describes exactly the same points, outputs or number, including equalities, unions, existentially quantified divisions, parameters and negative or 64-bit constants.",
 ["inputs"],"all basic sets, sets, affine functions, matrices and constraint systems of up to 6 dimensions with parameters and divisions",
 "Each conversion has its own column order and sign convention; a mistake shows only with the shapes (several parameters, divisions, equalities) that the fixed kernels do not have.",
 ["lib/constraints_isl.c","lib/math_support.c","lib/isl_support.c","lib/plutolib.c"],
 [("sets","lib/constraints_isl.c isl_set_from_pluto_constraints, isl_basic_set_to_pluto_constraints"),("values","lib/isl_support.c isl_val_get_num_ll"),("functions","lib/isl_support.c isl_aff_to_pluto_func")],observe_at="the converted objects")
prop("C12","Farkas elimination and lexicographic minima are exact",
 "The constraints on schedule coefficients derived for a dependence hold for exactly those coefficients whose affine form is nonnegative on the whole dependence, and a lexicographic minimum returned by any solver path is a feasible integer point with no lexicographically smaller one; no point is returned exactly when there is none.",
 ["inputs","configurations"],"all dependence polyhedra of up to 3+3 dimensions and 2 parameters, all small constraint problems, and every solver",
 "A multiplier with the wrong sign or a lost bound leaves schedules legal but poor, or legal only for the kernels tried; no test looks at the optimum.",
 ["lib/framework.cpp","lib/constraints_isl.c","lib/pluto.c","lib/constraints.c"],
 [("Farkas","lib/constraints.c farkas_lemma_affine"),("minimum","lib/constraints_isl.c pluto_constraints_lexmin_isl"),("GLPK","lib/constraints.c pluto_prog_constraints_lexmin_glpk")],observe_at="the derived constraint systems and the solutions")
prop("C13","Matrix and number arithmetic is exact",
 "Products, ranks, row reductions, inverses, independence tests, gcds, lcms and every edit of a matrix (adding, removing, moving and interchanging rows and columns, copying) give the mathematically exact result for every shape, the degenerate ones included, and for entries beyond 32 bits.",
 ["histories","inputs"],"all sequences of edits and computations on matrices of up to about 7 by 7, wide, tall and empty shapes",
 "Schedules of fixed kernels use square, small, full-rank matrices only; a wrong rank or a lost column shows for other shapes only.",
 ["lib/math_support.c"],
 [("rank and reduction","lib/math_support.c pluto_matrix_get_rank, pluto_matrix_to_row_echelon"),("edits","lib/math_support.c pluto_matrix_add_row, _interchange_cols, ..."),("gcd","lib/math_support.c gcd, lcm")],observe_at="the matrices and numbers that the operations return")
prop("C17","What Pluto prints denotes the object printed",
 "The text printed for an affine function, a matrix or a system of constraints reads back to exactly that object: no term, sign, coefficient, name or constant is lost or changed, whatever the coefficients and however long the names.",
 ["inputs"],"all affine functions, matrices and constraint systems with small, negative, zero and large coefficients and with names of any length",
 "The tests compare a few printed schedules with unit coefficients and one-letter names.",
 ["lib/math_support.c","lib/constraints_isl.c","lib/pluto.c"],
 [("functions","lib/math_support.c pluto_affine_function_print, pluto_affine_function_sprint"),("constraints","lib/constraints.c pluto_constraints_compact_print, pluto_constraints_pretty_print")],observe_at="the printed text")
prop("C06","Tiles have the asked sizes and change nothing else",
 "With tiling, every statement's time is its untiled time with, in front of the loops of one band, one tile number per loop: the loop's value divided by the tile size (32 unless sizes are given, then those in order), rounded down, and at a second level again by the ratio. Beyond that only a loop inside the tiles may move inward and, when parallelism is asked for, the first tile loop becomes the sum of two tile loops, or of all of the band when parallelism in several dimensions is asked for, which then leaves a parallel loop; loops that no dependence keeps from being tiled are tiled.",
 ["programs","configurations"],"all static control programs, tile sizes, one or two tiling levels, with or without parallelism and intra-tile optimisation",
 "The tests see one or two sizes on fixed kernels; a wrong bound, a size taken for the wrong loop or a lost level is legal and shows only in the shape of the tiles.",
 ["lib/tile.c","lib/polyloop.c","lib/post_transform.c","lib/transforms.c"],
 [("tiling","lib/tile.c pluto_tile_band, pluto_tile_scattering_dims"),("sizes","lib/tile.c read_tile_sizes"),("bands","lib/polyloop.c pluto_get_outermost_permutable_bands"),("wavefront","lib/tile.c pluto_create_tile_schedule_band")],observe_at="the isl union maps returned by pluto_transform with and without tiling")
prop("C08","The string interface agrees with the isl one and its inverse maps lead back",
 "Given the same domains and dependences as text, the schedule that comes back as text is the one the isl interface returns, or none when that has none. For every instance, the returned inverse map of its statement, applied to its time and the parameters and divided by the divisors, gives exactly its original iterators. The depths listed as parallel are loops at which some statement's own dependences are not carried.",
 ["programs","configurations"],"all static control programs and combinations of options, tiling included",
 "The one test of it only checks that nothing crashes, for a few square, unit-coefficient transformations.",
 ["lib/plutolib.c","lib/program.cpp","lib/polyloop.c"],
 [("string interface","lib/plutolib.c pluto_schedule_str, pluto_get_remapping_str"),("inverse maps","lib/program.cpp pluto_stmt_get_remapping")],observe_at="the strings and the remapping returned by the string interface")
prop("C04","Dependences and access functions are those of the program's accesses",
 "From the reads, writes and original order of a program, the dependences computed are exactly the pairs of instances that touch the same array element in that order (flow, anti, output and, when asked for, input); with last-writer analysis exactly those not masked by a write in between, which together still order every conflicting pair. Taking them into Pluto's own form loses no pair, adds none (but by dropping divisibility conditions), and keeps statements, kinds, and the two accesses involved; access functions come out as given.",
 ["programs","configurations"],"all programs of affine accesses (up to 3 statements, 2 loops, 2 parameters, strided and union domains here), per-access or per-statement analysis, all options of the analysis",
 "A lost or superfluous dependence needs a particular pair of access functions and loop order; fixed kernels still schedule the same way.",
 ["lib/program.cpp"],
 [("analysis","lib/program.cpp compute_deps_isl"),("extraction","lib/program.cpp extract_deps_from_isl_union_map, basic_map_extract_dep"),("access functions","lib/program.cpp extract_accesses_for_pluto_stmt")],observe_at="the dependence relations and the dependences and accesses stored in the program")
prop("C14","Graph analyses of the dependences are right",
 "For every graph and every program: an edge of the dependence graph counts the unsatisfied dependences between its two statements; strongly connected components are exactly the mutually reachable vertices and are numbered in an order that no edge contradicts; connected components, transposed and undirected graphs and transitive closures are the mathematical ones. Cutting between components separates them, marks exactly the dependences between them as satisfied, and leaves the graph up to date.",
 ["programs","inputs"],"all directed graphs of up to 9 vertices and all programs of up to 7 statements with any dependences",
 "Fusion and distribution follow from component numbers; kernels of one or two statements exercise one shape of graph.",
 ["lib/ddg.c","lib/pluto.c"],
 [("graphs","lib/ddg.c graph_transpose, compute_transitive_closure, dfs"),("components","lib/pluto.c ddg_compute_scc, ddg_compute_cc"),("cuts","lib/pluto.c cut_between_sccs, cut_all_sccs")],observe_at="graphs, component numbers and satisfaction marks after each operation")
prop("C18","Dependence directions and satisfaction are judged exactly",
 "For every program, transformation and dependence: the direction of the dependence at a level (positive, negative, zero, or unknown) is the one that its source and target times have over all instances and parameter values; it counts as satisfied at the first level at which all its instances go strictly forward or, in the precise analysis, when every instance has gone forward at some level, and the level that does so is the one reported. Asking again, in any order, gives the same answers.",
 ["programs","inputs"],"all programs of up to 3 statements with any affine transformation of up to 5 levels, and any dependence polyhedra",
 "Which loops are parallel, tilable or to be cut all rests on these answers; kernels have uniform dependences, which hide a wrong treatment of mixed or unbounded distances.",
 ["lib/pluto.c"],
 [("directions","lib/pluto.c get_dep_direction, pluto_compute_dep_directions"),("satisfaction","lib/pluto.c dep_satisfaction_test, pluto_compute_dep_satisfaction, pluto_compute_dep_satisfaction_precise"),("levels","lib/pluto.c pluto_detect_hyperplane_types_stmtwise")],observe_at="direction and satisfaction vectors of the dependences")
prop("C19","Loops, parallel loops and permutable bands of a program are found exactly",
 "For every transformed program, the loops found are its loop nest, each with the statements it encloses; a loop is called parallel exactly when no dependence not satisfied outside of it crosses its iterations, innermost exactly when it encloses no other loop; the outermost parallel loops listed are the parallel ones not inside another. Bands found permutable are, are not inside one another, and are as wide as they can be.",
 ["programs","inputs"],"all programs of up to 3 statements with any legal affine transformation of up to 5 levels and any forward dependences",
 "Tiling and parallelisation act on these lists; a wrong list for one nesting shape goes unnoticed on perfectly nested kernels.",
 ["lib/polyloop.c"],
 [("loops","lib/polyloop.c pluto_get_all_loops, pluto_get_loops_under"),("parallel","lib/polyloop.c pluto_get_parallel_loops, pluto_get_dom_parallel_loops, pluto_loop_is_parallel"),("bands","lib/polyloop.c pluto_get_outermost_permutable_bands, pluto_get_innermost_permutable_bands")],observe_at="the lists of loops and bands")
prop("C20","Transformed domains, inverses and accesses denote the same iterations and elements",
 "For every statement and every one-to-one transformation: the domain expressed in the new loops holds the images of all original iterations (and nothing else if the transformation is unimodular), mapping back a time with the inverse gives the iteration it came from, and each access expressed in the new loops touches the same element as the original one did for that iteration. The transformation as a relation is the transformation's matrix.",
 ["programs","inputs"],"all statements of up to 3 loops and 2 parameters with any affine transformation of full rank, unimodular or not",
 "Loops generated from a skewed or strided transformation scan the right points only if all three agree; fixed kernels use shifts and interchanges only.",
 ["lib/program.cpp","lib/pluto.c"],
 [("domain","lib/pluto.c pluto_get_new_domain"),("inverse","lib/pluto.c pluto_stmt_get_remapping"),("accesses","lib/pluto.c pluto_get_new_access_func"),("relation","lib/plutolib.c, lib/program.cpp: matrices to isl relations")],observe_at="the new domain, inverse and access matrices")

prop("C07","The fusion asked for is the fusion that comes out",
 "Without fusion, two statements not joined by a cycle of dependences share no loop and come in an order their dependences allow. A partition given in a file is kept: statements of different groups share no loop, come in the order of the groups, and groups given as not to be tiled are not; rows of a transformation given in a file are the first rows of the result. Under smart and maximal fusion, statements of equal depth whose loops can be fused as they stand end up in the same loops; under maximal fusion also the outer loops of statements of unequal depth. Under smart fusion, statements joined by a dependence, but by no cycle, whose components have unequal depth share no loop. All this stays legal.",
 ["programs","configurations"],"all static control programs, fusion options and partition or partial transformation files",
 "Which statements share a loop does not change the values computed, so no test of results sees it, and files of this kind are in no test.",
 ["lib/pluto.c","lib/plutolib.c","lib/tile.c"],
 [("no fusion","lib/pluto.c pluto_auto_transform, cut_all_sccs, cut_scc_dim_based, cut_smart"),("files","lib/pluto.c precut and .fst reading in pluto_auto_transform"),("tiling left out","lib/tile.c pluto_tile")],observe_at="the schedule returned")
prop("C15","A result depends on the program and the options, not on the history",
 "A call gives the same schedule for the same program and options whatever was called before, on a new or on a used context, in the same or another isl context, and while other threads make calls of their own with their own contexts. A context used for one program schedules the next one as a new context with the same options would.",
 ["histories","programs","configurations","schedules"],"all sequences of up to 7 calls over up to 3 programs and option sets, and up to 3 threads at once",
 "The tests call the library once per process and context; a value left over from a previous call needs a second program that differs.",
 ["lib/plutolib.c","lib/pluto.c","lib/tile.c","lib/framework.c"],
 [("calls","lib/plutolib.c pluto_transform, pluto_schedule, pluto_context_alloc"),("state kept","include/pluto/pluto.h PlutoContext, PlutoOptions; globals in lib/")],observe_at="the schedules returned by each call of a history")
prop("C16","The report describes the result, and verbosity does not change it",
 "The transformation printed for each statement is, at every instance and parameter value, the one in the returned schedule, and the numbers of statements, loops and parameters printed are those of the program. Running silently or with any amount of debugging output gives the same schedule, and silently nothing of the report is printed.",
 ["programs","configurations"],"all static control programs and combinations of options",
 "The tests look for one line of the output; the transformations printed are never compared with what is returned.",
 ["lib/plutolib.c","lib/program.cpp","lib/pluto.c"],
 [("report","lib/plutolib.c pluto_schedule_prog"),("transformations","lib/pluto.c pluto_transformations_pretty_print, pluto_print_hyperplane_properties"),("silence","lib/ and include/: messages under silent and debug")],observe_at="standard output and the schedule returned")
prop("C09","Index set splitting keeps every iteration and dependence exactly once",
 "When statements are split into pieces, at given cuts or at cuts found for long dependences, the pieces of a statement are disjoint and together are exactly its iterations, each with the text, accesses and transformation of the original; every dependence is kept, in pieces that run between the pieces of statements its ends lie in. A cut that is found lies between iterations, no further than allowed from the middle of every dependence it is for and as close as possible; statements with no long dependence, or no such cut, are left alone.",
 ["programs","inputs"],"all statements of up to 3 loops and 2 parameters with short, unbounded, mirrored and periodic dependences, and all affine cuts",
 "An iteration lost or run twice at a cut shows for one extent and one cut only, and no test splits anything.",
 ["lib/iss.c","lib/constraints.c"],
 [("finding cuts","lib/iss.c pluto_find_iss, pluto_iss_dep"),("splitting","lib/iss.c pluto_iss, pluto_update_deps_after_iss"),("half spaces","lib/constraints.c pluto_hyperplane_get_negative_half_space, pluto_hyperplane_get_non_negative_half_space")],observe_at="the statements and dependences of the program after splitting")
prop("C21","Edits of a program change what they name and nothing else",
 "Adding, removing, sinking, interchanging and strip-mining loops, adding levels and parameters, separating, copying and removing statements and copying dependences leave, after any sequence of them, exactly the program they describe: domains, transformations, accesses, names, numbering and dependences of all statements agree with each other and refer to the same iterations as before. Strip-mining by a factor runs the same iterations, each in the strip its level falls into.",
 ["histories","programs"],"all sequences of up to 8 edits of programs of up to 3 statements, 3 loops, 2 parameters and 3 dependences",
 "Tiling, fusion and copying are sequences of such edits; columns that get out of step show only after a second edit at another position.",
 ["lib/program.cpp","lib/transforms.c","lib/constraints.c"],
 [("statements","lib/program.cpp pluto_stmt_add_dim, pluto_stmt_remove_dim, pluto_stmt_dup, pluto_add_given_stmt, pluto_remove_stmt"),("program","lib/program.cpp pluto_prog_add_param, pluto_separate_stmts"),("loops","lib/transforms.c pluto_stripmine, pluto_interchange, pluto_make_innermost_loop, pluto_sink_statement")],observe_at="the program's statements, levels and dependences after each edit")
prop("C22","Tile sizes chosen automatically are legal, fit the cache model and scale with it",
 "With tile sizes chosen from the cache size and element size, for every program: the schedule is legal and complete; it is the schedule that results when the same sizes are given by hand; every size is at least the smallest allowed and of the required multiple; doubling both cache and element size changes nothing, and a larger cache never makes tiles smaller. A cache too small, loops without reuse or with nothing parallel still give a result.",
 ["programs","configurations"],"all static control programs, caches from bytes to 256 MB and element sizes from 1 to 16 bytes",
 "The tests never turn the selection on; it decides by the reuse of the accesses and the roots of a polynomial, and fails for shapes of bands and accesses that kernels do not have.",
 ["lib/tile_size_selection_model.cpp","lib/tile.c"],
 [("model","lib/tile_size_selection_model.cpp find_tile_sizes, compute_effective_footprint_in_tile"),("use","lib/tile.c pluto_tile_band, pluto_tile")],observe_at="the schedule returned, with sizes chosen and with sizes given")
prop("C23","Reuse along loops is counted exactly, and loops proposed for vectorisation, parallel bands or unroll-and-jam are legal for it",
 "For every transformed program, tiled or not: the accesses reported as invariant in a loop, as having spatial reuse along it, and as distinct are exactly those whose subscripts, written in terms of the loops, are so; a loop is called vectorizable exactly when it is parallel and every access is one of these, and the loop preferred as innermost is not worse in every way than another; the innermost and outermost loops listed are those of the nest; a parallel band has no loop that carries a dependence and is as wide as possible; a loop proposed for unroll-and-jam is a profitable, non-innermost loop that is not over tiles, jamming it by the factor keeps every dependence, and every such permutable loop is proposed.",
 ["programs","transformations"],"all programs in Pluto's representation with legal transformations and affine accesses",
 "The analysis combines accesses, inverse transformations and dependence directions at every level; kernels in the tests have unit subscripts, and nothing executes the proposed loops.",
 ["lib/post_transform.c","lib/polyloop.c","lib/program.cpp"],
 [("reuse","lib/post_transform.c has_spatial_reuse, get_num_spatial_accesses; lib/program.cpp get_num_invariant_accesses, get_num_unique_accesses_in_stmts"),("vectorisation","lib/post_transform.c pluto_loop_is_vectorizable, get_best_vectorizable_loop"),("proposals","lib/polyloop.c pluto_get_unroll_jam_loops, pluto_get_parallel_band")],observe_at="the answers of the analysis functions and the loops they propose")
prop("C24","The loops chosen have dependence distances as short as possible",
 "With the default (lexicographic) solver, the first loop of the schedule, and every further loop of a single statement whose earlier loops are original ones, makes the longest distance of the dependences still to be satisfied no longer than any other legal and non-trivial choice of non-negative coefficients does whose distances are bounded: growth with the parameters counts first, the constant next. In particular a loop that carries no dependence at all, and can run without communication, is found outermost when one exists.",
 ["programs","configurations"],"all static control programs, without a fusion structure asked for, solved by isl or PIP",
 "Schedules that are legal but worse pass every test of legality and of results; only a comparison with all other choices shows that the cost function is minimised.",
 ["lib/pluto.c","lib/framework.cpp"],
 [("search","lib/pluto.c find_permutable_hyperplanes, pluto_prog_constraints_lexmin"),("cost","lib/framework.cpp compute_permutability_constraints_dep, get_coeff_bounding_constraints"),("domains","lib/pluto.c normalize_domains")],observe_at="the first loops of the schedule returned, against the dependences")
prop("C25","Diamond tiling lets all tiles along a face start together",
 "With diamond tiling, the schedule before tiling is that without it except that at most one loop of a statement is replaced by another. No dependence within a nest goes backward along the new loop, it is linearly independent of the loops that stay, and the direction of one iterator, along which every dependence of the statement on itself goes forward by at least one (the face from which all tiles start), lies strictly between the new loop and another one, or all others when full dimensional concurrent start is asked for. A stencil of a single statement that reaches one step back in time and one step straight to either side in every dimension is given such a loop. The tiles are those of the new loops, and inside a tile the order is the one without diamond tiling.",
 ["programs","configurations"],"all static control programs, in particular stencils of up to 3 loops and several statements",
 "Without concurrent start, or with the wrong order inside tiles of one shape, the results are still those of the source program, so no test of results sees it.",
 ["lib/pluto.c","lib/framework.cpp","lib/tile.c"],
 [("concurrent start","lib/pluto.c pluto_diamond_tile, find_cone_complement_hyperplane, find_hyperplane_to_be_evicted"),("faces","lib/framework.cpp get_face_with_concurrent_start"),("order inside tiles","lib/tile.c pluto_diamond_tile_reschedule")],observe_at="the schedules returned with and without diamond tiling and tiling")
prop("C26","A call gives back all the memory it took",
 "Once a call of the library is over and its result and contexts are freed, no memory of it remains, whatever the program, the options and the files given, and whether or not a schedule was found: any number of calls in one process uses no more memory than a few. The same holds for operations on systems of constraints and matrices, whose operands and results are each freed once.",
 ["programs","configurations","histories"],"all static control programs, combinations of options, fusion and precut files, and sequences of up to 6 operations on systems of up to 3 variables",
 "A compiler calls the library once per loop nest in a long-lived process; a leak on one path shows in no result and in no test.",
 ["lib/plutolib.c","lib/program.cpp","lib/pluto.c","lib/post_transform.c","lib/constraints.c","lib/constraints_isl.c","lib/math_support.c"],
 [("calls","lib/plutolib.c pluto_transform, pluto_schedule, pluto_schedule_str, pluto_get_remapping_str"),("objects","lib/program.cpp pluto_prog_free, pluto_stmt_free, pluto_dep_free"),("scheduling","lib/pluto.c pluto_auto_transform, precut"),("constraints","lib/constraints.c pluto_constraints_free; lib/constraints_isl.c")],observe_at="the bytes in use after each of several identical calls")
