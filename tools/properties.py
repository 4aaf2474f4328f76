OWN = ('path-sensitive ownership dataflow over LLVM IR')
OWN_NOTE = ('All paths of every function of the library and the cloog program, bottom-up with inferred summaries, states '
            'joined at merge points; trusts clang, the isl header annotations and the C/GMP models. Loops are followed '
            'for a bounded number of abstract iterations; nodes of the loop tree are exempt from the leak rule outside '
            'destructors; functions over the state budget are opaque (listed in the evidence).')
ALLSRC = ['source/*.c', 'source/isl/*.c']
MEMTESTS = ('The tests run a few hundred inputs, and only some under valgrind; error paths, early exits and API functions the '
            'command line tool never calls are not reached.')

prop('P01', 'Nothing acquired is leaked on any path',
     'Whatever memory or polyhedral object a library function acquires is, on every path through it, released, returned to '
     'the caller or stored in a structure that owns it, and destroying a structure releases everything the structure owns, '
     'each element of its arrays included.',
     ['inputs', 'programs'], 'every path of every function, hence every input and every calling program',
     MEMTESTS, ALLSRC,
     [('destructors', 'source/*.c *_free functions'), ('isl take/keep/give discipline', 'source/isl/domain.c, source/isl/constraints.c'),
      ('temporaries', 'source/clast.c, source/program.c, source/loop.c')], ['valgrind leak report', 'leak counters'])
claim(OWN + ': units of ownership must balance at every return; destructors must release every owned field and element', OWN_NOTE)
decide('ownership', 'p01')

prop('P02', 'No object is used or released after its release',
     'No path through the library dereferences, uses, releases again or keeps in a live structure an object that was already '
     'released or handed over, and nothing is released that the code only borrowed or that is not on the heap.',
     ['inputs', 'programs'], 'every path of every function', MEMTESTS, ALLSRC,
     [('isl take/keep/give discipline', 'source/isl/*.c'), ('destructors', 'source/*.c')], ['valgrind invalid read/free'])
claim(OWN + ': typestate live/handed over/released of every heap and isl object', OWN_NOTE)
decide('ownership', 'p02')

prop('P03', 'Every arbitrary-precision integer is initialised before use and cleared once',
     'Every arbitrary-precision integer held in a local variable, a structure or an array is initialised before its first use, '
     'not used after it was cleared, and cleared exactly once on every path before its storage goes away.',
     ['inputs', 'programs'], 'every path of every function', MEMTESTS, ALLSRC,
     [('cloog_int_init/cloog_int_clear pairs', 'source/*.c'), ('structure constructors and destructors', 'source/stride.c, source/clast.c, source/matrix.c, source/int.c')],
     ['valgrind', 'GMP abort'])
claim('path-sensitive typestate of GMP integers over LLVM IR', OWN_NOTE)
decide('ownership', 'p03')

prop('P04', 'Shared objects live exactly as long as their last reference',
     'Blocks, name tables and strides are shared by reference counting: a new one has one reference, copying adds one and '
     'returns the same object, keeping one in a list adds one, and freeing drops one and destroys the object exactly when '
     'that was the last.',
     ['inputs', 'histories'], 'every path through the constructors, copies and destructors of shared objects, hence every order of copies and frees',
     'Tests exercise only the copy/free orders of the code generator on the sample inputs.',
     ['source/block.c', 'source/names.c', 'source/stride.c'],
     [('references field', 'include/cloog/block.h, include/cloog/names.h, include/cloog/stride.h')], ['valgrind'])
claim('path-sensitive typestate of reference counts over LLVM IR, with interval facts on the count', OWN_NOTE)
decide('ownership', 'p04')

prop('P05', 'Public functions take, keep or give their objects as documented',
     'Each public function treats the ownership of every object argument, result and output argument in one documented way on '
     'all its paths: arguments it takes over are consumed whatever happens, arguments it keeps remain the caller\'s and are not '
     'released or retained, and results it gives belong to the caller.',
     ['programs', 'inputs'], 'every calling program and every path of each of the about 210 public functions with object arguments or results',
     'Tests run the command line tool, which uses a fixed subset of the interface in a fixed way; a wrong ownership transfer on an early exit does not show.',
     ['include/cloog/*.h', 'source/*.c', 'source/isl/*.c'],
     [('documented contracts', 'comments at the functions; spec/contracts.json in the verification tree')], ['valgrind'])
claim('bottom-up inference of take/keep/give effects over LLVM IR compared with a reviewed contract table', OWN_NOTE)
decide('ownership', 'p05')

# ---------------------------------------------------------------- outcome tables
TAB = 'abstract interpretation to guarded outcomes (Herbrand value numbering over LLVM IR), compared with required outcome tables'
TAB_NOTE = ('Every path of each function of this part is followed with symbolic values in normal form (no solver, nothing executed); '
            'its guarded outcome - result, cells changed, text written, calls left opaque - must agree with the required outcomes in '
            'spec/deno. Loops are unfolded to a stated bound (1 or 2 undecided iterations), allocation is assumed to succeed, isl, GMP '
            'and libc are modelled; a function whose signature changed or that is out of budget is reported as undecided, not as a violation.')


def tab(**kw):
    claim(TAB, TAB_NOTE)
    table(**kw)


EVERY = 'every argument of every function of this part (loops up to the unfolding bound)'
FEW = 'The tests compare the text generated for a few hundred inputs; a wrong case that these inputs do not reach, or that only other callers of the library reach, does not show.'
API = 'The command line tool behind the tests uses a small part of this interface with a small range of arguments.'

prop('P06', 'Domain operations compute exactly the set they name',
     'For all domains, the operations of the domain interface denote exactly what they promise: union, intersection, difference, '
     'projection on the outer dimensions, extension by unconstrained dimensions, gist (simplify), convex and simple hull, first '
     'convex piece and rest, cube and box from bounds, universe, empty set, the domain of a constraint matrix and of a context, and '
     'the image under a scattering. The result has the promised dimensions, and an operation that keeps its arguments leaves them unchanged.',
     ['inputs', 'programs'], EVERY, FEW, ['source/isl/domain.c'], [('domain operations', 'source/isl/domain.c')], ['isl sets denoted by the results'])
tab(isl_domain='''cloog_domain_from_isl_set cloog_domain_copy cloog_domain_convex cloog_domain_simple_convex cloog_domain_simplify
 cloog_domain_union cloog_domain_intersection cloog_domain_difference cloog_domain_empty cloog_domain_from_context
 isl_constraint_read_from_matrix isl_basic_set_read_from_matrix isl_basic_map_read_from_matrix cloog_domain_from_cloog_matrix
 cloog_scattering_from_cloog_matrix cloog_domain_universe cloog_domain_project cloog_domain_extend cloog_domain_cut_first
 cloog_domain_simplify_union cloog_domain_cube cloog_domain_from_bounds cloog_domain_scatter cloog_domain_fixed_offset
 cloog_scattering_from_isl_map isl_map_from_cloog_scattering isl_set_from_cloog_domain cloog_domain_constraints
 cloog_domain_bound_splitter constraint_bound_split basic_set_bound_split''',
    isl_constraints='cloog_int_to_isl_val isl_val_to_cloog_int cloog_constraint_set_from_isl_basic_set')

prop('P07', 'Questions about domains are answered correctly',
     'For all domains, the predicates and measures of the domain interface say what holds: emptiness, being a single convex '
     'piece, number of iterators and of parameters, boundedness at a level, having no integer point for an equality reason, being '
     'constant at a dimension (and its value), plain equality and disjointness, and whether values at a level of one domain can '
     'follow those of another; a question never changes or consumes the domain asked about.',
     ['inputs', 'programs'], EVERY, FEW, ['source/isl/domain.c'], [('domain predicates', 'source/isl/domain.c')], ['return values'])
tab(isl_domain='''cloog_domain_isempty cloog_domain_isconvex cloog_domain_dimension cloog_domain_parameter_dimension
 cloog_domain_is_bounded cloog_domain_never_integral cloog_domain_lazy_isconstant cloog_domain_lazy_equal cloog_domain_lazy_disjoint
 cloog_domain_follows cloog_domain_is_otl isl_set_from_cloog_domain cloog_domain_can_unroll is_valid_unrolling_lower_bound
 constraint_can_unroll basic_set_can_unroll cloog_domain_can_stride constraint_can_stride basic_set_can_stride''')

prop('P08', 'Statements are scheduled by exactly the given scattering',
     'For every program and scattering, each statement domain is replaced by its image under its own scattering function, with the '
     'scattering dimensions in front and the original iterators behind; scalar scattering dimensions are recognised only when every '
     'statement has a constant there, their values are kept with the blocks and exactly those dimensions are dropped; statements are '
     'put into one block only when their scatterings place them at the same or directly following points and they are injective.',
     ['inputs', 'programs'], EVERY, FEW, ['source/isl/domain.c', 'source/program.c', 'source/loop.c'],
     [('applying the scattering', 'source/program.c: cloog_program_scatter, source/loop.c: cloog_loop_scatter'),
      ('scalar dimensions', 'source/program.c: cloog_program_extract_scalars'), ('block merging', 'source/program.c: cloog_program_block')],
     ['loop tree before generation', 'generated code'])
tab(isl_domain='''cloog_scattering_fully_specified cloog_domain_scatter cloog_scattering_lazy_isscalar cloog_scattering_erase_dimension
 cloog_scattering_dimension cloog_scattering_lazy_block cloog_scattering_list_lazy_same injective_scattering
 cloog_scattering_from_isl_map isl_map_from_cloog_scattering cloog_domain_lazy_equal cloog_domain_lazy_disjoint''',
    program='cloog_program_scatter cloog_program_extract_scalars cloog_program_block', loop='cloog_loop_scatter cloog_loop_block',
    names='cloog_names_scalarize', block='cloog_block_merge', statement='cloog_statement_add', isl_constraints='isl_val_to_cloog_int')

prop('P09', 'Loop strides and their offsets are derived correctly',
     'For every loop, the stride and offset attached to it are those its domain implies: strides come from equalities with a '
     'unit-free coefficient on the level, combine over the pieces of a union, and the lower bound is moved up to the first value '
     'congruent to the offset; a stride is used only when the lower bound allows it, and the constraint it stands for is the one '
     'added to the domain.',
     ['inputs'], EVERY, FEW, ['source/isl/domain.c', 'source/isl/constraints.c', 'source/loop.c', 'source/stride.c', 'source/clast.c'],
     [('stride detection', 'source/isl/domain.c: cloog_domain_stride, cloog_domain_list_stride'), ('use', 'source/loop.c: cloog_loop_stride')],
     ['stride and lower bound of generated loops'])
tab(isl_domain='''cloog_domain_stride constraint_can_stride basic_set_can_stride cloog_domain_can_stride constraint_stride_lower
 constraint_stride_lower_c basic_set_stride_lower cloog_domain_stride_lower_bound cloog_domain_add_stride_constraint Euclid
 construct_stride find_stride cloog_domain_list_stride''',
    isl_constraints='cloog_constraint_stride_lower_bound extract_stride_offset add_constant_term cloog_int_to_isl_val isl_val_to_cloog_int',
    loop='cloog_loop_stride cloog_loop_variable_offset_stride cloog_loop_propagate_lower_bound', stride='*',
    clast='eliminate_using_stride_constraint update_lower_bound update_lower_bound_c', int='cloog_seq_combine cloog_seq_gcd')

prop('P10', 'The constraint interface shows the constraints as they are',
     'For every constraint and constraint set, the accessors give the true coefficients, constant, kind (equality, lower or upper '
     'bound at a level, involving a level), dimensions and iteration order, and the setters, copies and removal change exactly what '
     'they name; the level numbering (iterators first, then existentially quantified dimensions and parameters) is translated to '
     'the right isl dimension everywhere.',
     ['inputs', 'programs'], EVERY, API, ['source/isl/constraints.c'], [('constraint accessors', 'source/isl/constraints.c')], ['accessor results'])
tab(isl_constraints='''cloog_constraint_set_from_isl_basic_set cloog_constraints_set_to_isl cloog_constraint_from_isl_constraint cloog_constraint_to_isl
 cloog_constraint_set_copy cloog_constraint_set_free cloog_constraint_set_contains_level cloog_constraint_set_defining_equality
 cloog_constraint_set_defining_inequalities cloog_constraint_set_total_dimension cloog_constraint_set_n_iterators
 cloog_constraint_total_dimension cloog_constraint_is_equality cloog_constraint_is_lower_bound cloog_constraint_is_upper_bound
 cloog_constraint_involves cloog_constraint_is_valid cloog_constraint_invalid cloog_constraint_copy cloog_constraint_release
 cloog_constraint_coefficient_get cloog_constraint_coefficient_get_val cloog_constraint_coefficient_set cloog_constraint_constant_get
 cloog_constraint_constant_get_val cloog_constraint_copy_coefficients cloog_constraint_set_foreach_constraint cloog_isl_foreach_cb
 cloog_constraint_set_drop_constraint cloog_basic_set_ignore_constraint constraint_cloog_dim_to_isl_dim basic_set_cloog_dim_to_isl_dim
 set_cloog_dim_to_isl_dim check_other_constraint isl_val_to_cloog_int cloog_int_to_isl_val div_expr
 cloog_constraint_variable_expr''')

prop('P11', 'Equalities found at outer levels are recorded and substituted correctly',
     'For every loop tree, the table of equalities holds at each level the equality that defines the iterator of that level (or '
     'none), with its kind, entries are added and removed in stack order, and simplifying or reducing a constraint set with the table '
     'replaces iterators by what the recorded equalities say and nothing else.',
     ['inputs', 'programs'], EVERY, FEW, ['source/isl/constraints.c', 'source/clast.c'],
     [('equality table', 'source/isl/constraints.c: cloog_equal_*'), ('spreading', 'source/clast.c: clast_equal, clast_equal_allow, clast_equal_add')],
     ['substitutions printed with each statement'])
tab(isl_constraints='''cloog_equal_alloc cloog_equal_free cloog_equal_add cloog_equal_del cloog_equal_count cloog_equal_type cloog_equal_constraint
 cloog_equal_total_dimension cloog_constraint_equal_type equality_to_basic_set cloog_constraint_set_simplify cloog_constraint_set_reduce
 cloog_constraint_set_for_reduction cloog_constraint_set_normalize cloog_constraint_needs_reduction set_cloog_dim_to_isl_dim
 check_other_constraint basic_set_cloog_dim_to_isl_dim constraint_cloog_dim_to_isl_dim''',
    clast='clast_equal clast_equal_allow clast_equal_add')

prop('P12', 'Loop bounds in the generated code are those of the domain',
     'For every loop, the lower bound is the maximum over all lower-bound constraints and the upper bound the minimum over all '
     'upper-bound constraints of the loop iterator, each divided with ceiling for lower and floor for upper bounds by the absolute '
     'coefficient of the iterator and with every other iterator, parameter and constant carried over with the right sign; duplicate '
     'and dominated constant bounds do not change the value; a loop with equal bounds becomes an assignment, and a loop without '
     'bounds on one side is never given an invented one.',
     ['inputs'], EVERY, FEW, ['source/clast.c', 'source/isl/constraints.c'],
     [('bounds', 'source/clast.c: clast_bound_from_constraint, clast_minmax, insert_for')], ['bounds of generated loops'])
tab(clast='''clast_bound_from_constraint clast_minmax valid_bound count_bounds collect_bounds add_if_new concat_if_new update_lower_bound
 update_lower_bound_c clast_for_bound insert_for insert_otl_for insert_guarded_otl_for insert_equation_as_loop insert_equation
 clast_expr_is_bigger_constant clast_expr_equal clast_expr_copy clast_reduction_sort''',
    isl_constraints='''cloog_constraint_variable_expr div_expr cloog_constraint_coefficient_get cloog_constraint_constant_get
 cloog_constraint_is_lower_bound cloog_constraint_is_upper_bound cloog_constraint_involves''')

prop('P13', 'Guards in the generated code are exactly the remaining constraints',
     'For every loop, the guard placed before it is the conjunction of exactly the domain constraints that do not constrain its '
     'iterator (all of them where there is no iterator), each as an equality, minimum or maximum condition with the right sign and sides; '
     'divisibility conditions become modulo guards with the right modulus and bound, a constant one is decided, and code whose '
     'modulo guard cannot hold is left out.',
     ['inputs'], EVERY, FEW, ['source/clast.c'], [('guards', 'source/clast.c: insert_guard'), ('modulo guards', 'source/clast.c: insert_modulo_guard')],
     ['conditions in the generated code'])
tab(clast='''insert_guard insert_guard_constraint guard_count_bounds insert_extra_modulo_guards insert_modulo_guard insert_modulo_guard_constraint
 constant_modulo_guard_is_satisfied insert_computed_modulo_guard eliminate_using_stride_constraint clast_guard_sort qsort_eq_cmp
 insert_equation clast_bound_from_constraint clast_minmax new_clast_guard new_clast_reduction new_clast_binary''',
    isl_constraints='cloog_constraint_variable_expr div_expr cloog_constraint_set_drop_constraint cloog_basic_set_ignore_constraint')

prop('P14', 'Every statement reaches the syntax tree in order, once, with its substitution',
     'For every loop tree, the syntax tree contains, in the order of the loop lists, for each loop its guard, its loop or '
     'assignment and then its inner loops and blocks inside, and for each block all its statements in order, each with one expression '
     'for every original iterator; nothing is dropped except what an unsatisfiable modulo guard excludes, and the equality and stride '
     'information of a level is undone when the level is left.',
     ['inputs'], EVERY, FEW, ['source/clast.c'], [('tree construction', 'source/clast.c: insert_loop, insert_block, cloog_clast_create')], ['clast'])
tab(clast='''insert_loop insert_block insert_for insert_otl_for insert_guarded_otl_for insert_equation insert_equation_as_loop insert_guard
 clast_equal cloog_clast_create cloog_clast_create_from_input new_clast_user_stmt new_clast_block new_clast_root
 new_clast_assignment new_clast_for new_clast_guard''', isl_constraints='cloog_equal_alloc cloog_equal_free')

prop('P15', 'Syntax tree nodes hold what they were built from; copies are deep and equal',
     'For all arguments, each node constructor returns a node of the right kind holding exactly its arguments (sharing nothing that '
     'must be owned), copying an expression gives an equal expression that shares no owned part, and freeing a tree of any mix of '
     'node kinds frees each node, its strings and its numbers.',
     ['programs', 'inputs'], EVERY, API, ['source/clast.c', 'include/cloog/clast.h'], [('nodes', 'source/clast.c: new_clast_*, free_clast_*')], ['clast'])
tab(clast='''new_clast_assignment new_clast_binary new_clast_block new_clast_for new_clast_guard new_clast_name new_clast_reduction new_clast_root
 new_clast_term new_clast_user_stmt clast_expr_copy free_clast_assignment free_clast_binary free_clast_block free_clast_expr free_clast_for
 free_clast_guard free_clast_name free_clast_reduction free_clast_root free_clast_stmt free_clast_term free_clast_user_stmt cloog_clast_free''')

prop('P16', 'Expression comparison is structural and a consistent order',
     'For all expressions, two expressions are reported equal exactly when they have the same kind, operator, numbers, names and '
     'operands; the comparison used for sorting agrees with that equality, orders by kind first and then part by part, and sorting '
     'permutes reductions and guards without losing or duplicating an element.',
     ['inputs', 'programs'], EVERY, FEW, ['source/clast.c'], [('comparison', 'source/clast.c: clast_*_cmp, clast_expr_equal')], ['order of min/max operands and guard conditions'])
tab(clast='''clast_expr_equal clast_expr_cmp clast_name_cmp clast_term_cmp clast_binary_cmp clast_reduction_cmp clast_expr_is_bigger_constant
 clast_guard_sort clast_reduction_sort qsort_expr_cmp qsort_eq_cmp list_compare''')

prop('P17', 'Expressions are printed with their exact meaning in the target language',
     'For every expression and target language, the printed text denotes the value of the expression: coefficients and signs of '
     'terms, sums, minima and maxima of all operands, floor and ceiling divisions, remainders and exact quotients by the right '
     'operator or macro for the language, with parentheses wherever precedence needs them.',
     ['inputs', 'programs'], EVERY, FEW, ['source/pprint.c'], [('expression printing', 'source/pprint.c')], ['text'])
tab(pprint='''clast_pprint_expr pprint_expr pprint_name pprint_term pprint_sum pprint_binary pprint_reduction pprint_minmax_c pprint_minmax_f
 pprint_equation pprint_parentheses_are_safer''')

prop('P18', 'Statements are printed as the syntax tree says, in C and in FORTRAN',
     'For every syntax tree and language, loops are printed with their iterator, lower bound, upper bound and stride, guards as the '
     'conjunction of their conditions, assignments, blocks and statement calls with all their arguments in order, bodies nested and '
     'indented inside and closed again; parallel and vector markings produce their directives; nothing of the tree is skipped.',
     ['inputs', 'programs'], EVERY, FEW, ['source/pprint.c'], [('statement printing', 'source/pprint.c: pprint_stmt_list, pprint_for, pprint_guard')], ['text'])
tab(pprint='clast_pprint pprint_stmt_list pprint_for pprint_guard pprint_assignment pprint_user_stmt pprint_osl_body pprint_equation')

prop('P19', 'Compilable and callable output is a complete program around the code',
     'For every program and option setting, the text around the generated code is right for the chosen form: the header comment, the '
     'macros the expressions use, declarations of every iterator and scattering variable that occurs, parameters with their values or '
     'read from the arguments, statement macros for each statement with the right number of arguments, and the closing text; none of it is '
     'printed in the plain form except the header.',
     ['inputs'], EVERY, FEW, ['source/program.c'], [('preamble and postamble', 'source/program.c: cloog_program_pprint, print_*')], ['text'])
tab(program='''cloog_program_pprint cloog_program_osl_pprint print_comment print_macros print_declarations print_iterator_declarations
 print_scattering_declarations print_callable_preamble print_callable_postamble''', isl_domain='cloog_domain_dimension')

prop('P20', 'Command line options set exactly what they say',
     'For every command line, each option sets its own field, and only that, to the value given (or to the documented value of a flag), later '
     'options override earlier ones, a missing or malformed value and an unknown option are rejected with a message, -h and -v print '
     'and stop, and the input and output files are the ones named.',
     ['inputs'], 'every argument vector (up to the unfolding bound on its length)', 'Tests pass a few option combinations per input.',
     ['source/options.c'], [('parsing', 'source/options.c: cloog_options_read')], ['CloogOptions', 'messages'])
tab(options='cloog_options_read cloog_options_set cloog_options_help cloog_options_version', version='*')

prop('P21', 'Fresh options hold the documented defaults and are shown faithfully',
     'Whatever the state, a new option structure has every field at its documented default (so a caller may set only what it wants to '
     'change), belongs to the given state, printing options shows each field under its own name, and freeing options releases the per-statement arrays.',
     ['programs'], EVERY, 'Tests only see defaults through the effect of the options they leave unset.', ['source/options.c', 'include/cloog/options.h'],
     [('defaults', 'source/options.c: cloog_options_malloc')], ['CloogOptions'])
tab(options='cloog_options_malloc cloog_options_free cloog_options_print')

prop('P22', 'Iterator, scattering and parameter names are right at every level',
     'For every name table, the name used at a level is that of the scattering dimension, scalar or iterator that the level stands for, '
     'with scalar dimensions skipped and never out of range; tables built, generated, shared or read have exactly the names and counts '
     'given; generated names are distinct and of the documented form.',
     ['inputs', 'programs'], EVERY, FEW, ['source/names.c'], [('name tables', 'source/names.c')], ['names in the generated code'])
tab(names='''cloog_names_alloc cloog_names_copy cloog_names_free cloog_names_generate cloog_names_generate_items cloog_names_malloc
 cloog_names_name_at_level cloog_names_scalarize cloog_names_read_strings''', program='cloog_program_extract_scalars')

prop('P23', 'Input files are read as written, and malformed ones are reported',
     'For every input text, the program read has the language, context, number of statements, domains in the order given, '
     'scattering functions, and names (given or generated) that the file states; comment and blank lines are skipped anywhere between items, '
     'counts are honoured, unions keep all their parts, and a truncated or malformed file ends with an error message instead of a wrong '
     'program or an endless loop.',
     ['inputs'], 'every input file (line loops up to the unfolding bound)', 'All test inputs are well formed and use few of the layouts the format allows.',
     ['source/input.c', 'source/union_domain.c', 'source/names.c', 'source/loop.c', 'source/program.c', 'source/matrix.c', 'source/isl/domain.c'],
     [('reading', 'source/input.c: cloog_input_read, source/union_domain.c, source/program.c: cloog_program_read')], ['data structures after reading'])
tab(input='cloog_input_read next_line', union_domain='cloog_union_domain_read cloog_scattering_list_read set_names_from_list next_line',
    names='cloog_names_read_strings', loop='cloog_loop_read cloog_loop_from_domain', program='cloog_program_read',
    matrix='cloog_matrix_read cloog_matrix_read_of_size next_line',
    isl_domain='cloog_domain_read_context cloog_domain_union_read cloog_domain_read_scattering')

prop('P24', 'A dumped input file describes the same problem',
     'For every input or program, the dump in .cloog format writes, in the order the reader expects, language, context, statements '
     'with all their domains, scattering functions and names, with the counts and flags that let it be read back as the same problem.',
     ['inputs', 'programs'], EVERY, 'The tests do not read dumps back for arbitrary inputs.', ['source/input.c', 'source/program.c', 'source/isl/domain.c'],
     [('dump', 'source/input.c: cloog_input_dump_cloog')], ['dump text'])
tab(input='cloog_input_dump_cloog print_names', program='cloog_program_dump_cloog',
    isl_domain='cloog_domain_print_constraints cloog_scattering_print_constraints cloog_domain_dimension cloog_domain_parameter_dimension cloog_scattering_dimension')

prop('P25', 'Structure printing shows the whole structure',
     'For every program, loop list, block, statement, name table, matrix and domain, the structure printers write every element in '
     'order at its indentation level and nothing else, and show a missing part as such instead of failing.',
     ['programs', 'inputs'], EVERY, 'The -structure output is not part of the tests.', ['source/*.c'], [('print_structure functions', 'source/*.c')], ['text'])
tab(block='cloog_block_print_structure cloog_block_print cloog_block_list_print', statement='cloog_statement_print_structure cloog_statement_print',
    loop='cloog_loop_print_structure cloog_loop_print', names='cloog_names_print_structure cloog_names_print',
    program='cloog_program_print_structure cloog_program_print', matrix='cloog_matrix_print_structure cloog_matrix_print',
    isl_domain='cloog_domain_print_structure', int='cloog_vec_dump', options='cloog_options_print')

prop('P26', 'Union domains keep each domain with its own scattering and name',
     'For every sequence of calls building a union domain, the domains stay in the order added, each with the name, user pointer and '
     'scattering given with it, names are copied, iterator, scattering and parameter names land in their own tables at the given index, and '
     'importing isl sets and union maps adds one named domain per statement with its schedule.',
     ['programs', 'histories'], EVERY, API, ['source/union_domain.c', 'source/isl/domain.c', 'source/input.c'],
     [('union domain', 'source/union_domain.c'), ('isl import', 'source/isl/domain.c: cloog_union_domain_from_isl_*')], ['CloogUnionDomain'])
tab(union_domain='cloog_union_domain_add_domain cloog_union_domain_alloc cloog_union_domain_free cloog_union_domain_set_name cloog_named_domain_list_free set_names_from_list',
    isl_domain='cloog_union_domain_from_isl_set cloog_union_domain_from_isl_union_map add_domain add_domain_from_map count_same_name',
    input='cloog_input_alloc cloog_input_free')

prop('P27', 'The program built from an input holds all of it',
     'For every union domain and context, the program has the language and context given, the names of the input (or generated ones), '
     'one loop and block per domain in order with its statement number, name and user data, and the scalar and scattering counts of '
     'the scattering functions; generation replaces the loop list by the generated tree for the requested levels and leaves the rest.',
     ['inputs', 'programs'], EVERY, API, ['source/program.c', 'source/block.c', 'source/statement.c', 'source/loop.c'],
     [('program construction', 'source/program.c: cloog_program_alloc, cloog_program_generate')], ['CloogProgram'])
tab(program='''cloog_program_alloc cloog_program_malloc cloog_program_free cloog_program_generate cloog_program_construct_block_list''',
    block='cloog_block_alloc cloog_block_list_alloc cloog_block_list_malloc cloog_block_malloc', statement='cloog_statement_alloc cloog_statement_malloc',
    loop='cloog_loop_from_domain cloog_loop_malloc', clast='cloog_clast_create_from_input', isl_domain='cloog_domain_copy cloog_domain_from_context')

prop('P28', 'Copies and shared parts are faithful',
     'For every loop tree, statement list, block, name table, stride and domain, copying yields the same content in the same order '
     '(loops and statements as new nodes; blocks, names and strides shared and counted), with user pointers kept, and building or '
     'extending lists adds exactly the given elements at the end.',
     ['inputs', 'programs'], EVERY, FEW, ['source/loop.c', 'source/statement.c', 'source/block.c', 'source/names.c', 'source/stride.c'],
     [('copies', '*_copy functions')], ['copied structures'])
tab(loop='cloog_loop_copy cloog_loop_alloc cloog_loop_add cloog_loop_add_list cloog_loop_concat cloog_loop_count cloog_loop_malloc',
    statement='cloog_statement_copy cloog_statement_add cloog_statement_alloc cloog_statement_malloc', block='cloog_block_copy cloog_block_merge cloog_block_alloc cloog_block_malloc',
    names='cloog_names_copy', stride='cloog_stride_copy cloog_stride_alloc cloog_stride_malloc cloog_stride_alloc_from_constraint',
    isl_domain='cloog_domain_copy', isl_constraints='cloog_constraint_copy cloog_constraint_set_copy')

prop('P29', 'Loop lists are projected, restricted, merged and separated without losing points',
     'For every loop list, each step of the generation replaces it by a list that covers the same points: restriction intersects each '
     'domain with the context and drops only empty ones, projection keeps the inner part, combination and merging join the inner lists '
     'under the united (or bounding) domain, splitting a union makes disjoint pieces each with its own copy of the inner part, separation '
     'distributes intersections and differences, and loops executed nowhere are removed.',
     ['inputs'], EVERY, FEW, ['source/loop.c'], [('steps of the algorithm', 'source/loop.c')], ['loop tree'])
tab(loop='''cloog_loop_add_disjoint cloog_loop_disjoint cloog_loop_restrict cloog_loop_restrict_all cloog_loop_restrict_inner cloog_loop_project
 cloog_loop_project_all cloog_loop_concat cloog_loop_combine cloog_loop_remove_empty_domain_loops cloog_loop_separate bounding_domain
 cloog_loop_merge cloog_loop_nest cloog_loop_stop cloog_loop_generate_backtrack cloog_loop_decompose_inner cloog_loop_specialize
 cloog_loop_add cloog_loop_add_list cloog_loop_is_constant cloog_loop_constant level_is_constant''')

prop('P30', 'Loops are put in execution order',
     'For every loop list, sorting keeps all loops and orders them so that a loop whose iterations must come first at the level comes '
     'first: by the topological order of the domains at that level, by the scalar dimension vector, and by strongly connected components '
     'in dependence order; comparisons of constant dimensions look at the right dimension with the right sign.',
     ['inputs'], EVERY, FEW, ['source/loop.c', 'source/isl/domain.c'], [('sorting', 'source/loop.c: cloog_loop_sort, cloog_loop_scalar_sort, cloog_loop_components_tarjan')], ['order of loops'])
tab(loop='''cloog_loop_sort cloog_loop_sort_alloc cloog_loop_sort_free qsort_index_cmp sort_component cloog_loop_components_tarjan extract_component
 cloog_loop_follows inner_loop_follows cloog_loop_scalar_sort cloog_loop_scalar_gt cloog_loop_scalar_eq cloog_loop_constant_cmp
 cloog_loop_next_scal_cmp cloog_loop_equal_prefix cloog_loop_generate_scalar cloog_loop_generate_components cloog_loop_count''',
    isl_domain='cloog_domain_sort cloog_domain_follows cloog_domain_lazy_isconstant')

prop('P31', 'Each level is generated as the options for it demand',
     'For every option setting and program, at each level the first and last levels to optimise (globally and per statement), the stop '
     'level, scalar dimensions, strides, one-time loops and unrolling take effect exactly at the levels they name, generation continues '
     'while any statement has a dimension left, and the recursion passes the right level, scalar index and context on.',
     ['inputs', 'configurations'], EVERY, 'Tests fix one option setting per input.', ['source/loop.c', 'source/program.c'],
     [('recursion', 'source/loop.c: cloog_loop_generate, loop_recurse'), ('options', 'source/loop.c: cloog_loop_get_fl')], ['loop tree', 'generated code'])
tab(loop='''cloog_loop_generate cloog_loop_generate_restricted cloog_loop_generate_restricted_or_stop cloog_loop_generate_general
 cloog_loop_generate_scalar cloog_loop_generate_components cloog_loop_generate_backtrack loop_recurse cloog_loop_recurse cloog_loop_more
 cloog_loop_get_fl cloog_statement_get_fl cloog_loop_stop cloog_loop_otl cloog_loop_unroll cloog_loop_is_constant cloog_loop_constant
 cloog_loop_nest cloog_loop_stride''', program='cloog_program_generate')

prop('P32', 'Simplification removes only what the context already ensures',
     'For every loop tree, simplifying replaces each domain by its gist in the context of the enclosing loops (keeping the unsimplified one), '
     'recursively with the domain extended to the right number of dimensions, and drops only loops that are empty in their context.',
     ['inputs'], EVERY, FEW, ['source/loop.c', 'source/isl/domain.c'], [('simplification', 'source/loop.c: cloog_loop_simplify')], ['loop tree'])
tab(loop='cloog_loop_simplify loop_simplify cloog_loop_remove_empty_domain_loops',
    isl_domain='cloog_domain_simplify cloog_domain_simplify_union cloog_domain_extend cloog_domain_intersection cloog_domain_isempty')

prop('P33', 'One-time loops and unrolled loops stand for the same iterations',
     'For every loop, it is marked as executed at most once only when its domain has a single value at the level; a loop is '
     'unrolled only when its number of iterations is a known constant and the level asks for it, and it is replaced by one copy per '
     'iteration with the iterator fixed to lower bound plus 0, 1, ... in that order, each restricted to the points that exist.',
     ['inputs', 'configurations'], EVERY, FEW, ['source/loop.c', 'source/isl/domain.c', 'source/clast.c'],
     [('one-time loops', 'source/loop.c: cloog_loop_otl'), ('unrolling', 'source/loop.c: loop_unroll, source/isl/domain.c: cloog_domain_can_unroll')], ['loop tree'])
tab(loop='cloog_loop_otl cloog_loop_unroll loop_unroll', clast='insert_otl_for insert_guarded_otl_for',
    isl_domain='''cloog_domain_is_otl cloog_domain_can_unroll is_valid_unrolling_lower_bound constraint_can_unroll basic_set_can_unroll
 cloog_domain_fixed_offset''')

prop('P34', 'The allocation counters of a state balance',
     'For every history of library calls, each creation of a loop, block or statement raises the allocated counter of its own kind in '
     'the state by one, each destruction raises the freed counter by one, and the maximum is the highest number alive so far, '
     'so the leak report printed with -leaks is right.',
     ['histories', 'programs'], EVERY, 'The leak report is not part of the tests.', ['source/block.c', 'source/loop.c', 'source/statement.c', 'include/cloog/state.h'],
     [('leak counters', '*_leak_up, *_leak_down')], ['CloogState counters'])
tab(counters='only', block='*', statement='*', loop='''cloog_loop_leak_up cloog_loop_leak_down cloog_loop_malloc cloog_loop_alloc cloog_loop_free
 cloog_loop_free_parts cloog_loop_from_domain cloog_loop_copy''', state='*', isl_backend='*')

prop('P35', 'Integer sequences and vectors are computed element by element',
     'For all lengths and values, the sequence operations copy, negate, combine linearly, find the first non-zero or smallest non-zero element, '
     'take the gcd of, and normalise exactly the elements of the given range, in place or not, and vectors are created with all elements zero and printed in full.',
     ['inputs', 'programs'], EVERY, FEW, ['source/int.c'], [('cloog_seq_*, cloog_vec_*', 'source/int.c')], ['element values'])
tab(int='*')

prop('P36', 'Matrices are allocated, read and printed with every element in its place',
     'For all sizes and texts, a matrix has the given rows and columns, initialised elements and contiguous row pointers, reading fills '
     'every element in row order from as many lines as there are rows, skipping comments, and reports a short row or missing line; printing '
     'writes every element in order; freeing clears every element.',
     ['inputs', 'programs'], EVERY, API, ['source/matrix.c'], [('matrix functions', 'source/matrix.c')], ['CloogMatrix', 'text'])
tab(matrix='*', isl_domain='isl_constraint_read_from_matrix isl_basic_set_read_from_matrix isl_basic_map_read_from_matrix cloog_domain_from_cloog_matrix cloog_scattering_from_cloog_matrix')

prop('P37', 'Messages reach the error stream unless quiet, and fatal errors stop',
     'In every situation, a fatal error prints its message to the error stream and ends the process with a failure status; '
     'informational and warning messages carry their prefix and text with all arguments, go to the error stream, and are suppressed exactly when the '
     'options given ask for quiet.',
     ['programs', 'inputs'], EVERY, 'Tests never produce errors.', ['source/options.c'], [('messages', 'source/options.c: cloog_die, cloog_msg')], ['stderr', 'exit status'])
tab(options='cloog_die cloog_msg cloog_vmsg cloog_options_set')

prop('P38', 'A state carries its own constants, counters and backend',
     'Whatever was done before, a new state has zero counters, the constants 0, 1 and -1, and its own (or the given) isl context; '
     'freeing it releases them and frees the context exactly if the state created it; the version reported is the one built.',
     ['programs', 'histories'], EVERY, API, ['source/state.c', 'source/isl/backend.c', 'source/version.c'], [('state', 'source/state.c, source/isl/backend.c')], ['CloogState'])
tab(counters='keep', state='*', isl_backend='*', version='*', stride='*', block='cloog_block_malloc', statement='cloog_statement_malloc', loop='cloog_loop_malloc')

prop('P39', 'Filtering visits every statement of the tree',
     'For every syntax tree and filter, the statements reported are exactly those the filter selects, from loops, guards, blocks, assignments '
     'and user statements at any nesting depth, in order, with the counts returned matching the arrays.',
     ['programs', 'inputs'], EVERY, 'Used only for parallel marking through OpenScop, which the tests do not build.', ['source/clast.c'],
     [('clast_filter', 'source/clast.c')], ['arrays returned'])
tab(clast='clast_filter concat_if_new add_if_new list_compare')

prop('P40', 'The command line tool runs the whole pipeline on the named files',
     'For every command line, the tool reads the input named, builds the program, dumps or prints it as asked, generates unless told to stop, prints the code to the '
     'output named, reports leaks and time only when asked, closes the files it opened and frees everything it made.',
     ['inputs', 'configurations'], EVERY, 'Tests use one form of the command line.', ['source/cloog.c'], [('main', 'source/cloog.c')], ['files', 'exit status'])
tab(cloog='main', program='cloog_program_read cloog_program_generate cloog_program_free', input='cloog_input_read cloog_input_free', util='*')

prop('P41', 'Destroying a structure destroys exactly its own parts',
     'For every structure, the free functions release each part the structure owns through the right destructor, every element of its '
     'lists included, leave what is shared to its other owners, and do nothing for an absent structure.',
     ['programs', 'histories'], EVERY, MEMTESTS, ['source/*.c'], [('destructors', '*_free functions')], ['calls of destructors'])
tab(loop='cloog_loop_free cloog_loop_free_parts cloog_loop_sort_free', block='cloog_block_free cloog_block_list_free', statement='cloog_statement_free',
    names='cloog_names_free', program='cloog_program_free', options='cloog_options_free', input='cloog_input_free', matrix='cloog_matrix_free',
    union_domain='cloog_union_domain_free cloog_named_domain_list_free', stride='cloog_stride_free', int='cloog_vec_free', state='cloog_core_state_free',
    isl_backend='cloog_state_free', isl_domain='cloog_domain_free cloog_domain_list_free cloog_scattering_free cloog_scattering_list_free',
    isl_constraints='cloog_equal_free cloog_constraint_set_free cloog_constraint_release',
    clast='''free_clast_assignment free_clast_binary free_clast_block free_clast_expr free_clast_for
 free_clast_guard free_clast_name free_clast_reduction free_clast_root free_clast_stmt free_clast_term free_clast_user_stmt cloog_clast_free''')

prop('P42', 'The generated code visits exactly the points of the domains',
     'For every input, running the generated code executes each statement once for every integer point of its domain and parameter value in the context, and for no other.',
     ['inputs'], 'every input', 'The tests run the code of some tens of inputs for one parameter value.', ['source/loop.c', 'source/clast.c', 'source/isl/domain.c'],
     [('loop generation', 'source/loop.c cloog_loop_generate'), ('AST', 'source/clast.c')], ['points visited'])
na('The set of points visited is a runtime quantity of the *generated* program; it follows from separation, projection, simplification and printing taken '
   'together, each a computation on polyhedra of unbounded dimension done by isl at run time.  No static argument over CLooG\'s source in reach relates the '
   'printed text to the union of the input sets.  P06-P14 and P29-P33 decide the individual steps instead.')

prop('P43', 'Statement instances execute in the order of the scattering',
     'For every input, the generated code executes statement instances in lexicographic order of their scattering dates.',
     ['inputs', 'schedules'], 'every input and scattering', 'The tests compare text or the results of some tens of schedules.', ['source/loop.c', 'source/isl/domain.c'],
     [('sorting', 'source/isl/domain.c cloog_domain_sort'), ('recursion', 'source/loop.c')], ['order of execution'])
na('The order depends on the values isl computes for comparisons of polyhedra (isl_basic_set_compare_at) and on the loop structure of the generated program; '
   'neither is determined by CLooG\'s source.  P30 decides how the answers are turned into an order.')

prop('P44', 'Generation terminates on every valid input',
     'For every valid input and option setting, code generation terminates.',
     ['inputs', 'configurations'], 'every input', 'Tests see termination of their own inputs only.', ['source/loop.c'], [('recursion', 'source/loop.c')], ['termination'])
na('The measure that decreases (number of disjoint polyhedra still to be separated, remaining dimensions) is computed by isl at run time; backtracking and '
   'otl restart generation a number of times that depends on it.  No bound can be read off the source.')

prop('P45', 'Options change the form of the code, not what it does',
     'For every input, the code generated with any setting of -f, -l, -sh, -esp, -strides, -otl, -block, -backtrack, -first-unroll is equivalent to the code generated with the defaults.',
     ['inputs', 'configurations'], 'every input and option setting', 'The tests fix a handful of settings.', ['source/loop.c', 'source/program.c', 'source/clast.c'],
     [('option dependent steps', 'source/loop.c')], ['points visited'])
na('Equivalence of two generated programs is a property of runtime results (see P42).  P20, P31 and P33 decide which step each option selects.')

prop('P46', 'A dumped input reads back as the same input',
     'For every input, reading the file written by the dump gives the same domains, scattering, names and options.',
     ['inputs'], 'every input', 'The dump is not tested.', ['source/input.c', 'source/union_domain.c', 'source/isl/domain.c'],
     [('dump', 'source/input.c cloog_input_dump_cloog'), ('reader', 'source/input.c cloog_input_read')], ['structures'])
na('The constraint part of both directions is done inside isl (isl_set_print, isl_set_read_from_file), whose text format is not determined by /repo.  P23 and '
   'P24 decide CLooG\'s own part of each direction separately.')

prop('P47', 'Generated loop bounds contain no redundant or missing comparison',
     'For every input, a guard appears in the generated code only if the enclosing loops and the context do not imply it.',
     ['inputs'], 'every input', 'Text comparison on fixed inputs only.', ['source/loop.c', 'source/isl/domain.c'], [('simplify', 'source/loop.c cloog_loop_simplify')], ['guards'])
na('Whether a constraint is implied is decided by isl\'s gist at run time and is incomplete by design.  P32 decides that the context passed to it is the right one.')
