NOTES = ('All checks are one pure static analyser (rucsa/): clang-18 lowers /repo\'s current sources to LLVM IR (nothing is '
         'linked or run), a trace-partitioned abstract interpreter with widening extracts decision tables, call '
         'protocols and emitted-code shapes, and each rule compares them with the language documentation or with the '
         'other half of the code that must agree.')
T = 'static analysis: '
PROPS = [
    dict(id='F01', title='Operators and punctuation: longest match, one token per spelling',
         statement='Every operator or punctuation spelling of the language reference is recognised as its own token, the longest '
                   'spelling that the input allows is taken, and scanning resumes at the first character behind it. A character '
                   'that can start no token is reported as an error.',
         quant='every source text, at every position where a token may start', over=['inputs'],
         why='tests exercise common operators in common contexts; a rarely used spelling or a wrong boundary between two '
             'adjacent operators is never sampled',
         files=['libs/compiler/lexer.c'], mech=[('token dispatch', 'lex in libs/compiler/lexer.c')],
         technique=T + 'abstract interpretation of the scanner with a symbolic character source; extracted decision tree '
                       'compared with the spelling table',
         note='decides all paths of the scanner that start at a punctuation character; characters are symbolic'),
    dict(id='F02', title='Keywords in both languages and both cases denote the documented tokens',
         statement='Each of the keywords of the language reference is reserved in its English and Russian spelling, in lower and '
                   'in upper case, and all four spellings denote the same keyword. No other word is reserved.',
         quant='every word of every program', over=['inputs'],
         why='tests use a handful of Russian and upper-case keywords; 120 spellings are never all sampled',
         files=['libs/compiler/syntax.c', 'libs/compiler/lexer.c', 'libs/utils/utf8.c'],
         mech=[('keyword table', 'repr_init in libs/compiler/syntax.c'), ('word classification', 'lex_identifier_or_keyword in libs/compiler/lexer.c')],
         technique=T + 'constant propagation through table construction; comparison with the documented keyword table',
         note='the complete table built at start-up is derived, including the case conversion'),
    dict(id='F03', title='Comments vanish and literals have the value they spell',
         statement='A block comment ends at the first */ and a line comment at the end of its line; an unterminated one is reported. '
                   'A number denotes the value of its digits in its base, with its fraction and exponent, as an integer where that fits and as a '
                   'floating value otherwise; foreign digits and empty exponents are reported. Character and string literals consist of the '
                   'characters between their quotes with the escape sequences replaced, neighbouring strings are joined, and empty or '
                   'unterminated ones and unknown escapes are reported.',
         quant='every text the scanner meets', over=['inputs'],
         why='tests spell a few dozen literals; digits, bases, lengths, escapes and where a text breaks off combine without bound',
         files=['libs/compiler/lexer.c', 'libs/compiler/token.c', 'libs/utils/utf8.c'],
         mech=[('scanner', 'lex, lex_numeric_literal, lex_char_literal, lex_string_literal, skip_block_comment in libs/compiler/lexer.c'),
               ('digits', 'utf8_is_digit, utf8_is_hexa_digit, utf8_is_power, utf8_to_number in libs/utils/utf8.c'),
               ('payload', 'constructors and accessors in libs/compiler/token.c')],
         technique=T + 'abstract interpretation of the scanner over texts of character classes with symbolic digits, values kept as '
                       'polynomials of the digits and intervals deciding what fits; each path is compared with the language',
         note='texts of up to six characters per construct and of up to seventy digits; rounding of floating values to 1e-9 relative'),
    dict(id='F04', title='Expressions group by the documented precedence and associativity',
         statement='Every expression is parsed into the tree the operator grammar prescribes: binary operators group by the '
                   'thirteen documented precedence levels, assignment and the conditional operator group right to left and all '
                   'others left to right, prefix and postfix operators and primary expressions bind as documented. Each node is '
                   'built with the operator its token denotes and with its operands in source order.',
         quant='every expression of every program, whatever its length and nesting', over=['programs'],
         why='tests contain a few dozen operator combinations; the grammar allows over a thousand adjacent pairs',
         files=['libs/compiler/parser.c', 'libs/compiler/operations.c'],
         mech=[('precedence climbing', 'parse_RHS_of_binary_expression in libs/compiler/parser.c'),
               ('operator tables', 'token_to_binary, token_to_unary, get_operator_precedence in libs/compiler/operations.c')],
         technique=T + 'transition relation of the operator loop extracted by abstract interpretation, for every lower bound, '
                       'operator and following token; compared with the grammar',
         note='induction over the operator loop: its behaviour depends on the bound, the operator and the next token only, and '
              'all such triples are decided'),
    dict(id='F05', title='Operators accept exactly the operand types the reference admits',
         statement='Every unary, binary, assignment and conditional operator, subscript, member selection and call is accepted for the '
                   'operand types and lvalues the language reference admits, and reported as an error for all others. An accepted '
                   'expression has the documented type and category, and an integer operand is converted to floating exactly where it '
                   'meets a floating one.',
         quant='every operator, every combination of operand types, constness and category', over=['programs'],
         why='there are thousands of operand type combinations; tests contain a few valid ones and a handful of errors',
         files=['libs/compiler/builder.c'],
         mech=[('operator rules', 'build_unary_expression, build_binary_expression, build_ternary_expression in libs/compiler/builder.c'),
               ('postfix rules', 'build_subscript_expression, build_member_expression, build_call_expression in libs/compiler/builder.c'),
               ('conversions', 'build_cast_expression, usual_arithmetic_conversions in libs/compiler/builder.c')],
         technique=T + 'abstract interpretation of the tree builder per operator and operand type, one representative per type shape; '
                       'decision table compared with the reference',
         note='the rules look at the shape of a type, so one representative per shape decides all types; where the reference is silent '
              'nothing is claimed'),
    dict(id='F06', title='Folding a constant expression gives the value the operator denotes',
         statement='An operator applied to constants is replaced by the constant of the value and type that operator has on them, and a '
                   'conversion of a constant by the constant of the same value. A constant division or remainder without a quotient is '
                   'never carried out by the compiler. Where a constant expression is required, only a constant is accepted.',
         quant='every operator and every value and type of its constant operands', over=['programs', 'inputs'],
         why='tests fold a handful of constants; a wrong operator, operand order or missing guard shows for particular values only',
         files=['libs/compiler/builder.c', 'libs/compiler/AST.c'],
         mech=[('folding', 'fold_unary_expression, fold_binary_expression, fold_ternary_expression in libs/compiler/builder.c')],
         technique=T + 'abstract interpretation with symbolic constants; the resulting terms are compared with the operator',
         note='the operand values are symbolic; arithmetic is taken in the width the folder uses (64 bits), so overflow out of 32 bits is '
              'not claimed'),
    dict(id='F07', title='Statements follow the statement grammar and its context rules',
         statement='A statement is accepted without a diagnostic exactly when it has the parts the reference grammar gives its first '
                   'word, and it becomes the node of that statement with every part in its place. break is accepted only in a loop or '
                   'switch, continue only in a loop, case and default only in a switch, however they are nested, and what begins with '
                   'a type is read as a declaration. A block is the sequence of its items in order, in a scope of its own.',
         quant='every statement of every program, in every nesting', over=['programs'],
         why='the optional parts of for, the nesting of loops and switches and the words that may begin an item multiply; tests hold the '
             'usual combinations',
         files=['libs/compiler/parser.c'],
         mech=[('statements', 'parse_statement and the parse_*_statement functions in libs/compiler/parser.c')],
         technique=T + 'abstract interpretation of every path of each production; the accepted words, the parts of the built node and '
                       'the context flags on the way are compared with the grammar',
         note='induction over nesting: nested statements are taken by the rule itself, and the context each nested one is parsed in is '
              'checked; the item loop of a block is closed by its back edge'),
    dict(id='F08', title='Names mean the declaration in scope',
         statement='Within its scope a name stands for its latest declaration; blocks, for statements and functions have scopes of their '
                   'own, at the end of which every name declared there means again what it meant before. A second declaration of a '
                   'name in one scope is reported (except the definition of a declared function), as are a second main, uses of undeclared names, '
                   'a missing main and functions declared but not defined; correct declarations are not. How many '
                   'functions, variables, types and enumerators a program has, and their values, do not change what a name is, '
                   'and a variable belongs to a function exactly when it is declared in one.',
         quant='every program: any number, order, nesting and values of declarations', over=['programs'],
         why='the outcome depends on the whole history of declarations and scopes; tests are short programs with few names',
         files=['libs/compiler/syntax.c', 'libs/compiler/parser.c', 'libs/compiler/builder.c'],
         mech=[('identifiers', 'ident_add, scope_block_enter, scope_block_exit, scope_func_enter, scope_func_exit in libs/compiler/syntax.c'),
               ('scopes', 'parse_compound_statement, parse_for_statement, parse_function_definition in libs/compiler/parser.c')],
         technique=T + 'inductive step of the table of identifiers: abstract interpretation of a declaration, scope entry and scope exit over '
                       'a symbolic table (previous meaning free, outer, inner or main); typestate rule for scopes on every path of '
                       'the parser; reporting rule for every caller',
         note='the scope exit is decided for zero to three records with symbolic contents, the loop being the same for more; what '
              'happens to the table after a first error is not examined; functions may not be declared inside functions'),
    dict(id='F09', title='The syntax tree keeps what was parsed',
         statement='Every expression, statement, declaration and function put into the syntax tree is read back by the code generators '
                   'with the kind, type, value category, operator, constant, name and place it was made with and with its operands, '
                   'substatements, bounds, members, arguments and parameters in order, optional parts being present exactly when given. '
                   'Making one construct leaves all other constructs of the tree as they were.',
         quant='every construct, all values it may carry, operands with and without parts of their own and neighbours', over=['programs'],
         why='the tree is one row of numbers with links in it; a wrong link or attribute shows only for constructs in particular '
             'surroundings, and then as wrong code',
         files=['libs/compiler/AST.c', 'libs/compiler/AST.h', 'libs/utils/tree.c', 'libs/utils/vector.c', 'libs/utils/node_vector.h'],
         mech=[('constructs', 'expression_*, statement_* and declaration_* makers and readers in libs/compiler/AST.c'),
               ('tree', 'node_insert, node_swap, node_remove, node_add_child in libs/utils/tree.c')],
         technique=T + 'round trip by abstract interpretation of every maker and every reader over a modelled tree with symbolic '
                       'contents (store/load forwarding through tree, vector and list code)',
         note='shapes: 0 or 1 neighbours on each side, operands with 0 to 2 parts, lists of 0 to 3; allocation succeeds; item_store_double '
              'and item_restore_double are taken to be inverse; constructs that could not be built (after an error) only as optional parts'),
    dict(id='F11', title='Types are what they were made of, and the same exactly when made alike',
         statement='Pointers, arrays, const types, structures, functions and enumerations give back the parts they were made of, in order, and '
                   'belong to exactly the classes (integer, arithmetic, scalar, string, aggregate and so on) and have the size the language '
                   'gives them, const or not. Two types are the same exactly when they are made alike from the same parts, however many other types '
                   'there are; every enumeration is a type of its own. A type asks for an initial value exactly when some part of it is const.',
         quant='every type a program can form: any kinds, nesting, members and parameters', over=['programs'],
         why='tests declare few types; whether two types that differ in one member, parameter or const mark deep inside are kept apart is not sampled',
         files=['libs/compiler/syntax.c', 'libs/utils/vector.c'],
         mech=[('sharing', 'type_add, type_is_equal in libs/compiler/syntax.c'), ('makers', 'type_structure, type_array, type_pointer, type_const, '
                'type_enum_add_fields in libs/compiler/syntax.c'), ('readers', 'type_is_*, type_size, type_structure_get_*, type_function_get_*, '
                'type_requires_initialization in libs/compiler/syntax.c')],
         technique=T + 'abstract interpretation of the makers and readers over the modelled table of types, beginning with its start-up contents; '
                       'every reader compared with the description of the type, all pairs compared for identity',
         note='a family of types with one representative per kind of part and place of difference, up to three levels and five parts; allocation succeeds; '
              'at most 48 members, the size of the buffer a structure is collected in'),
    dict(id='F14', title='Declarations follow the declaration grammar and keep all their parts',
         statement='A type specifier denotes its documented type, and a declarator, structure member, enumeration, parameter list or '
                   'function accepted without a diagnostic has the form of the reference grammar and keeps its type, name, pointer mark, '
                   'bounds, initialiser, members, parameters and body, in order. Enumeration constants without a value are one more than '
                   'the constant before them, starting at 0. A function definition agrees with its prototype and returns a value if its '
                   'type asks for one, and main has one of its admitted forms; violations are reported.',
         quant='every declaration of every program', over=['programs'],
         why='the optional marks, bounds, lists and forms of functions multiply; tests hold a few combinations of each',
         files=['libs/compiler/parser.c'],
         mech=[('specifiers', 'parse_type_specifier in libs/compiler/parser.c'),
               ('declarators', 'parse_init_declarator, parse_member_declaration, parse_declaration in libs/compiler/parser.c'),
               ('types', 'parse_struct_declaration, parse_enum_declaration_list in libs/compiler/parser.c'),
               ('functions', 'parse_function_declarator, parse_function_declaration, parse_function_definition in libs/compiler/parser.c')],
         technique=T + 'abstract interpretation of every path of each production; the accepted words, the values of enumeration constants, '
                       'the type records and the parts of the built nodes are compared with the grammar',
         note='induction over nesting and lists: lists are followed for two or three items and closed by their back edges; what follows a '
              'first diagnostic is not examined'),
    dict(id='F12', title='Initialisers, conditions, returns and output calls are checked by type',
         statement='Initial values, returned values, controlling expressions, array bounds and the arguments of printf, print, printid '
                   'and getid are accepted when their types fit what they are used for according to the reference, and reported as an '
                   'error otherwise. Accepted ones are kept whole and in order, with integers converted where a floating value is needed.',
         quant='every statement and declaration form, every type of object and of value', over=['programs'],
         why='each rule has many type combinations; the tests contain about one negative example per message',
         files=['libs/compiler/builder.c'],
         mech=[('initialisation', 'check_assignment_operands, build_initializer, build_declarator in libs/compiler/builder.c'),
               ('statements', 'build_*_statement in libs/compiler/builder.c'),
               ('formatted output', 'build_printf_expression, build_print_expression in libs/compiler/builder.c')],
         technique=T + 'abstract interpretation of the tree builder per construct, type and shape of initialiser; decision table compared '
                       'with the reference',
         note='one representative per type shape; initialiser lists up to three levels; format strings of up to three specifiers'),
    dict(id='F13', title='Scanning and parsing end for every source text',
         statement='Reading a program ends for every text, however malformed: no loop of the scanner or of the parser goes round, and no '
                   'construct is entered again, without a further character or token having been read, and none goes on at the end '
                   'of the text. Every token but the one for the end of the text has consumed at least one character.',
         quant='every source text, complete or cut off anywhere, at every token', over=['inputs', 'programs'],
         why='tests contain few malformed programs, and a loop that never ends needs a particular token at a particular place',
         files=['libs/compiler/parser.c', 'libs/compiler/lexer.c'],
         mech=[('loops and recursion of the parser', 'parse_compound_statement_body, skip_until, parse_struct_declaration, '
                'parse_enum_declaration_list, parse_function_declarator in libs/compiler/parser.c'),
               ('scanning loops', 'skip_block_comment, lex_numeric_literal, lex_string_literal in libs/compiler/lexer.c')],
         technique=T + 'progress analysis: abstract interpretation restricted to the partitions on which nothing is consumed, with a least '
                       'fixpoint of "may return without consuming" over functions, flags and tokens; loop back edges and call cycles '
                       'that stay in such a partition are violations',
         note='every grammar function is decided for every token and every constant argument it is called with; recursion depth (stack '
              'use) is not bounded'),
    dict(id='F10', title='Built-in functions: documented names, signatures and numbers',
         statement='Every standard library function is predeclared under its four documented spellings with the documented result '
                   'and parameter types, and under the number by which the code generators recognise it. Nothing else is '
                   'predeclared.',
         quant='every program that calls a standard library function', over=['programs'],
         why='only some built-ins are called by tests, and a permuted number or wrong type still compiles',
         files=['libs/compiler/syntax.c', 'libs/compiler/operations.h'],
         mech=[('registration', 'ident_init and type_function in libs/compiler/syntax.c')],
         technique=T + 'constant propagation through table construction; identifier numbering derived from allocations',
         note='the complete list registered at start-up is derived and compared with the reference'),
    dict(id='V01', title='Virtual machine code of every expression form',
         statement='For the virtual machine, every expression is translated into the instructions the machine defines for it: operands '
                   'are evaluated in source order, the operator instruction matches the operator and the operand type, short-circuit '
                   'and conditional operators jump to the right places, objects are read and written at their own place with their own '
                   'size, and an unused value is not left behind. Instruction code numbers are those the machine executes.',
         quant='every expression form, operator, operand type and kind of designator', over=['programs'],
         why='no test executes virtual machine code; the suite only checks that compilation succeeds',
         files=['libs/compiler/codegen.c', 'libs/compiler/instructions.c', 'libs/compiler/instructions.h'],
         mech=[('expression encoder', 'emit_expression and emit_lvalue in libs/compiler/codegen.c'),
               ('instruction tables', 'unary_to_instruction, binary_to_instruction, instruction_to_*_ver in libs/compiler/instructions.c')],
         technique=T + 'emitted-code templates extracted by abstract interpretation of the encoder with symbolic addresses and one '
                       'representative of every type shape; compared with the machine definition',
         note='structural induction: nested emissions are uninterpreted, so one level per form decides all nestings'),
    dict(id='V02', title='Virtual machine code of statements and declarations keeps control flow',
         statement='For the virtual machine, if, while, do, for, switch, break, continue, return, compound statements and declarations are '
                   'translated so that every jump lands where the language prescribes, including from nested loops and switches, and '
                   'every declared object gets a place of its own size that no live object shares. Functions are entered at their own '
                   'code, with their parameters laid out in order.',
         quant='every statement form, optional part and nesting', over=['programs'],
         why='no test executes virtual machine code; the suite only checks that compilation succeeds',
         files=['libs/compiler/codegen.c'],
         mech=[('statement encoder', 'emit_statement in libs/compiler/codegen.c'), ('jump chains', 'addr_end_break, addr_end_condition, '
               'addr_begin_condition in libs/compiler/codegen.c'), ('storage layout', 'displacements_add in libs/compiler/codegen.c')],
         technique=T + 'emitted-code templates with symbolic addresses, save/restore (typestate) analysis of the jump chains and loop-step '
                       'analysis of the chain walkers',
         note='structural induction over nesting: the chain state at each nested emission and at exit is decided; fall-through between '
              'case labels re-tests the value by design of the encoder and is not claimed'),
    dict(id='V04', title='Virtual machine code of calls reaches the named function',
         statement='For the virtual machine, a call evaluates its arguments in order and ends in the instruction of the built-in function, or in '
                   'a call of the user function it names, whether that function is defined before or after the call or is a parameter. '
                   'printf, print and identifier input/output carry the sizes and types of their arguments.',
         quant='every built-in function, number of arguments and place of definition', over=['programs'],
         why='no test executes virtual machine code, and most built-ins are never called by tests',
         files=['libs/compiler/codegen.c', 'libs/compiler/instructions.c'],
         mech=[('calls', 'emit_call_expression and emit_argument in libs/compiler/codegen.c'), ('built-ins', 'builtin_to_instruction in '
               'libs/compiler/instructions.c'), ('function table', 'functions_get, functions_add in libs/compiler/codegen.c')],
         technique=T + 'emitted-code templates with symbolic addresses for every built-in; table and patch-list analysis',
         note='every built-in number is decided for up to three arguments; the argument loop is uniform'),
    dict(id='V05', title='The virtual machine module is the tables that were built, whole',
         statement='The produced module lists the sizes of its tables and of the global area and then every word of every table in order. A word '
                   'that the chosen width cannot hold ends the compilation with an error; a real constant becomes words of that width from '
                   'which it can be put together again. A name shown or read by the output and input calls is kept once, with all its '
                   'characters, its type and its place.',
         quant='every content of the tables, every target width and flag, every order of names', over=['programs', 'configurations'],
         why='tests compare no module with what was built, and run with the default width; a word lost at the end of a table or a number '
             'split wrongly shows only for particular contents',
         files=['libs/compiler/codegen.c', 'libs/utils/item.c'],
         mech=[('module export', 'enc_export, print_table in libs/compiler/codegen.c'),
               ('words of a target', 'item_store_int64_for_target, item_get_status in libs/utils/item.c'),
               ('kept names', 'compress_ident in libs/compiler/codegen.c')],
         technique=T + 'text of the module extracted by abstract interpretation of the export over modelled tables, formats decoded; word '
                       'splitting decided bit by bit; the table of names followed over histories of uses',
         note='tables up to 300 words; numbers: every single bit, the limits and mixed patterns for each of the eight widths (the splitting '
              'uses masks and shifts alone, so the bits are independent)'),
    dict(id='P01', title='Preprocessor conditions have the value their operators denote',
         statement='The expression of a preprocessor condition or assignment has the value the C operators give it: every unary and binary '
                   'operator computes its own operation on its operands in source order, brackets and the documented precedences decide '
                   'the grouping, also for unary operators and nested brackets. A missing operand, a missing or superfluous bracket, an '
                   'unknown operator and a division by zero are reported as errors, and the preprocessor never divides by zero.',
         quant='every expression: operators, operands, brackets and nesting', over=['inputs'],
         why='tests contain simple comparisons only; the operators, their pairs and the malformed expressions are never sampled',
         files=['libs/macro/computer.c', 'libs/macro/parser.c'],
         mech=[('evaluation', 'computer_push_token, computer_select_three, computer_compare_priority, computer_const_number in '
               'libs/macro/computer.c'), ('operator scanner', 'parse_token in libs/macro/parser.c')],
         technique=T + 'abstract interpretation of the evaluator with both stacks modelled and symbolic operands, and of the operator '
                       'scanner with symbolic text; results compared with the operator grammar',
         note='the evaluator acts on the top of its stacks and the next token only; all pairs of adjacent operators, brackets and '
              'malformed neighbours are decided; overflow of the 64-bit values is not claimed'),
    dict(id='P02', title='Conditional directives select exactly one branch; #while repeats',
         statement='Of the blocks of a preprocessor conditional exactly the first one whose condition holds, or else that of #else, is '
                   'processed and all others, with everything nested in them, are skipped without any effect; the block of #while is '
                   'processed as long as its condition, evaluated anew, is not zero. Directives are recognised by their English and '
                   'Russian names in lower and upper case; a block is ended by the directives that belong to it only, and a misplaced or '
                   'missing one is reported.',
         quant='every sequence and nesting of directives, every result of the conditions', over=['inputs'],
         why='tests contain a few short conditionals; the sequences of #elif and #else with their outcomes and nestings are unbounded',
         files=['libs/macro/parser.c', 'libs/macro/keywords.c'],
         mech=[('blocks', 'parse_block, parse_elif, parse_ifdef_ifndef, parse_while in libs/macro/parser.c'), ('skipping', 'skip_block, parse_next '
               'in libs/macro/parser.c'), ('names', 'kw_add in libs/macro/keywords.c')],
         technique=T + 'abstract interpretation of the directive handlers with nested blocks, conditions and lookups split into all their '
                       'outcomes and the output stream and text position modelled; every path must be a run of the reference automaton',
         note='sequences of up to four blocks of one conditional are decided, the handlers keep no more state than the last directive and '
              'whether a block was taken; nesting by induction'),
    dict(id='P03', title='Preprocessing ends on every text',
         statement='The preprocessor comes to an end on every text, also on a truncated or malformed one: every loop reading the text '
                   'moves on towards its end or leaves, no loop waits for a character that cannot come, and recursion through macro calls '
                   'and nested blocks is bounded by the text or by a fixed depth with a diagnostic.',
         quant='every text given to the preprocessor, wherever it stops', over=['inputs'],
         why='an endless loop needs a text truncated inside a particular construct; tests contain complete texts',
         files=['libs/macro/parser.c', 'libs/macro/computer.c', 'libs/utils/uniscanner.c', 'libs/utils/map.c'],
         mech=[('text loops', 'the parse_* and skip_* functions of libs/macro/parser.c'), ('recursion limit', 'parse_identifier, '
               'parse_expression and parse_include in libs/macro/parser.c')],
         technique=T + 'per-iteration progress analysis: every path round every loop is extracted and must consume text, count towards a '
                       'limit or stop at the end of the text; cycles of the call graph must consume or count',
         note='a #while loop is bounded by its iteration limit; length of an accepted file is assumed finite'),
    dict(id='P04', title='Macro definitions and calls substitute what they name',
         statement='A macro call is replaced by the value of its macro in which every parameter stands for the corresponding argument, '
                   'preprocessed, in quotes behind # and unchanged behind ##; arguments are separated by the commas outside brackets and '
                   'strings, and a wrong number of them or a broken definition is reported and leaves no macro or replacement. A definition '
                   'gives its name the text of its line (or lines) and its parameters in order, #set changes and #undef removes it. '
                   'All other text, with its strings and the names that are no macros, is copied unchanged.',
         quant='every definition, call, argument list and text', over=['inputs'],
         why='tests contain a few macros; arguments with nested brackets, strings, commas, operators and their errors combine freely',
         files=['libs/macro/parser.c', 'libs/macro/storage.c'],
         mech=[('calls', 'parse_identifier, parse_replacement, parse_brackets, parse_values, parse_observation in libs/macro/parser.c'),
               ('definitions', 'parse_define, parse_set, parse_undef, parse_macro, parse_args, parse_content in libs/macro/parser.c'),
               ('text', 'parse_until, skip_string in libs/macro/parser.c')],
         technique=T + 'abstract interpretation over texts of character classes with symbolic characters: what is read, printed and stored on '
                       'every path is compared with the substitution rules',
         note='texts of up to six significant characters per construct are decided, nested calls and strings are summarised; the text of '
              '#macro lines and the table of names behind the lookups are not examined'),
    dict(id='D01', title='Errors fail the compilation, and only errors do',
         statement='Every run in which the preprocessor or the compiler reports an error ends with a failure status, and a program in '
                   'which none was found compiles with success; warnings alone fail nothing. An error is kept wherever it is found '
                   '(in a skipped branch, a macro argument, an expression of a directive, a code generator) until the run ends. '
                   'No virtual machine code is written once an error was reported, nor is code generated for a program without a '
                   'main function or with a function that is declared and not defined (unless only compiling was asked for).',
         quant='every program, every place and order of errors, every target and every way of starting the compiler', over=['programs', 'fault_sequences'],
         why='a test shows that one error fails one run; that each of the hundreds of places reporting an error marks the run on every path '
             'through nested and skipped constructs cannot be sampled',
         files=['libs/macro/parser.c', 'libs/macro/macro.c', 'libs/compiler/compiler.c', 'libs/compiler/reporter.c', 'libs/compiler/syntax.c',
                'libs/compiler/codegen.c', 'libs/compiler/llvmgen.c', 'libs/compiler/mipsgen.c', 'src/main.c'],
         mech=[('error mark', 'parser_error and was_error in libs/macro/parser.c'), ('error counter', 'report_error in libs/compiler/reporter.c'),
               ('stages', 'compile_from_io, compile_from_ws in libs/compiler/compiler.c; macro_form_io in libs/macro/macro.c')],
         technique=T + 'typestate of the error mark on all paths (dataflow joined at block entries), reporting effects summarised over the call '
                       'graph; result propagation rule on every path of the functions between main and the stages',
         note='internal consistency errors of the code generators on ill-formed trees are outside the claim, as are errors of writing files'),
    dict(id='D02', title='Every diagnostic reaches the user complete',
         statement='Every error and warning has a message of its own, and what the message prints (names, numbers, characters) is passed to '
                   'it, in order and in the type it prints. Each report is shown once with its severity, at every place of the text '
                   'including its end, and its text is not lost because the source line is empty or missing. Errors are held back '
                   'only after the first one and when that was asked for.',
         quant='every report in the sources and every position it can point at', over=['programs', 'fault_sequences'],
         why='most diagnostics never occur in tests, and those compare no message text',
         files=['libs/compiler/errors.c', 'libs/compiler/reporter.c', 'libs/macro/error.c', 'libs/macro/parser.c', 'libs/utils/logger.c'],
         mech=[('messages', 'get_error, get_warning in libs/compiler/errors.c; error and warning in libs/macro/error.c'),
               ('delivery', 'report_error, report_warning in libs/compiler/reporter.c; libs/utils/logger.c')],
         technique=T + 'format strings of all codes extracted by abstract interpretation and compared with the types of the arguments at every '
                       'call site of every reporter; path rules for delivery and logging',
         note='texts of the messages are not judged beyond being there and being different'),
    dict(id='L01', title='LLVM code of every expression form',
         statement='For the LLVM target, every operator is translated into the instruction of that operator and of the operand type, on '
                   'its operands in source order, and later code uses the register that holds the result. Logical and conditional '
                   'operators evaluate only what the language prescribes and yield the value it prescribes, assignments, increments, '
                   'element and member accesses touch the object they name, calls pass the given arguments in order to the function '
                   'they name, and char and int values are converted where they meet.',
         quant='every expression form, operator, operand type and kind of operand', over=['programs'],
         why='tests run few programs and compare nothing but printed output of those; most pairs of operator and operand kind never occur',
         files=['libs/compiler/llvmgen.c'],
         mech=[('expression encoder', 'emit_expression and the emit_*_expression functions in libs/compiler/llvmgen.c'),
               ('conditions', 'check_type_and_branch, emit_logical_expression in libs/compiler/llvmgen.c')],
         technique=T + 'printed-instruction templates extracted by abstract interpretation of the encoder with symbolic registers, labels '
                       'and constants, per operator, operand type and kind of operand; compared with the language semantics',
         note='structural induction: nested emissions are uninterpreted, so one level per form decides all nestings; structures '
              'containing arrays, structure initialisers and arrays of more than two dimensions are outside the claim'),
    dict(id='L02', title='LLVM code of statements and functions keeps control flow',
         statement='For the LLVM target, if, while, do, for, switch, break, continue, return, blocks, scalar declarations and function '
                   'definitions are translated so that every branch reaches the block the language prescribes, also from nested loops '
                   'and switches, every block has a label of its own, and values returned, passed or used as initial values have the '
                   'declared type.',
         quant='every statement form, optional part, operand kind and nesting', over=['programs'],
         why='tests run few programs; optional parts and nestings combine in more ways than are sampled',
         files=['libs/compiler/llvmgen.c'],
         mech=[('statement encoder', 'emit_statement in libs/compiler/llvmgen.c'),
               ('declarations', 'emit_variable_declaration, emit_function_definition in libs/compiler/llvmgen.c')],
         technique=T + 'printed-block templates extracted by abstract interpretation of the encoder with symbolic labels, registers and '
                       'constants, plus a label-freshness and save/restore (typestate) rule; compared with the language semantics',
         note='structural induction over nesting: the break, continue and switch targets at each nested emission and at exit are decided; '
              'switch bodies are enumerated up to five statements in every mix of case and default that changes the label table'),
    dict(id='L03', title='LLVM arrays, initialisers, strings and library names are complete',
         statement='For the LLVM target, every array is given storage with exactly its declared or initialised bounds, every element or member '
                   'of an initialiser is stored at its own place, string constants keep their bytes and final zero, and mixed constant '
                   'and computed bounds are refused. Every library function that is used, and no other, is declared with its own types, '
                   'and every structure is declared with its members in order.',
         quant='every element type, number of dimensions up to three, shape of initialiser, byte of a string and set of used functions',
         over=['programs'], why='tests hold a few arrays and strings; a wrong bound, place or byte shows only for particular shapes and contents',
         files=['libs/compiler/llvmgen.c'],
         mech=[('arrays and initialisers', 'emit_variable_declaration, emit_initialization, global_initialization in libs/compiler/llvmgen.c'),
               ('module parts', 'strings_declaration, builin_functions_declaration, structs_declaration in libs/compiler/llvmgen.c')],
         technique=T + 'printed text of declarations extracted by abstract interpretation of the encoder with an exact model of the table of '
                       'arrays, compared with the layout of the declared type; string text decoded by LLVM rules',
         note='initialiser lists of int, float and char elements with up to three dimensions; character arrays set from strings are local; '
              'lists with other element types, and characters in global structures, are outside the claim'),
]
NA = [
    dict(id='N01', title='Compiled programs behave as the source says when run',
         statement='Running the produced machine code gives exactly the output and result that the language prescribes for the source program, '
                   'for every program and every input.',
         quant='every program and input', over=['programs', 'inputs'], why='tests run a sample of programs with one input each',
         files=['libs/compiler/codegen.c'], mech=[('virtual machine encoder', 'encode_to_vm in libs/compiler/codegen.c')],
         reason='the interpreter of the produced code is not in this repository; the translation itself is decided by V01, V02, V04, L01, L02, '
                'L03 and the front-end properties'),
    dict(id='N02', title='No input overruns memory or the stack',
         statement='No source text, however long or deeply nested, makes the compiler read or write outside its objects or exhaust the stack.',
         quant='every source text', over=['inputs'], why='tests use short inputs',
         files=['libs/compiler/parser.c', 'libs/macro/storage.c'], mech=[('recursive descent', 'parse_expression in libs/compiler/parser.c')],
         reason='does not hold as stated: nesting depth is unbounded recursion by design and several buffers have fixed sizes; a bound on '
                'nesting depth is a runtime quantity that no sound static argument here can give'),
    dict(id='N03', title='MIPS code implements the source program',
         statement='For the MIPS target, the produced assembly computes what the source program prescribes.',
         quant='every program', over=['programs'], why='no test runs the MIPS output',
         files=['libs/compiler/mipsgen.c'], mech=[('MIPS encoder', 'encode_to_mips in libs/compiler/mipsgen.c')],
         reason='the MIPS generator is unfinished (most forms are marked as not done and print nothing), so the property does not hold and '
                'there is no template set to compare it with'),
]
