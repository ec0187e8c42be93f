"""Properties: the single source of properties.jsonl and MANIFEST.json (written by gen.py)."""
def P(id, title, statement, over, qtext, why, files, mech, level='proof', note='', technique='contract-based deductive verification (CBMC code contracts)', na=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, note=note, technique=technique, na=na)
PROPS = [
P('L01', 'Integer literals keep their exact value, base and suffix',
  'Every decimal, octal and hexadecimal integer literal of the source denotes exactly its mathematical value (modulo 2^64 on x86-64, modulo 2^32 elsewhere), '
  'including literals that do not fit in 32 bits on x86-64. The scanner consumes exactly the characters of the literal and of its u/l/ll suffix, '
  'and classifies the literal by that suffix (or, for the shell, by its base).',
  ['inputs'], 'all digit strings, bases, suffixes, and whatever character follows the literal',
  'The tests use a few dozen literals; carries between the 16-bit and 32-bit halves depend on specific digit patterns.',
  ['pnut.c', 'exe.c', 'x86.c'], [('64-bit accumulation on 32-bit words', 'pnut.c: u64_mul_u32, u64_add_u32, u64_to_obj'), ('digit and literal scanning', 'pnut.c: accum_digit, get_tok')],
  note='Accumulation step proved for all operands; the scanning loop of get_tok is a bounded stand-in (literals of up to 6 characters, any following character), justified inductively by the per-digit contract.'),
P('X01', 'Every machine instruction emitted is the intended one',
  'For every register operand, immediate, offset and condition, each instruction emitter of the i386 and x86-64 back ends appends to the code buffer exactly one '
  'well-formed instruction, which a processor decodes to the intended operation on the intended operands and operand width; nothing else in the buffer changes.',
  ['inputs', 'configurations'], 'all registers, 32-bit (64-bit) immediates and displacements, condition codes, both word sizes',
  'Tests compile some programs; most (register, offset, width) combinations of an encoder never occur in them.',
  ['x86.c', 'exe.c'], [('instruction emitters', 'x86.c'), ('byte emission', 'exe.c: emit_i8 .. emit_i64_le')],
  note='Each emitter is proved against an independent decoder of the IA-32/Intel 64 encoding tables, callee emit_i8 by its contract (itself proved on the real buffer).  The decoder (specs/x86dec.h) is trusted.'),
P('X02', 'Composite instruction sequences compute their operation and nothing else',
  'The instruction sequences the i386 and x86-64 back ends build out of single instructions (signed and unsigned division and remainder, shifts, '
  'scaling by a pointed-to size, memory loads and stores of 1, 2, 4 and 8 bytes with sign or zero extension, copying and zeroing of objects, stack adjustment, program arguments) leave in the destination '
  'register or memory exactly the value of the operation, change no other byte of memory, keep the stack balanced, and change no register but their destination and documented scratch registers.',
  ['inputs', 'configurations'], 'all register contents, register operands, offsets, object sizes and memory contents, both word sizes',
  'Register clobbers and wrong extensions only show for particular operand registers, widths and values.',
  ['x86.c', 'exe.c'], [('division, remainder, shifts', 'x86.c: idiv_reg_reg .. shr_reg_reg'), ('pointer scaling', 'exe.c: mul_for_pointer_arith, div_for_pointer_arith'), ('memory access', 'exe.c: load_mem_location, write_mem_location, copy_obj, initialize_memory'), ('stack', 'exe.c: grow_stack, grow_stack_bytes; x86.c: setup_proc_args')],
  note='Each sequence is proved on a ghost machine whose single instructions are given by contracts (the meaning X01 proves of their encodings); object copies by loop contracts, for every size.'),
P('X03', 'Jumps, calls and gotos reach their label with the right stack',
  'In the i386 and x86-64 back ends every jump, call and address computation that refers to a label reaches the position at which the label is defined, whether the reference comes before or after the definition and however many references there are; '
  'a goto also leaves the stack pointer at the frame size of its target label; resolving a label changes no other byte of the code.',
  ['inputs', 'histories'], 'all sequences of forward references, definition and backward references of a label; all positions and frame sizes',
  'Patch chains depend on the number, order and distance of references; tests only use a few shapes.',
  ['exe.c', 'x86.c'], [('labels', 'exe.c: use_label, def_label'), ('gotos', 'exe.c: jump_to_goto_label, def_goto_label'), ('addresses', 'x86.c: mov_reg_lbl')],
  note='use_label proved for every position and label state, mov_reg_lbl for every register; def_label and gotos are bounded stand-ins (up to 3 forward references), widened by native executions.'),
P('X04', 'Expressions are evaluated to the value C prescribes',
  'In the i386 and x86-64 back ends, every expression - arithmetic, comparison, shift, logical, conditional, comma, assignment and compound assignment, ++/--, indexing, member access, '
  'indirection, address-of, cast, sizeof, call, variable and constant - evaluates its operands once (the right operand of && || ?: only when selected), applies the operation for the '
  'signedness and width its operand types give after the integer promotions and usual conversions (scaling by the pointed-to size for pointers), stores exactly the object of an assignment, '
  'and leaves exactly one word, its value, on the stack, with the stack pointer and the tracked frame size in step. (Values are those of the target word: int results are not truncated to 32 bits in 64-bit registers.)',
  ['inputs', 'configurations'], 'all operand values, operand types, operators and operand expressions; both word sizes',
  'Wrong signedness, width, scaling or stack accounting only shows for particular types, operand values and nesting.',
  ['exe.c'], [('expressions', 'exe.c: codegen_rvalue, codegen_lvalue, codegen_binop, codegen_call'), ('expression types', 'exe.c: value_type, arithmetic_type, dereference_type'), ('sizes of types', 'exe.c: type_width, struct_member_offset')],
  note='codegen_rvalue and codegen_lvalue are proved one operator at a time for all operand values, with the recursive calls replaced by the function\'s own contract, on a ghost machine with control flow; operand types are enumerated (quick: representative pairs, thorough: 674 contracts). String literals are only covered by the random programs.'),
P('X05', 'Statements, declarations and initializers transfer control as C prescribes',
  'In the i386 and x86-64 back ends, if, while, do, for, switch/case/default, break, continue, goto, labels, return, blocks and expression statements run exactly the statements and conditions C prescribes, in that order; '
  'every way out of a statement leaves the stack at the frame size of its destination, and frame size and scope are restored after it. A declaration gives its variable a place of its own that later statements of the block (and only those) see; '
  'an initializer evaluates each of its expressions once, in order, gives every initialized scalar of the object its value and every other one zero, and writes nothing outside of the object; static and global variables are initialized once, before main. '
  'A function finds its parameters where the caller put them and returns with an empty frame.',
  ['inputs', 'configurations'], 'all operand values, all ways a child statement can end (normally, break, continue, return), all entry points (from above, by a backward jump, by goto or case), all frame sizes, both word sizes',
  'Wrong targets or stack adjustments only show for particular nestings of loops, switches, declarations and jumps.',
  ['exe.c', 'env.c'], [('statements', 'exe.c: codegen_statement, codegen_body, codegen_goto'), ('declarations', 'exe.c: codegen_local_var_decl, codegen_static_local_var_decl, codegen_glo_var_decl, codegen_glo_fun_decl, add_params'), ('initializers', 'exe.c: codegen_initializer'), ('enclosing loops and switches', 'env.c: cgc_add_enclosing_loop, cgc_lookup_enclosing_loop_or_switch')],
  note='codegen_statement is proved one statement at a time with the child statements replaced by its own contract (enforce-contract-rec); loops by two executions, from the beginning and from the target of the backward jump. Initializers and declarations for representative types and initializer shapes; string initializers only by the random programs.'),
P('X06', 'Names refer to the innermost declaration in scope',
  'In the i386 and x86-64 back ends a use of an identifier refers to the innermost declaration of that variable visible at the use: a declaration in a block hides the ones of enclosing blocks, parameters and globals '
  '(and functions and enumerators) of the same name until the end of its block, and those are visible again afterwards; static locals follow the same rule; the name of a function, enumerator, label, struct, union or enum resolves to its own declaration, '
  'whatever other kinds of names are spelled alike. A declaration changes no earlier one, and gives each variable a place of its own.',
  ['inputs'], 'all environments (chains of bindings of any length), names and kinds of names',
  'Hiding and lookup order only matter for particular combinations of equal names.',
  ['env.c', 'exe.c'], [('lookups', 'env.c: cgc_lookup_var, cgc_lookup_binding_ident, cgc_lookup_last_binding, cgc_lookup_enclosing_loop_or_switch'), ('declarations', 'env.c: cgc_add_*'), ('order of lookups', 'exe.c: resolve_identifier, canonicalize_type')],
  note='The lookup loops are proved by loop contracts for chains of any length; the add functions and users of the lookups for every state. Where scopes begin and end is part of X05 (codegen_statement, codegen_body); here it is validated by random programs (bounded).'),
P('X07', 'Sizes of types and layout of structs and unions',
  'In the i386 and x86-64 back ends every type has the size C and the target give it (char 1, short 2, int 4, long long 8, pointer one word, array length times element size); the members of a struct lie in order, each at the first multiple of its alignment '
  'after the previous one, the members of a union at offset 0, members of anonymous structs and unions at their offset within them; the alignment of a struct or union is the largest of its members\' and its size a multiple of it that holds all members. '
  'A struct, union or enum tag without members stands for its definition. (Members of size zero excepted.)',
  ['inputs', 'configurations'], 'all types, all numbers of members, member sizes and alignments; both word sizes',
  'Padding errors only show for particular sequences of member types.',
  ['exe.c'], [('sizes', 'exe.c: type_width, struct_union_size, type_largest_member'), ('offsets', 'exe.c: struct_member_offset_go, struct_member_offset'), ('alignment', 'exe.c: align_to, word_size_align'), ('tags', 'exe.c: canonicalize_type')],
  note='Each function is proved against the contracts of the others (induction over the nesting of types); the loops over members by loop contracts, for any number of members. Array element sizes are enumerated (1, 2, 4, 8, 28, 60), array lengths symbolic.'),
P('P03', 'Constant expressions have the value C prescribes',
  'The compiler evaluates every constant expression (array size, enumerator, #if condition) to the value C prescribes on 32-bit signed integers: literals, character constants, + - * / % & | ^ << >>, comparisons, ~ ! unary + and -, && || ?: (the operand that is not needed is not evaluated: a division by zero in it is no error), '
  'parentheses; an enumerator without a value is one more than the previous one; in #if, identifiers that are not macros are 0 and defined tells whether a name is a macro. A division by zero, a literal that does not fit, and anything that is not a constant expression stop the compiler. '
  '(Unsigned suffixes do not change the signedness; overflow wraps.)',
  ['inputs', 'configurations'], 'all operand values, operators and operand expressions; shell and native configurations',
  'Constants in the tests are few and small.',
  ['pnut.c'], [('evaluation', 'pnut.c: eval_constant'), ('uses', 'pnut.c: parse_enum, parse_declarator, evaluate_if_condition')],
  note='eval_constant is proved one operator at a time for all operand values, the recursive calls by its own contract; multiplication, division and remainder for 8-bit operands only (the circuits of wider ones are out of reach of the solver). Its uses (enum, #if, array sizes) and case labels are validated by random programs (bounded).'),
P('S01', 'Texts in the generated shell script denote their characters and numbers',
  'In the shell back end, every string literal, character literal and number of the source is written to the script so that the shell reads back exactly the characters or the value it has in C: '
  'quoting and escape sequences (also those interpreted by printf formats and by the unpacking runtime) protect every special character, numbers are written in their base with all digits and sign, and every node of the internal text trees prints as its parts, in order.',
  ['inputs'], 'all characters, string contents, numbers and text trees',
  'Each special character and each combination of quoting contexts needs its own escape; tests use few of them.',
  ['sh.c', 'pnut.c'], [('escapes', 'sh.c: print_escaped_char, print_escaped_string'), ('text trees', 'sh.c: print_text, wrap_integer'), ('numbers', 'pnut.c: putint, puthex_unsigned, putoct_unsigned')],
  note='The string loop is proved by a loop contract (any length) against print_escaped_char proved for every character; numbers by recursion on the contract of the digit printers; text trees one node kind at a time.'),
P('S02', 'Shell expressions are evaluated to the value C prescribes',
  'In the shell back end, every expression - arithmetic, comparison, shift, logical, conditional, assignment and compound assignment, ++/--, indexing, member access, indirection, address-of, cast, sizeof, call, variable and constant - '
  'is translated to shell text that has the same grouping (parentheses wherever the shell would parse it differently), is placed in the kind of context it needs (arithmetic expansion, test, or plain word) and yields the value C gives; '
  'the calls it contains run exactly once, in order, before the value is used - those in the right operand of && and || only when C evaluates it - and their results are kept in variables that no other live value uses. '
  '(On 32-bit signed int; calls in the second and third operand of ?: and && or || with calls outside of tests, which pnut rejects, the comma operator, and struct members named like runtime variables excepted.)',
  ['inputs'], 'all operators, operand expressions and contexts',
  'Grouping and evaluation order depend on particular nestings of operators, calls and contexts.',
  ['sh.c'], [('expressions', 'sh.c: comp_rvalue_go, comp_rvalue, with_prec_parens, wrap_if_needed'), ('assignment targets', 'sh.c: comp_lvalue, comp_lvalue_address'), ('calls inside expressions', 'sh.c: handle_side_effects_go, handle_side_effects')],
  note='comp_rvalue_go and handle_side_effects_go are proved one operator at a time with the recursive calls replaced by the function\'s own contract, for all operand texts with each kind of outermost operator; the emitted text is compared with the one the shell grammar requires. Two known findings (grouping of bases and indices of assignment targets).'),
P('S03', 'Shell statements transfer control as C prescribes',
  'In the shell back end, if, while, do, for, switch, break, continue, return, blocks and expression statements are translated to shell commands that run exactly the statements and conditions C prescribes, in that order: '
  'conditions and everything they need are evaluated at each iteration and for each else-if reached, continue runs the end action of its own loop only, break leaves the innermost loop or switch, return restores the variables of the caller and leaves the function, an empty branch or body is a valid command. '
  '(break and fallthrough inside switch branches, goto and struct values, which pnut rejects for the shell, excepted.)',
  ['inputs'], 'all child statements and conditions, all nestings of loops and switches, all ways a statement can end',
  'Wrong targets, conditions evaluated only once or missing end actions only show for particular nestings.',
  ['sh.c'], [('statements', 'sh.c: comp_statement, comp_if, comp_loop, comp_switch, comp_body'), ('jumps', 'sh.c: comp_break, comp_continue, comp_return'), ('declaration list', 'sh.c: append_glo_decl, undo_glo_decls, replay_glo_decls')],
  note='Each statement compiler is proved against the exact lines it must append, child statements by the contract of comp_statement (rec), conditions by the one of comp_rvalue; enclosing loops enumerated up to four levels. The helpers on the list of lines are bounded (4 lines).'),
P('S04', 'Shell functions get their arguments, keep their callers\' variables and return',
  'In the shell back end, a call evaluates its arguments once and in order, passes them in the order of the parameters, and yields the value the function returns; a function sees its parameters and locals, changes no variable of its callers, and restores everything it uses before it returns; '
  'globals, locals, parameters, enumerators and members with the same or special names do not interfere. putchar prints exactly the character. '
  '(Member names that equal runtime variables or are used twice, special shell variables as names, shadowing of locals, static locals excepted.)',
  ['inputs'], 'all argument expressions, numbers of arguments, function and variable names and nestings of calls',
  'Clobbered variables only show for particular nestings of calls, numbers of arguments and names.',
  ['sh.c'], [('calls', 'sh.c: handle_fun_call_side_effect, comp_fun_call_code, fun_call_params, comp_putchar_inline'), ('functions', 'sh.c: comp_glo_fun_decl, let_params, save_local_vars, restore_local_vars'), ('names', 'sh.c: env_var_with_prefix, struct_member_var')],
  note='Calls are proved for 0 to 3 arguments (each a separate contract; fun_call_params is labelled bounded), whatever the argument expressions; the rest by bounded stand-ins and random programs.'),
]
