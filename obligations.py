from vf import O
import checks_e2e as X
PROPS = {}
PROPS['L01'] = dict(obligations=[
  O('u64_mul_u32', 'literals.c', 'x64', enforce='u64_mul_u32'),
  O('u64_add_u32', 'literals.c', 'x64', enforce='u64_add_u32'),
  O('u64_to_obj', 'literals.c', 'x64', enforce='u64_to_obj', replace=['fatal_error'], solver='z3,cvc5'),
  O('accum_digit', 'literals.c', 'x64', enforce='accum_digit', replace=['u64_mul_u32', 'u64_add_u32', 'get_ch']),
  O('accum_digit', 'literals.c', 'i386', enforce='accum_digit', replace=['get_ch']),
  O('accum_digit', 'literals.c', 'sh', enforce='accum_digit', replace=['get_ch'])] +
  [O('literal', 'literals.c', c, bounded='literals followed by any characters, first 6 characters (5 digits) of the token', unwind=9, 
     replace=['fatal_error', 'syntax_error', 'handle_preprocessor_directive', 'get_ident', 'stringify', 'paste_tokens', 'attempt_macro_expansion',
              'return_to_parent_macro', 'begin_macro_expansion'] + (['u64_mul_u32', 'u64_add_u32', 'u64_to_obj'] if c == 'x64' else []), defs=['-DFIRST=%d' % d]) for c in ('x64', 'i386', 'sh') for d in range(48, 58)], e2e=[('literal_programs', X.literals)])
ENC = ('add_reg_reg or_reg_reg and_reg_reg sub_reg_reg xor_reg_reg cmp_reg_reg mov_reg_reg imul_reg_reg mul_reg_reg mov_reg_imm '
  'add_reg_imm idiv_reg div_reg cdq_cqo s_l_reg_cl sar_reg_cl shr_reg_cl push_reg pop_reg call_reg ret int_i8 jump_rel '
  'mov_mem8_reg mov_mem16_reg mov_mem32_reg mov_reg_mem8 mov_reg_mem16 mov_reg_mem32 mov_reg_mem8_sign_ext mov_reg_mem16_sign_ext').split()
ENC64 = 'syscall_ mov_mem64_reg mov_reg_mem64 mov_reg_mem32_sign_ext'.split()
ENCL = 'jump call jump_cond add_reg_lbl'.split()
PROPS['X01'] = dict(obligations=
  [O('emit_i8', 'encoders.c', c, enforce='emit_i8', replace=['fatal_error'], solver='z3,cvc5') for c in ('x64', 'i386')] +
  [O(f, 'encoders.c', c, enforce=f, replace=['fatal_error','emit_i8'], unwind=17) for c in ('x64', 'i386') for f in ENC] +
  [O(f, 'encoders.c', c, enforce=f, replace=['fatal_error','emit_i8','use_label'], unwind=17) for c in ('x64', 'i386') for f in ENCL] +
  [O('mov_reg_large_imm', 'encoders.c', c, enforce='mov_reg_large_imm', replace=['fatal_error','emit_i8'], unwind=17, solver='z3,cvc5') for c in ('x64',)] +
  [O(f, 'encoders.c', 'x64', enforce=f, replace=['fatal_error','emit_i8'], unwind=17) for f in ENC64])

PRIM = ('add_reg_reg sub_reg_reg and_reg_reg or_reg_reg xor_reg_reg mov_reg_reg imul_reg_reg mul_reg_reg mov_reg_imm add_reg_imm cdq_cqo idiv_reg div_reg '
  's_l_reg_cl shr_reg_cl sar_reg_cl push_reg pop_reg mov_reg_mem8 mov_reg_mem16 mov_reg_mem32 mov_reg_mem8_sign_ext mov_reg_mem16_sign_ext mov_mem8_reg mov_mem16_reg mov_mem32_reg').split()
PRIM64 = 'mov_reg_mem32_sign_ext mov_reg_mem64 mov_mem64_reg'.split()
def prim(c): return ['fatal_error'] + PRIM + (PRIM64 if c != 'i386' else [])
PROPS['X02'] = dict(obligations=[O(f, 'composite.c', c, replace=prim(c), unwind=33, exact=True, function=f) for c in ('x64', 'i386')
  for f in 'idiv_reg_reg irem_reg_reg div_reg_reg rem_reg_reg s_l_reg_reg sar_reg_reg shr_reg_reg mul_for_pointer_arith div_for_pointer_arith power_of_2_log word_size_align grow_stack setup_proc_args'.split()] +
  [O(f, 'composite.c', c, replace=prim(c), unwind=33, exact=True, function=f, defs=['-DWIDTH=%d' % w]) for c in ('x64', 'i386') for w in ((1, 2, 4, 8) if c == 'x64' else (1, 2, 4))
    for f in ('load_mem_location', 'write_mem_location')] +
  [O('copy_obj', 'composite.c', c, replace=prim(c), unwind=33, exact=True, timeout=200, solver='cvc5' if c == 'x64' else 'z3', function='copy_obj', fallback_defs=['-DMAXW=9'], fallback_bound='objects of at most 9 bytes',
     loops={'copy_obj': [(0, 'i, wv, g_ins, R[2]', '0 <= i && i <= width / WS && wv == (wa - g_d < i * WS ? g_src : g_w0)'.replace('WS', '8' if c == 'x64' else '4'), ['i:1::i', 'width']),
                         (1, 'i, wv, g_ins, R[2]', 'width - width % WS <= i && i <= width && wv == (wa - g_d < i ? g_src : g_w0)'.replace('WS', '8' if c == 'x64' else '4'), ['i:1::i', 'width'])]})
    for c in ('x64', 'i386')] +
  [O('initialize_memory', 'composite.c', c, replace=prim(c), unwind=33, exact=True, solver='z3', function='initialize_memory', fallback_defs=['-DMAXW=9'], fallback_bound='objects of at most 9 bytes',
     loops={'initialize_memory': [(0, 'i, wv, g_ins', '0 <= i && i <= width / WS && wv == (wa - g_d < i * WS ? 0 : g_w0) && R[2] == 0'.replace('WS', '8' if c == 'x64' else '4'), ['i:1::i', 'width']),
                         (1, 'i, wv, g_ins', 'width - width % WS <= i && i <= width && wv == (wa - g_d < i ? 0 : g_w0) && R[2] == 0'.replace('WS', '8' if c == 'x64' else '4'), ['i:1::i', 'width'])]})
    for c in ('x64', 'i386')])

SMALL = ['-DMAX_CODE_SIZE=250', '-DHEAP_SIZE=100']
PROPS['X03'] = dict(obligations=[
  O('use_label', 'labels.c', c, enforce='use_label', replace=['fatal_error'], solver='z3,cvc5') for c in ('x64', 'i386')] +
  [O('label_history', 'labels.c', c, replace=['fatal_error'], unwind=5, unwindset='snap.0:140', exact=True, function='def_label', defs=SMALL + ['-DPS=%d' % p, '-DNU=%d' % n],
     bounded='at most 3 forward uses of a label, at three sets of positions (arbitrary positions sampled natively)', sample=1) for c in ('x64', 'i386') for p, n in ((1, 0), (2, 1), (3, 2), (1, 3), (2, 3), (3, 3))] +
  [O('goto_history', 'labels.c', c, replace=['fatal_error'], unwind=5, unwindset='snap.0:140', exact=True, function='def_goto_label', defs=SMALL + ['-DGS=%d' % g, '-DDG=%d' % d],
     bounded='at most 2 forward gotos to a label, all frame sizes', sample=1) for c in ('x64', 'i386') for g, d in ((0, 0), (1, 7), (2, 0), (3, 0), (3, 7))] +
  [O('mov_reg_lbl', 'labels.c', c, replace=['fatal_error'], unwind=5, unwindset='snap.0:140', exact=True, function='mov_reg_lbl', defs=SMALL + ['-DKN=%d' % k]) for c in ('x64', 'i386') for k in (0, 1)])
X4P = ('add_reg_reg sub_reg_reg and_reg_reg or_reg_reg xor_reg_reg mov_reg_reg imul_reg_reg mul_reg_reg idiv_reg_reg irem_reg_reg div_reg_reg rem_reg_reg s_l_reg_reg sar_reg_reg shr_reg_reg '
  'mov_reg_imm add_reg_imm mov_reg_lbl push_reg pop_reg grow_stack load_mem_location grow_stack_bytes write_mem_location copy_obj mul_for_pointer_arith div_for_pointer_arith alloc_label_ jump_cond_reg_reg jump def_label call call_reg fatal_error').split()
DFCCU = ','.join('__CPROVER_contracts_write_set_%s.0:60' % f for f in 'check_assigns_clause_inclusion check_assignment check_array_set check_array_copy check_array_replace check_havoc_object check_frees_clause_inclusion check_deallocate havoc_slice create release'.split())
def x4(name, c, defs, lv=False, **kw):
    return O(name, 'exprs.c', c, enforce='codegen_lvalue' if lv else 'codegen_rvalue', rec=True, replace=X4P + (['mov_reg_large_imm'] if c == 'x64' else []) + ([] if lv else ['codegen_lvalue']) + (['codegen_rvalue'] if lv else []),
             defs=['-DHEAP_SIZE=300', '-DMAX_CODE_SIZE=20'] + (['-DLVALUE'] if lv else []) + ['-D' + d for d in defs], unwind=12, unwindset=DFCCU, native=False, replay=X.random_replay('calls' if 'call' in name else 'program', 'shexprs', 'shconds', 'shmem'), cbmc=['--max-field-sensitivity-array-size', '1000'], **kw)

def x4list():
    out = []
    def add(name, c, lv=False, t='quick', **d): out.append(x4(name, c, ['%s=%s' % kv for kv in d.items()], lv, tier=t))
    I, U, UC, C, S, US, LG, UL = 'T_INT T_UINT T_UCHAR T_CHAR T_SHORT T_USHORT T_LONG T_ULONG'.split()
    for c in ('x64', 'i386'):
        q = 'quick'
        for op in "'+' '-' '*' '/' '%' '&' '|' '^' LSHIFT RSHIFT '<' '>' LT_EQ GT_EQ EQ_EQ EXCL_EQ ','".split():
            add('binary', c, OPC=op, TL=I, TR=I, t=q if c == 'x64' or op in "'-' '/' RSHIFT '<'".split() else 'thorough')
            if op in "'/' '%' '<' '>' LT_EQ GT_EQ RSHIFT".split():
                for n, (a, b) in enumerate([(U, U), (U, I), (I, U), (UC, I), (I, US), (US, UC), (S, U)] + ([(LG, I), (UL, I), (I, UL)] if c == 'x64' else [])):
                    add('binary', c, OPC=op, TL=a, TR=b, t=q if (n + len(op) + ord(op[1])) % 4 == (0 if c == 'x64' else 9) or (n in (1, 3) and c == 'x64') else 'thorough')
        for op, a, b in [("'+'", 'T_PINT', I), ("'+'", I, 'T_PSTRUCT'), ("'+'", 'T_AINT', I), ("'+'", 'T_AAINT', I), ("'+'", 'T_PPINT', UC), ("'-'", 'T_PSTRUCT', I), ("'-'", 'T_PSHORT', I), ("'-'", 'T_PINT', 'T_PINT'), ("'-'", 'T_PSTRUCT', 'T_PSTRUCT'), ("'-'", 'T_PCHAR', 'T_PCHAR'), ('EQ_EQ', 'T_PINT', 'T_PINT'), ("'-'", 'T_AINT', I), ("'-'", 'T_PINT', 'T_AINT')]:
            add('binary', c, OPC=op, TL=a, TR=b, t=q if c == 'x64' and (a, op) != ('T_PCHAR', "'-'") or a == 'T_PSTRUCT' and b != I else 'thorough')
        for a, b in [('T_PINT', I), (I, 'T_PINT'), ('T_AINT', I), ('T_AAINT', I), ('T_PSTRUCT', I), ('T_PCHAR', UC), ('T_PUCHAR', I), ('T_PSHORT', I), ('T_PPINT', I), (I, 'T_AAINT')]:
            t = q if c == 'x64' else 'thorough'
            add('index', c, TL=a, TR=b, t=t if a not in ('T_PCHAR', 'T_PSHORT') else 'thorough')
            add('l_index', c, True, TL=a, TR=b, t=t if a in (I, 'T_AAINT', 'T_PSTRUCT') else 'thorough')
        for op in "'+' '-' '~' '!' PARENS '&'".split(): add('unary', c, OPC=op, TL=I, t=q if c == 'x64' or op == "'!'" else 'thorough')
        for a in 'T_PINT T_PCHAR T_PUCHAR T_PSHORT T_PSTRUCT T_PPINT T_AINT T_AAINT'.split():
            add('unary', c, OPC="'*'", TL=a, t=q if c == 'x64' or a in ('T_PUCHAR', 'T_PINT') else 'thorough')
            add('l_deref', c, True, TL=a, t=q if c == 'x64' and a in ('T_PUCHAR', 'T_PSTRUCT', 'T_AAINT', 'T_PPINT') else 'thorough')
        for a in (I, UC, US, 'T_PINT', 'T_STRUCT', 'T_UNION') + ((LG,) if c == 'x64' else ()): add('assign', c, OPC="'='", TL=a, TR=a, t=q if c == 'x64' else 'thorough')
        add('assign', c, OPC="'='", TL=C, TR=I)
        for n, op in enumerate('PLUS_EQ MINUS_EQ STAR_EQ SLASH_EQ PERCENT_EQ LSHIFT_EQ RSHIFT_EQ AMP_EQ BAR_EQ CARET_EQ'.split()):
            add('opassign', c, OPC=op, TL=I, TR=I, t=q if c == 'x64' and n != 2 and n != 8 or n == 4 else 'thorough')
            add('opassign', c, OPC=op, TL=US, TR=U, t=q if n in (3, 6) and c == 'x64' else 'thorough')
        for op, a in [('PLUS_EQ', 'T_PINT'), ('MINUS_EQ', 'T_PSTRUCT')]: add('opassign', c, OPC=op, TL=a, TR=I, t=q if c == 'x64' else 'thorough')
        for op in 'PLUS_PLUS_PRE PLUS_PLUS_POST MINUS_MINUS_PRE MINUS_MINUS_POST'.split():
            for a in (I, UC, 'T_PINT', 'T_PSTRUCT', C): add('incdec', c, OPC=op, TL=a, t=q if c == 'x64' and a in (I, 'T_PSTRUCT') or (c == 'i386') == ('PRE' in op) and a in (UC, 'T_PINT') else 'thorough')
        add('logic', c, OPC='AMP_AMP', TL=I, TR=I); add('logic', c, OPC='BAR_BAR', TL=I, TR=I, t=q if c == 'x64' else 'thorough')
        add('logic', c, OPC='AMP_AMP', TL='T_PINT', TR=UC, t='thorough')
        add('ternary', c, TL=I, TR=I); add('ternary', c, TL='T_PINT', TR='T_PSTRUCT', t='thorough')
        for op, a in [("'.'", 'T_STRUCT'), ('ARROW', 'T_PSTRUCT'), ("'.'", 'T_UNION'), ('ARROW', 'T_PUNION')]:
            for m in ('M1', 'M2', 'M3') + (('M4',) if 'STRUCT' in a else ()):
                add('member', c, OPC=op, TL=a, MB=m, t=q if c == 'x64' or m == 'M3' else 'thorough')
                add('l_member', c, True, OPC=op, TL=a, MB=m, t=q if c == 'x64' and m in ('M2', 'M4') or m == 'M3' and a == 'T_UNION' else 'thorough')
        types = [C, UC, S, US, I, U] + ([LG, UL] if c == 'x64' else [])
        for a in types:
            for b in types: add('cast', c, TL=a, TR=b, t=q if c == 'x64' and (types.index(a) * 3 + types.index(b)) % 5 == 0 or (a, b) == (UC, I) else 'thorough')
        add('cast', c, TL='T_PCHAR', TR='T_PINT')
        for a in types + 'T_PINT T_STRUCT T_UNION T_AINT T_AAINT T_ASTRUCT'.split(): add('sizeof', c, OPC=types.index(a) % 2 if a in types else int(a == 'T_AINT'), TL=a, t=q if c == 'x64' and a in ('T_PINT', 'T_AAINT', 'T_STRUCT', US) else 'thorough')
        for k in range(4):
            for a in (I, UC, S, 'T_AINT', 'T_STRUCT', 'T_PINT'):
                if a == 'T_STRUCT' and k == 1: continue
                add('leaf', c, KIND=k, TL=a, t=q if c == 'x64' and k != 3 and a in (UC, 'T_AINT', 'T_STRUCT') or a == UC else 'thorough')
                if not (k == 1 and a == 'T_AINT'): add('l_ident', c, True, KIND=k, TL=a, t=q if a == I else 'thorough')
        
        for k in (4, 5, 7, 6): add('leaf', c, KIND=k, OPC='INTEGER', t=q if c == 'x64' else 'thorough')
        if c == 'x64':
            for k in 'INTEGER_U INTEGER_L INTEGER_ULL'.split(): add('leaf', c, KIND=6, OPC=k, t='thorough')
            add('leaf', c, KIND=8, OPC='INTEGER_ULL')
        for n in range(4): add('call', c, NARGS=n, TL=I, TR=I, t=q if n in (0, 3) else 'thorough')
        for a in ('T_STRUCT', 'T_UNION'):
            for n in (0, 1): add('callstruct', c, OPC=n, TL=a, TR=I, t=q if a == 'T_STRUCT' else 'thorough')
        for n in range(3): add('callptr', c, NARGS=n, TL='T_PFUN', TR=I, t=q if n == 2 else 'thorough')
        add('l_parens', c, True, TL=I)
    return out
PROPS['X04'] = dict(obligations=x4list(), e2e=[('random_programs', X.random_programs(('x64', 'i386'), 70, 1500)), ('call_programs', X.random_programs(('x64', 'i386'), 40, 800, gen='calls')), ('expressions', X.random_programs(('x64', 'i386'), 60, 1500, gen='shexprs')), ('calls_in_tests', X.random_programs(('x64', 'i386'), 60, 1500, gen='shconds')), ('memory', X.random_programs(('x64', 'i386'), 60, 1500, gen='shmem'))])

X5P = [p for p in X4P if p not in ('codegen_call',)] + ['ret', 'jump_to_goto_label', 'def_goto_label', 'codegen_rvalue', 'codegen_lvalue']
def x5(name, c, t='quick', **d):
    return O(name, 'stmts.c', c, enforce='codegen_statement', rec=True, replace=X5P + (['mov_reg_large_imm', 'mov_reg_mem64'] if c == 'x64' else ['mov_reg_mem32']),
             defs=['-DHEAP_SIZE=300', '-DMAX_CODE_SIZE=20'] + ['-D%s=%s' % kv for kv in d.items()], unwind=12, unwindset=DFCCU, native=False, replay=X.random_replay('stmts', 'shdeep'), cbmc=['--max-field-sensitivity-array-size', '1000'], tier=t)
def x5list():
    out = []
    for c in ('x64', 'i386'):
        for e in (0, 1): out.append(x5('if', c, OPC=e, ENVK=1))
        for f in 'while do'.split(): out.append(x5(f, c))
        for k in range(8): out.append(x5('for', c, OPC=k, t='quick' if c == 'x64' and k in (0, 5, 7) or k == 2 and c == 'i386' else 'thorough'))
        out += [x5('switch', c, ENVK=1), x5('case', c, ENVK=2), x5('default', c, ENVK=2)]
        for k in (1, 2, 3): out.append(x5('break', c, 'quick' if c == 'x64' or k == 2 else 'thorough', ENVK=k)); out.append(x5('continue', c, 'quick' if c == 'x64' or k == 2 else 'thorough', ENVK=k))
        out += [x5('return', c, OPC=k) for k in (0, 1)] + [x5('exprstmt', c), x5('empty', c)]
        out += [x5(f, c, OPC=k, ENVK=1) for f in ('goto', 'label') for k in (0, 1, 2)]
        out += [x5('block', c, OPC=k, ENVK=1) for k in (0, 1)]
        out += [x5('scope', c, ENVK=1, TL=a, TR=b) for a, b in (('T_INT', 'T_CHAR'), ('T_STRUCT', 'T_INT'), ('T_AINT', 'T_PINT'))]
    return out
def x5i(name, c, t='quick', **d):
    o = x5(name, c, t, **d); o.enforce = None; o.rec = False; o.function = {'init_local': 'codegen_local_var_decl', 'init_global': 'codegen_glo_var_decl', 'init_static': 'codegen_static_local_var_decl'}[name]
    o.replace = o.replace + ['initialize_memory']
    return o
def x5ilist():
    out = []
    for c in ('x64', 'i386'):
        for n, (k, a) in enumerate([(0, 'T_INT'), (0, 'T_CHAR'), (0, 'T_STRUCT'), (0, 'T_UNION'), (0, 'T_PINT'), (1, 'T_SHORT'), (1, 'T_AINT'), (2, 'T_AINT'), (3, 'T_AINT'), (4, 'T_AAINT'), (4, 'T_ASTRUCT'), (1, 'T_STRUCT'), (2, 'T_STRUCT'), (3, 'T_STRUCT'), (5, 'T_STRUCT'), (1, 'T_UNION')]):
            for f in ('init_local', 'init_global', 'init_static'):
                out.append(x5i(f, c, 'quick' if f == 'init_local' and c == 'x64' or c == 'x64' and k >= 4 and f == 'init_global' or f == 'init_local' and k >= 4 or (f == 'init_static' and n % 5 == 2) else 'thorough', OPC=k, TL=a, TR='T_INT' if a != 'T_UNION' else a))
        for k, a, b in [(0, 'T_INT', 'T_INT'), (1, 'T_STRUCT', 'T_INT'), (2, 'T_UNION', 'T_STRUCT'), (3, 'T_STRUCT', 'T_AINT'), (3, 'T_CHAR', 'T_PINT')]:
            o = x5('fundecl', c, 'quick' if c == 'x64' or k in (1, 3) else 'thorough', OPC=k, TL=a, TR=b, ENVK=k % 2); o.enforce = None; o.rec = False; o.function = 'codegen_glo_fun_decl'; o.replace = o.replace + ['codegen_statement']; o.defs[0] = '-DHEAP_SIZE=450'
            out.append(o)
    return out
PROPS['X05'] = dict(obligations=x5list() + x5ilist(), e2e=[('random_programs', X.random_programs(('x64', 'i386'), 60, 1000, gen='stmts')), ('nested_exits', X.random_programs(('x64', 'i386'), 60, 1500, gen='shdeep'))])

def x6(f, loop=True):
    n = f.replace('cgc_', '').replace('enclosing_loop_or', 'loop_or')
    return O(n, 'env.c', 'x64', function=f, native=False, replay=X.random_replay('scopes', 'placex'), timeout=120, unwind=24, unwindset=DFCCU, defs=['-DHEAP_SIZE=24'], fallback_defs=['-DACYCLIC'],
      loops={f: [(0, 'binding', 'binding >= 0 && binding < 24 - 3 && g_first[binding] == g_first[__CPROVER_loop_entry(binding)]', ['binding'])]})
X6L = [x6('cgc_lookup_' + f) for f in ('binding_ident', 'last_binding', 'var', 'enclosing_loop_or_switch')]
X6U = [O('resolve', 'env.c', 'x64', function='resolve_identifier', replay=X.random_replay('scopes', 'placex'), replace=['cgc_lookup_var', 'cgc_lookup_binding_ident', 'fatal_error', 'putstr'], native=False, defs=['-DSTRING_POOL_SIZE=50', '-DHEAP_SIZE=60'], cbmc=['--max-field-sensitivity-array-size', '1000'], unwind=10, unwindset=DFCCU)]
X6U += [O('canonicalize', 'env.c', 'x64', function='canonicalize_type', replay=X.random_replay('layout', 'placex'), replace=['cgc_lookup_var', 'cgc_lookup_binding_ident', 'fatal_error', 'putstr'], native=False, defs=['-DSTRING_POOL_SIZE=50', '-DHEAP_SIZE=60', '-DOPC=' + k], cbmc=['--max-field-sensitivity-array-size', '1000'], unwind=10, unwindset=DFCCU) for k in 'STRUCT_KW UNION_KW ENUM_KW INT_KW'.split()]
X6A = 'cgc_add_local_param cgc_add_local_var cgc_add_global cgc_add_global_fun cgc_add_enum cgc_add_typedef cgc_add_enclosing_loop cgc_add_enclosing_switch cgc_add_goto_label'.split()
X6U += [O('add', 'env.c', 'x64', function=f, replace=['fatal_error', 'putstr'], native=False, defs=['-DSTRING_POOL_SIZE=50', '-DHEAP_SIZE=60', '-DK=%d' % k], unwind=10, unwindset=DFCCU) for k, f in enumerate(X6A)]
PROPS['X06'] = dict(obligations=X6L + X6U, e2e=[('scope_programs', X.random_programs(('x64', 'i386'), 25, 600, gen='scopes')), ('placement_programs', X.random_programs(('x64', 'i386'), 60, 1500, gen='placex'))])

SMAX = ['--max-field-sensitivity-array-size', '1000']
def x7(name, f, c, rep=(), rec=False, loops=None, hs=36, solver=None, **d):
    return O(name, 'types.c', c, enforce=f if rec else None, rec=rec, function=f, replace=list(rep) + ['fatal_error'], native=False, replay=X.random_replay('layout', 'placex'), timeout=250, unwind=8, solver=solver, unwindset=DFCCU, loops=loops, cbmc=[] if loops else SMAX,
             defs=['-DHEAP_SIZE=%d' % hs] + ['-D%s=%s' % kv for kv in d.items()], fallback_defs=['-DACYCLIC'], fallback_cbmc=SMAX)
X7S = {'struct_union_size': [(0, 'members, member_type, member_size, largest_submember_size, sum_size, max_size, largest_member_size, struct_union_size_largest_member',
  '(members == 0 || members == g_cell[0] || members == g_cell[1] || members == g_cell[2] || members == g_cell[3]) && sum_size == g_end[members] && max_size == g_max[members] && largest_member_size == g_la[members]', ['members:1::members', 'sum_size:1::sum_size', 'max_size:1::max_size', 'largest_member_size:1::largest_member_size', 'member_type:1::member_type', 'member_size:1::member_size', 'largest_submember_size:1::largest_submember_size'])]}
X7O = {'struct_member_offset_go': [(0, 'members, member_size, sub_offset, offset, decl, ident, struct_union_size_largest_member',
  '(members == 0 || members == g_cell[0] || members == g_cell[1] || members == g_cell[2] || members == g_cell[3]) && (g_isstruct ? offset == g_end[members] : offset == 0) && g_res[members] == g_res[__CPROVER_loop_entry(members)]', ['struct_type'] + [v + ':1::' + v for v in 'members member_size sub_offset offset decl ident'.split()])]}
X7 = [x7('align', 'align_to', c) for c in ('x64', 'i386')]
for c in ('x64', 'i386'):
    X7 += [x7('width', 'type_width', c, ['struct_union_size'], True, OPC="'['", ES=k) for k in (1, 2, 4, 8, 28, 60)]
    X7 += [x7('width', 'type_width', c, ['struct_union_size'], True, OPC=k) for k in "'*' STRUCT_KW UNION_KW ENUM_KW VOID_KW CHAR_KW SHORT_KW INT_KW".split() + (['LONG_KW'] if c == 'x64' else [])]
    X7 += [x7('largest', 'type_largest_member', c, ['struct_union_size', 'type_width'], True, OPC=k) for k in "'[' '*' STRUCT_KW UNION_KW CHAR_KW INT_KW".split()]
X7 += [x7('size', 'struct_union_size', 'x64', ['type_width', 'type_largest_member', 'canonicalize_type', 'align_to'], loops=X7S, hs=90)]
X7 += [x7('offset', 'struct_member_offset_go', 'x64', ['type_width', 'type_largest_member', 'canonicalize_type', 'align_to'], rec=True, loops=X7O, hs=90)]
PROPS['X07'] = dict(obligations=X7 + [o for o in X6U if o.name == 'canonicalize'], e2e=[('layout_programs', X.random_programs(('x64', 'i386'), 25, 600, gen='layout')), ('placement_programs', X.random_programs(('x64', 'i386'), 60, 1500, gen='placex'))])

def p3(name, c='x64', t='quick', solver=None, bounded=None, **d):
    return O(name, 'consts.c', c, enforce='eval_constant', rec=True, replace=['fatal_error', 'putstr', 'putint'], native=False, replay=X.random_replay('consts', 'constsx'), timeout=200, unwind=8, solver=solver, unwindset=DFCCU, cbmc=SMAX,
             defs=['-DHEAP_SIZE=60', '-DSTRING_POOL_SIZE=20'] + ['-D%s=%s' % kv for kv in d.items()], tier=t, bounded=bounded, sample=0)
P3 = []
for c in ('x64', 'shrel'):
    for k in "'+' '-' '*' '/' '%' '&' '|' '^' LSHIFT RSHIFT '<' '>' LT_EQ GT_EQ EQ_EQ EXCL_EQ AMP_AMP BAR_BAR".split(): P3.append(p3('binary', c, OPC=k, **(dict(NARROW=128, bounded='operands of 8 bits') if k in ("'*'", "'/'", "'%'") else {})))
    P3 += [p3('unary', c, OPC=k) for k in "'+' '-' '~' '!' PARENS".split()] + [p3('ternary', c)]
    P3 += [p3('leaf', c, OPC=k) for k in ['INTEGER', 'CHARACTER'] + ('INTEGER_U INTEGER_L INTEGER_LL INTEGER_UL INTEGER_ULL' if c == 'x64' else 'INTEGER_HEX INTEGER_OCT').split()]
    P3 += [p3('ifonly', c, OPC=k) for k in (0, 1)] + [p3('reject', c, OPC=k) for k in (0, 1, 2, 3, 4) if not (k == 3 and c != 'x64')]
PROPS['P03'] = dict(obligations=P3, e2e=[('constant_programs', X.random_programs(('x64', 'i386', 'sh'), 20, 500, gen='consts')), ('constants_of_all_sizes', X.random_programs(('x64', 'i386', 'sh'), 60, 1500, gen='constsx'))])

def s2(name, ctx, t='quick', **d):
    tc = dict(TESTCTX=1) if ctx == 'TEST' else {}
    return O(name, 'shexpr.c', 'sh', enforce='comp_rvalue_go', rec=True, replace='fatal_error comp_lvalue comp_lvalue_address env_var_with_prefix character_ident struct_member_var struct_sizeof_var comp_fun_call_code'.split(), native=False, replay=X.random_replay('program', 'shexprs', 'shconds', 'shmem'),
             timeout=60, unwind=70, unwindset=DFCCU, cbmc=SMAX, tier=t, defs=['-DHEAP_SIZE=150', '-DSTRING_POOL_SIZE=20', '-DTEXT_POOL_SIZE=120', '-DCTX=RVALUE_CTX_' + {'ARITH': 'ARITH_EXPANSION'}.get(ctx, ctx)] + ['-D%s=%s' % kv for kv in dict(d, **tc).items()])
def s2list():
    out = []
    OUTS = "0 '=' '+' '-' '*' '/' '%' '<' '&' '|' LSHIFT EQ_EQ AMP_AMP BAR_BAR '?' '~' '!' CAST PLUS_EQ ','".split()[:-1]
    n = 0
    def arith(name, **d):
        nonlocal n
        own = d.get('OPC', '0')
        for i, o in enumerate(OUTS): out.append(s2(name, 'ARITH', 'quick' if o == own or i == 3 and n % 2 or (i + n) % 20 == 0 else 'thorough', OUT=o, **d))
        n += 1
    def both(name, **d):
        k = d.pop('TSE', n % 3); out.append(s2(name, 'BASE', 'quick' if n % 3 == 0 else 'thorough', **d))
        out.append(s2(name, 'TEST', 'quick' if name in ('index', 'member', 'ternary', 'deref', 'addr') or n % 5 == 0 and d.get('OUT2') != 8 or name == 'pass' and d.get('K1') else 'thorough', TSE=k, **d))
    BIN = "'+' '-' '*' '/' '%' '&' '|' '^' LSHIFT RSHIFT".split(); REL = "EQ_EQ EXCL_EQ LT_EQ GT_EQ '<' '>'".split()
    ASG = "'=' AMP_EQ BAR_EQ CARET_EQ LSHIFT_EQ MINUS_EQ PERCENT_EQ PLUS_EQ RSHIFT_EQ SLASH_EQ STAR_EQ".split()
    for op in BIN + REL: arith('binary', OPC=op); both('binary', OPC=op)
    for op in ASG: arith('assign', OPC=op); both('assign', OPC=op)
    for op in "PLUS_PLUS_PRE PLUS_PLUS_POST MINUS_MINUS_PRE MINUS_MINUS_POST".split(): arith('incdec', OPC=op); both('incdec', OPC=op)
    for op in "'-' '~' '!'".split():
        for k in (0, 1): arith('unary', OPC=op, K1=k); both('unary', OPC=op, K1=k)
    for op in "PARENS '+' CAST".split():
        for k in (0, 1): arith('pass', OPC=op, K1=k); both('pass', OPC=op, K1=k, TSE=1)
        for k in (2, 3): out.append(s2('pass', 'TEST', OPC=op, K1=k))
    for op in "AMP_AMP BAR_BAR".split():
        arith('logic', OPC=op); out.append(s2('logic', 'BASE', OPC=op))
        
        for k1, k2, w in ((0, 0, 0), (2, 0, 0), (3, 0, 0), (0, 2, 0), (0, 3, 0), (2, 3, 0), (3, 2, 0), (0, 0, 1), (2, 3, 1), (3, 2, 1), (2, 3, 2), (3, 2, 2), (2, 3, 3), (3, 2, 3)): out.append(s2('logic', 'TEST', OPC=op, K1=k1, K2=k2, WRAP=w))
    for f in 'index member deref addr ternary'.split(): arith(f); both(f)
    for v in (0, 5, 90210): arith('negnum', OUT2=v); both('negnum', OUT2=v)
    for op in 'INTEGER INTEGER_HEX INTEGER_OCT'.split():
        for v in (0, 8, 90210): out.append(s2('leaf', 'ARITH', 'thorough' if v == 8 else 'quick', OPC=op, OUT2=v, OUT="'-'")); both('leaf', OPC=op, OUT2=v)
    for op in 'CHARACTER IDENTIFIER_INTERNAL IDENTIFIER_STRING IDENTIFIER IDENTIFIER_DOLLAR'.split(): out.append(s2('leaf', 'ARITH', OPC=op, OUT="'-'")); both('leaf', OPC=op)
    for op in "STRUCT_KW INT_KW CHAR_KW '*' ENUM_KW".split(): out.append(s2('sizeof', 'ARITH', OPC=op, OUT="'-'")); both('sizeof', OPC=op)
    return out

def s2b(name, f, replace, rec=False, enforce=None, ls='11', t='quick', replay='program', **d):
    return O(name, 'shside.c', 'sh', function=f,  enforce=f if rec else None, rec=rec, replace=replace.split() + ['fatal_error'], native=False, replay=X.random_replay(replay, 'shconds', 'shmem'), timeout=90, unwind=160, unwindset=DFCCU, cbmc=SMAX, bounded=d.pop('bounded', None), tier=t,
             defs=['-DHEAP_SIZE=150', '-DSTRING_POOL_SIZE=20', '-DTEXT_POOL_SIZE=90', '-DGLO_DECL_SIZE=90', '-DVF_OUT_MAX=60', '-DLS="%s"' % ls] + ['-D%s=%s' % kv for kv in d.items()])
def s2side():
    out = []; n = 0
    def side(name, ls=('11',), **d):
        nonlocal n
        for l in ls:
            for c in (0, 1):
                n += 1; out.append(s2b(name, 'handle_side_effects_go', 'handle_fun_call_side_effect', rec=True, ls=l, t='quick' if name not in ('leaf', 'unary', 'binary') or (n // 2 + n) % 2 and l == '11' else 'thorough', COND=c, PRV=(n + 1) % 4 if l != '11' else 3, **d))
    for op in 'IDENTIFIER IDENTIFIER_INTERNAL IDENTIFIER_STRING IDENTIFIER_DOLLAR CHARACTER INTEGER INTEGER_HEX INTEGER_OCT'.split(): side('leaf', OPC=op)
    side('string')
    for op in "'&' '*' '+' '-' '~' '!' PARENS PLUS_PLUS_PRE MINUS_MINUS_PRE PLUS_PLUS_POST MINUS_MINUS_POST".split(): side('unary', OPC=op)
    side('sizeof'); side('cast'); side('call')
    for op in "'&' '|' '<' '>' '+' '-' '*' '/' '%' '^' ',' EQ_EQ EXCL_EQ LT_EQ GT_EQ LSHIFT RSHIFT '[' '.' ARROW AMP_EQ BAR_EQ CARET_EQ LSHIFT_EQ MINUS_EQ PERCENT_EQ PLUS_EQ RSHIFT_EQ SLASH_EQ STAR_EQ '='".split(): side('binary', ls=('11', '01', '10') if op in ("'+'", "'='", "'['", 'PLUS_EQ') else ('11',), OPC=op)
    side('binary', OPC="'='", K=1)
    for k in (0, 1, 2, 3): side('assigncall', K=k)
    for op in ('AMP_AMP', 'BAR_BAR'): side('logic', ls=('11', '01', '10', '00'), OPC=op); side('again', OPC=op)
    side('ternary', ls=('100', '000', '110', '101'))
    out.append(s2b('all', 'handle_side_effects', 'handle_side_effects_go')); out.append(s2b('all', 'handle_side_effects', 'handle_side_effects_go', ls='00'))
    for c in 'BASE ARITH_EXPANSION TEST TEST_ELSEIF'.split():
        for k in (0, 1, 2):
            for m in (0, 1, 2): out.append(s2b('rvalue', 'comp_rvalue', 'handle_side_effects comp_fun_call comp_defstr comp_rvalue_go', t='quick' if k == 2 or m == 2 and c == 'BASE' else 'thorough', CTX='RVALUE_CTX_' + c, N=m, K=k))
    for k in (0, 1):
        for op in "'[' '*' ARROW CAST PARENS".split() + ([] if k else 'IDENTIFIER IDENTIFIER_INTERNAL IDENTIFIER_STRING IDENTIFIER_EMPTY IDENTIFIER_DOLLAR'.split()): out.append(s2b('lvalue', 'comp_lvalue_address' if k else 'comp_lvalue', 'comp_rvalue env_var_with_prefix struct_member_var', rec=True, OPC=op, K=k))
    return out
PROPS['S02'] = dict(obligations=s2list() + s2side(), e2e=[('shell_programs', X.random_programs(('sh',), 60, 800)), ('shell_expressions', X.random_programs(('sh',), 200, 3000, gen='shexprs')), ('shell_memory', X.random_programs(('sh',), 100, 2000, gen='shmem')), ('shell_side_effects', X.random_programs(('sh',), 100, 2000, gen='shconds')), ('lvalue_grouping', X.fixed_cases(X.LVALUE_GROUPING))])

def s1(name, f, replace=(), rec=False, enforce=False, loops=None, solver=None, unwind=12, defs=(), **kw):
    return O(name, 'shtext.c', 'sh', function=f, enforce=f if enforce else None, rec=rec, replace=list(replace) + ['fatal_error'], native=name == 'char', replay=X.random_replay('strings', 'literalsx'), loops=loops, solver=solver, timeout=120, unwind=unwind, unwindset=DFCCU,
             cbmc=[] if loops else SMAX, defs=['-DHEAP_SIZE=60', '-DSTRING_POOL_SIZE=20', '-DTEXT_POOL_SIZE=60'] + list(defs), **kw)
S1 = [s1('char', 'print_escaped_char'),
  s1('dec', 'putint_aux', ['vf_putchar'], rec=True, enforce=True, solver='z3,cvc5'), s1('hex', 'puthex_unsigned', ['vf_putchar'], rec=True, enforce=True, solver='z3,cvc5'), s1('oct', 'putoct_unsigned', ['vf_putchar'], rec=True, enforce=True, solver='z3,cvc5'),
  s1('signed', 'putint', ['vf_putchar', 'putint_aux']),
  s1('string', 'print_escaped_string', ['print_escaped_char'], loops={'print_escaped_string': [(n, 'string_start, g_cnt, g_ch', 'g_cnt >= 0 && g_cnt <= 15 && __CPROVER_same_object(string_start, g_s) && string_start == g_s + g_cnt && ' + b + ' && (g_k < g_cnt ? g_ch == g_s[g_k] : 1)', ['string_start', 'string_end']) for n, b in ((0, 'string_start <= string_end'), (1, 'g_cnt <= g_z'))]})]
S1 += [s1('tree', 'print_text' if k < 9 else 'wrap_integer', 'putint puthex_unsigned putoct_unsigned putstr print_escaped_string print_escaped_char'.split(), defs=['-DNP=%d' % k]) for k in range(12)]
PROPS['S01'] = dict(obligations=S1, e2e=[('string_programs', X.random_programs(('sh',), 40, 800, gen='strings')), ('literals_of_all_sizes', X.random_programs(('sh',), 60, 1500, gen='literalsx'))])

def s3(name, f, replace, rec=False, defs=(), **d):
    return O(name, 'shstmt.c', 'sh', function=f, enforce=f if rec else None, rec=rec, replace=replace.split() + ['fatal_error'], native=False, replay=X.random_replay('shstmts', 'shdeep'), timeout=90, unwind=160, unwindset=DFCCU, cbmc=SMAX, bounded=d.pop('bounded', None),
             defs=['-DHEAP_SIZE=150', '-DSTRING_POOL_SIZE=20', '-DTEXT_POOL_SIZE=90', '-DGLO_DECL_SIZE=90', '-DVF_OUT_MAX=150'] + ['-D%s=%s' % (k, '"%s"' % v if isinstance(v, str) and k in ('TM', 'EM', 'ENV', 'SHAPE') else v) for k, v in d.items()] + list(defs))
def s3list():
    out = []
    def I(**d): out.append(s3('if', 'comp_if', 'comp_statement comp_rvalue', True, **d))
    for ei in (0, 1):
        for el in (0, 1, 2):
            I(CTX=ei, ELSE=el); I(CTX=ei, ELSE=el, EM='00111', TAIL=1, PRE1=1 - ei)
    for el in (0, 1, 2): I(CTX=2, ELSE=el, TM='11000' if el else '00000', TAIL=1); I(CTX=2, ELSE=el, TM='10000'); I(CTX=2, ELSE=el, TM='01000', NULL1=1) if el else I(CTX=2, ELSE=el, NULL1=1)
    I(CTX=3, ELSE=1, TM='01000'); I(CTX=3, ELSE=1, TM='11000'); I(CTX=0, ELSE=1, TM='10000'); I(CTX=0, ELSE=1, NULL1=1, EM='01111')
    def L(**d): out.append(s3('loop', 'comp_loop', 'comp_statement', False, **d))
    for c in (0, 1, 2):
        for e in (0, 1, 2): L(COND=c, END=e, TM='10000', CTX=2 if e == 1 else 0)
    L(COND=2, TM='10000', BRK=1); L(COND=2, TM='10000', END=1, BRK=1, TAIL=1); L(COND=2, NULL1=1); L(COND=1, NULL1=1); L(COND=1, NULL1=1, END=1); L(COND=1, EM='01111', END=1, TAIL=1); L(COND=1, EM='00111', END=1); L(COND=1, EM='00111', END=2); L(COND=2, TM='00000')
    ENVS = ' L S s LL Ls LS sL SL LLL LSL vLv LvSv LLs LsLS sv'.split(' ')
    for e in ENVS:
        out.append(s3('break', 'comp_break', '', ENV=e)); out.append(s3('continue', 'comp_continue', '', ENV=e, K=len(e) % 4))
        for t in (0, 1): out.append(s3('return', 'comp_return', 'comp_rvalue comp_fun_call', ENV=e, TAIL=t, K=(len(e) + t) % 3, PRE1=t))
    for k in (0, 1, 2): out.append(s3('return', 'comp_return', 'comp_rvalue comp_fun_call', ENV='L', TAIL=0, K=k))
    for n, t in ((0, '00000'), (1, '00000'), (1, '10000'), (2, '00000'), (2, '10000'), (3, '00000'), (3, '01000'), (3, '00100')):
        for tl in (0, 1): out.append(s3('body', 'comp_body', 'comp_statement', TAIL=tl, NST=n, TM=t, CTX=2 * tl, EM='10111' if n == 3 else '11111'))
    for sh, t in (('c', '10000'), ('c', '00000'), ('d', '10000'), ('cd', '11000'), ('dc', '11000'), ('cc', '11000'), ('cscsd', '01011'), ('csd', '01000'), ('dsc', '01100'), ('cDc', '11100'), ('Ec', '11000'), ('Cd', '11000'), ('dC', '11000'), ('csss', '00000'), ('cdcs', '11000'), ('dscs', '01010'), ('cssd', '00110')):
        out.append(s3('switch', 'comp_switch', 'comp_statement comp_rvalue', SHAPE=sh, TM=t, TAIL=len(sh) % 2, PRE1=0))
    out.append(s3('switch', 'comp_switch', 'comp_statement comp_rvalue', SHAPE='c', TM='10000', K=9))
    ST = "comp_rvalue comp_if comp_loop comp_switch comp_break comp_continue comp_return comp_body comp_assignment comp_var_decls comp_fun_call"
    for op in "0 IF_KW WHILE_KW DO_KW SWITCH_KW BREAK_KW CONTINUE_KW RETURN_KW '(' '{' '=' ':' DECLS IDENTIFIER_INTERNAL GOTO_KW CASE_KW DEFAULT_KW".split():
        for c, t in ((0, '00000'), (2, '11111')): out.append(s3('stmt', 'comp_statement', ST, True, OPC=op, CTX=c, TM=t, K=c // 2, PRE1=c // 2))
    for c in (0, 1):
        for e in (0, 1): out.append(s3('stmt', 'comp_statement', ST, True, OPC='FOR_KW', COND=c, END=e, PRE1=e, CTX=2 * c))
    for op in "IDENTIFIER '*' '[' ARROW".split():
        for k in (0, 2): out.append(s3('assignment', 'comp_assignment', 'comp_rvalue comp_lvalue comp_fun_call', OPC=op, K=k, PRE1=1 - k // 2))
    for op in "WHILE_KW IF_KW '{' RETURN_KW DO_KW SWITCH_KW '='".split(): out.append(s3('switch', 'comp_switch', 'comp_statement comp_rvalue', SHAPE='cscsd', TM='01011', TAIL=1, PRE1=0, SOP=op))
    for op in "WHILE_KW IF_KW '{'".split(): out.append(s3('body', 'comp_body', 'comp_statement', TAIL=1, NST=3, TM='00000', CTX=2, SOP=op)); out.append(s3('loop', 'comp_loop', 'comp_statement', COND=1, END=1, TM='00000', TAIL=1, SOP=op))
    for e in ('LLLL', 'LLLLL', 'LLsLvLL', 'LLLLLLLLL'): out.append(s3('return', 'comp_return', 'comp_rvalue comp_fun_call', ENV=e, TAIL=1, K=0))
    for k, f in enumerate(['undo_glo_decls', 'replay_glo_decls', 'any_active_glo_decls']):
        for a, b in ((0, 4), (1, 3), (2, 2), (3, 4)): out.append(s3('lines', f, '', K=k, S0=a, E0=b, bounded='4 lines'))
    return out
def s4list():
    out = []
    for c in (0, 1):
        for k in (0, 1):
            for m, l in ((0, '0'), (1, '1'), (2, '11'), (3, '101'), (3, '111')): out.append(s2b('funcall', 'handle_fun_call_side_effect', 'handle_side_effects_go', ls=l, replay='shfuns', N=m, K=k, COND=c, PRV=(m + k) % 4))
    for m in (0, 1, 2, 3): out.append(s2b('params', 'fun_call_params', 'comp_rvalue', replay='shfuns', N=m, bounded='calls with %d arguments' % m))
    for op in range(6):
        for k in (0, 1):
            for m in (1, 2): out.append(s2b('callcode', 'comp_fun_call_code', 'comp_rvalue comp_lvalue fun_call_params comp_putchar_inline printf_call handle_printf_call', replay='shfuns', OPC=op, K=k, N=m))
    for op, v in (('0', 1), ('IDENTIFIER', 1), ('CHARACTER', 10), ('CHARACTER', 200), ('CHARACTER', 127), ('CHARACTER', 32), ('CHARACTER', 126), ('CHARACTER', 65)):
        for k in (0, 1): out.append(s2b('putchar', 'comp_putchar_inline', 'comp_rvalue env_var_with_prefix', replay='shfuns', OPC=op, K=k, N=v))
    return out
def s4f(name, f, replace, bounded=None, tier='quick', **d):
    return O(name, 'shfun.c', 'sh', function=f, replace=replace.split() + ['fatal_error'], native=False, replay=X.random_replay('shfuns', 'shconds'), timeout=90, unwind=160, unwindset=DFCCU, cbmc=SMAX, bounded=bounded, tier=tier,
             defs=['-DHEAP_SIZE=150', '-DSTRING_POOL_SIZE=24', '-DTEXT_POOL_SIZE=%d' % (240 if name == 'saverest' else 150), '-DGLO_DECL_SIZE=90', '-DVF_OUT_MAX=120'] + ['-D%s=%s' % (k, '"%s"' % v if k == 'KD' else v) for k, v in d.items()])
def s4funs():
    out = []; P = 'putint puthex_unsigned putoct_unsigned '
    for op in 'IDENTIFIER_INTERNAL IDENTIFIER_STRING IDENTIFIER_DOLLAR IDENTIFIER_EMPTY'.split():
        for k in (0, 1):
            for n in (1, 9, 10, 12) if op == 'IDENTIFIER_DOLLAR' else (7,): out.append(s4f('special', 'format_special_var', P, OPC=op, K=k, N=n))
    for k in (0, 1, 2, 3): out.append(s4f('var', 'env_var_with_prefix', P, K=k)); out.append(s4f('names', ['struct_member_var', 'struct_sizeof_var', 'function_name', 'global_var'][k], P, K=k)); out.append(s4f('addvar', 'add_var_to_local_env', '', K=k))
    for k in range(6): out.append(s4f('safe', 'assert_var_decl_is_safe', '', K=k))
    for kd in ('', 'P', 'V', 'PV', 'PPV', 'VV'):
        for n in (0, 1, 2) if len(kd) < 2 else (2,): out.append(s4f('saverest', 'save_local_vars', '', bounded='%d variables, %d temporaries' % (len(kd), n), tier='thorough' if len(kd) > 2 else 'quick', KD=kd, N=n))
    F = 'check_decls add_fun_params_to_local_env let_params comp_body save_local_vars restore_local_vars'
    for k in (0, 1, 2, 3, 7, 15):
        for op in (0, 1, 2):
            for n in (0, 2): out.append(s4f('fun', 'comp_glo_fun_decl', F, K=k, OPC=op, N=n))
    out.append(s4f('fun', 'comp_glo_fun_decl', F, K=16, OPC=0, N=2))
    for kd in ('', 'I', 'V', 'IV', 'VI', 'II', 'IVI'): out.append(s4f('locals', 'comp_var_decls', 'assert_var_decl_is_safe add_var_to_local_env comp_assignment', KD=kd, OPC=0, bounded='%d declarators' % len(kd)))
    for op in ('STATIC_KW', 'EXTERN_KW', 'AUTO_KW', 'REGISTER_KW'): out.append(s4f('locals', 'comp_var_decls', 'assert_var_decl_is_safe add_var_to_local_env comp_assignment', KD='I', OPC=op))
    for k in range(10): out.append(s4f('global', 'comp_glo_var_decl', P + 'assert_var_decl_is_safe comp_assignment comp_defstr comp_initializer_list env_var_with_prefix runtime_defarr', K=k, N=5))
    out.append(s4f('global', 'comp_glo_var_decl', P + 'assert_var_decl_is_safe comp_assignment comp_defstr comp_initializer_list env_var_with_prefix runtime_defarr', K=2, N=0))
    for k in (0, 1):
        for n in (0, 1, 3): out.append(s4f('enum', 'comp_enum_cases', 'env_var_with_prefix comp_rvalue', K=k, N=n, bounded='%d enumerators' % n)); out.append(s4f('struct', 'comp_struct', '', K=k, N=n, bounded='%d members' % n))
    for op in ("'['", 'STRUCT_KW', "'*'"): out.append(s4f('struct', 'comp_struct', '', K=1, N=1, OPC=op))
    for k in (0, 1):
        for n in (0, 1): out.append(s4f('defstr', 'comp_defstr', P + 'print_escaped_string env_var_with_prefix runtime_defstr', K=k, N=n))
    for kd in ('', 'i', 'x', 'o', 'c', 's', 'is', 'si', 'cx', 'oci'): out.append(s4f('init', 'comp_initializer_list', P + 'comp_defstr', KD=kd, bounded='%d initializers' % len(kd)))
    return out
PROPS['S04'] = dict(obligations=s4list() + s4funs(), e2e=[('shell_functions', X.random_programs(('sh',), 40, 800, gen='shfuns')), ('shell_calls_in_tests', X.random_programs(('sh',), 200, 3000, gen='shconds'))])

PROPS['S03'] = dict(obligations=s3list(), e2e=[('shell_statements', X.random_programs(('sh',), 60, 900, gen='shstmts')), ('shell_nested_exits', X.random_programs(('sh',), 200, 3000, gen='shdeep'))])
