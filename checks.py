"""Which harnesses decide which property, and their bounds"""

ASSUMPTIONS = [
    'Kani 0.68.0 / CBMC 6.11.0 with CaDiCaL translate and decide the compiled MIR faithfully',
    'allocation does not fail; the harnesses named in bounds (except vec::*) serve allocations from typed static '
    'storage in place of the heap, reallocation keeps the address',
    'panics end the execution (no unwinding past them)',
    'the generic code is checked for the concrete index, generation, key and value types of the harnesses',
]

# spec keys: cost (expected seconds, for scheduling), mem (expected GB), timeout, limit_gb, unwind, features,
# expect_panic, witness, scope
SPECS = {}
PROPERTIES = {}


def spec(name, **kw):
    SPECS.setdefault(name, {}).update(kw)


def prop(pid, quick, thorough=(), outside='', assumptions=()):
    PROPERTIES[pid] = dict(quick=quick, thorough=list(thorough), outside=outside, assumptions=list(assumptions))


def harnesses_for(pid, tier):
    p = PROPERTIES[pid]
    names = list(p['quick']) + (list(p['thorough']) if tier == 'thorough' else [])
    return {n: dict(SPECS.get(n, {})) for n in names}


def names(module, text):
    return ['%s::%s' % (module, n) for n in text.split()]


ARENA = names('arena', '''
    arena_fresh arena_try_insert_1 arena_try_insert_4 arena_try_insert_with_4 arena_insert_0 arena_insert_1
    arena_insert_3 arena_insert_with_0 arena_insert_with_3 arena_reserve_0 arena_reserve_3 arena_remove_1
    arena_remove_4 arena_remove_by_4 arena_invalidate_4 arena_replace_keep_4 arena_replace_update_4 arena_swap_4
    arena_access_4 arena_clear_4 arena_clear_shrink_4''')
ARENA_ITER = names('arena_iter', '''
    arena_advancer_4 arena_ptrs_4 arena_vals_4 arena_iter_4 arena_iter_ref_4 arena_vals_mut_4 arena_iter_mut_4
    arena_iter_mut_ref_4 arena_advancer_mut_3 arena_drain_4 arena_into_iter_4 arena_capacity_drain_4
    arena_from_iter_4''')
ARENA_COMPRESS = names('arena_iter', 'arena_compress_4 arena_compress_plain_4 arena_recaster_4 arena_recast_arena_3 arena_recast_4')
ARENA_CLONE = names('arena_iter', '''
    arena_clone_4 arena_clone_from_4_2 arena_clone_from_3_3 arena_clone_from_2_4 arena_clone_from_with_4_2
    arena_clone_from_with_3_3 arena_clone_from_with_2_4 arena_clone_source_4''')
ARENA_EQ = names('arena_iter', 'arena_eq_3_3 arena_eq_2_3 arena_eq_3_2')
ARENA_GEN = names('arena_iter', 'arena_gen_overflow_3')
LIMIT = names('limit', '''
    limit_insert_0 limit_insert_1 limit_insert_2 limit_insert_3 limit_insert_beyond limit_reserve_beyond_2
    limit_reserve_0 limit_reserve_2 limit_clear_3 limit_clear_shrink_3 limit_drain_3 limit_remove_by_3
    limit_clone_from_3_1 limit_clone_from_1_3 limit_clone_from_with_1_3 limit_compress_3 limit_remove_3''')
for n in ARENA_GEN + names('limit', 'limit_insert_beyond limit_reserve_beyond_2'):
    spec(n, expect_panic=True)

OWN = names('own', '''
    own_drop_4 own_remove_4 own_remove_by_4 own_replace_keep_4 own_replace_update_4 own_try_insert_4
    own_try_insert_with_4 own_insert_3 own_insert_with_3 own_swap_4 own_invalidate_4 own_compress_4 own_reserve_4
    own_clear_4 own_clear_shrink_4 own_drain_4 own_capacity_drain_4 own_clone_3 own_clone_from_3_2 own_clone_from_2_3
    own_clone_from_with_3_2 own_clone_from_with_2_3''')
VEC = names('vec', '''
    vec_ops_0 vec_ops_2 vec_ops_shrunk_1 vec_ops_shrunk_2 vec_ops_shrunk_3 vec_ops_shrunk_4 vec_clone_0 vec_clone_2
    vec_clone_shrunk_3 vec_nziter vec_reserve_overflow''')
spec('vec::vec_reserve_overflow', expect_panic=True)

CHAIN_OPS = '''
    insert_0 insert_3 insert_with_2 insert_new_3 insert_start_3 insert_end_3 access_3 remove_4 invalidate_4
    replace_update_4 replace_keep_4 swap_4 connect_4 break_prev_4 break_next_4 exchange_next_4 clear_4
    clear_shrink_4 reserve_2 from_arena_4'''
CHAIN_TRAVERSE = 'remove_chain_4 advancer_chain_4 iter_chain_4'
CHAIN_ITER = '''
    advancer_4 ptrs_4 iter_4 iter_ref_4 iter_mut_4 iter_mut_ref_4 vals_4 vals_mut_4 drain_3 into_iter_4
    capacity_drain_4 from_iter_4'''
CHAIN_COMPRESS = 'compress_one_3_3 compress_many_3_3 compress_one_3_2 compress_many_3_2 compress_3_1 compress_3_0 ' \
    'compress_plain_one compress_plain_many recaster_one recaster_many'
CHAIN_CLONE = '''
    clone_3 clone_from_3_2 clone_from_2_3 clone_from_with_3_2 clone_from_with_2_3 to_arena_3_0 to_arena_2_4'''
CHAIN_EQ = 'eq_3_3 eq_2_3'


def both(*texts):
    text = ' '.join(texts)
    return names('chain::g', text) + names('chain::n', text)


NCHAIN = names('chain::n::extra', 'nchain_to_chain_3_0 nchain_to_chain_2_3')
for n in both('gen_overflow_3'):
    spec(n, expect_panic=True)
for v, b in (('plain_one', (2, 2)), ('plain_many', (3, 1)), ('one_3_3', (2, 3)), ('many_3_3', (4, 2)), ('one_3_2', (2, 2)), ('many_3_2', (3, 1)), ('3_1', (2, 1)),
             ('3_0', (1, 1))):
    for n in both('compress_' + v):
        spec(n, loops={'compress_and_shrink_with': b})
for n in both('recaster_one'):
    spec(n, loops={'compress_and_shrink_with': (2, 2)})
for n in both('recaster_many'):
    spec(n, loops={'compress_and_shrink_with': (3, 1)})

SURJ_OPS = names('surject', '''
    insert_0 insert_with_0 insert_2 insert_with_2 insert_key_2 insert_key_with_2 access_3 access2_3 remove_key_3
    remove_key_ex_2 remove_3 remove_ex_2 invalidate_3 clear_2 clear_shrink_2 reserve_2''')
SURJ_UNION = names('surject', 'union_4 swap_keys_3 swap_vals_3 advancer_surject_4 iter_surject_4')
SURJ_ITER = names('surject', 'advancer_3 ptrs_3 keys_3 keys_mut_3 iter_3 iter_ref_3 vals_3 vals_mut_3')
SURJ_CLONE = names('surject', '''
    clone_3 clone_from_3_2 clone_from_2_3 clone_from_with_3_2 clone_from_with_2_3 keys_to_arena_3 keys_to_chain_3
    keys_to_chain_no_gen_3''')
SURJ_EQ = names('surject', 'eq_3_3 eq_2_3')
SURJ_COMPRESS = names('surject', '''
    compress_one_2_2 compress_many_2_2 compress_2_1 compress_2_0 compress_plain_one compress_plain_many recaster_one
    recaster_many''')
SURJ_COMPRESS_T = names('surject', 'compress_one_3_3 compress_many_3_3')
spec('surject::gen_overflow_3', expect_panic=True)
for v, b in (('compress_plain_one', (2, 2)), ('compress_plain_many', (3, 1)), ('compress_one_3_3', (2, 3)),
             ('compress_many_3_3', (4, 2)), ('compress_one_2_2', (2, 2)), ('compress_many_2_2', (3, 1)),
             ('compress_2_1', (2, 1)), ('compress_2_0', (1, 1)), ('recaster_one', (2, 2)), ('recaster_many', (3, 1))):
    spec('surject::' + v, loops={'ChainNoGenArena::<arena::P, triple_arena::utils::Key': b})

ORD_FIND = names('ord::u', '''
    find_key_7 find_similar_7 find_with_7 find_similar_with_7 find_linear_5 find_similar_linear_5''') + names('ord::g', '''
    find_key_0 find_similar_0 find_with_0 find_similar_with_0 find_linear_0 find_similar_linear_0 find_key_3
    find_similar_3 find_with_3 find_similar_with_3 find_linear_3 find_similar_linear_3''')
ORD_INSERT = names('ord::u', 'insert_5 insert_nonhereditary_5 insert_manual_5 insert_7') + names('ord::g', '''
    insert_0 insert_1 insert_2 insert_3 insert_full_2 insert_nonhereditary_0 insert_nonhereditary_3 insert_linear_0
    insert_linear_3 insert_nonhereditary_linear_0 insert_nonhereditary_linear_3 insert_manual_3 insert_empty_0
    insert_empty_1 fresh_2 from_iter_0 from_iter_1 from_iter_2 reserve_2''')
ORD_VALUES = names('ord::g', '''
    access_3 access2_3 invalidate_3 replace_keep_3 replace_update_3 swap_vals_3 clear_3 clear_shrink_3''')
ORD_REMOVE = names('ord::u', 'remove_5 remove_7') + names('ord::g', 'remove_1 remove_2 remove_3 remove_4')
ORD_ITER = names('ord::g', '''
    advancer_0 advancer_3 advancer_from_3 ptrs_3 keys_3 vals_3 vals_mut_3 iter_3 iter_ref_3 advancer_remove_2''')
ORD_DRAIN = names('ord::g', 'drain_2 drain_1_0 drain_3_0 drain_3_1 capacity_drain_2_1 capacity_drain_1 into_iter_1') + \
    names('own_more::od', 'drain_3_3 capacity_drain_3_1 capacity_drain_3_3 into_iter_3_3')
ORD_DRAIN_T = names('ord::g', 'drain_2_1 capacity_drain_2 drain_3 capacity_drain_3 advancer_remove_3')
ORD_CLONE = names('ord::g', '''
    clone_3 clone_0 clone_source_3 clone_from_3_1 clone_from_1_3 clone_from_0_2 clone_from_2_0 clone_from_with_3_1
    clone_from_with_1_3 clone_from_with_0_2 clone_from_with_2_0 to_chain_3 to_arena_3''')
ORD_EQ = names('ord::g', '''
    eq_2_2 eq_2_1 eq_1_2 eq_0_1 cmp_2_2 cmp_2_1 cmp_1_2 cmp_0_1 partial_cmp_2_2 partial_cmp_2_1 partial_cmp_1_2''')
ORD_COMPRESS = names('ord::g', 'compress_0 compress_1 compress_2 compress_3 compress_plain_3 recaster_3') + \
    names('ord::u', ' '.join('compress_%d' % n for n in range(4, 17)))
ORD_BALANCE = names('ord::u', 'insert_5 insert_7 insert_9 insert_nonhereditary_7 remove_5 remove_7 remove_9')
ORD_BALANCE_T = names('ord::u', 'insert_11 remove_11 insert_13 remove_13')
ORD_STALE = names('ord::g', '''
    access_3 invalidate_3 replace_keep_3 replace_update_3 swap_vals_3 clear_3 clear_shrink_3 insert_3 remove_3
    advancer_from_3 drain_2 compress_3''')
spec('ord::g::gen_overflow_2', expect_panic=True)

CHAIN_STALE = 'insert_3 access_3 remove_4 invalidate_4 replace_update_4 replace_keep_4 swap_4 clear_4 clear_shrink_4 ' \
    'remove_chain_4 connect_4 exchange_next_4 drain_3 compress_one_3_2 compress_many_3_2'
SURJ_STALE = names('surject', '''
    insert_2 insert_key_2 access_3 remove_key_3 remove_3 invalidate_3 union_4 swap_keys_3 swap_vals_3 clear_2
    clear_shrink_2 compress_one_2_2 compress_many_2_2''')

PTR = names('ptr', '''
    inx_u8 inx_u16 inx_u32 inx_u64 inx_usize inx_u128 gen_u8 gen_u16 gen_u32 gen_u64 gen_u128 panic_u8 panic_u16
    panic_u32 panic_u64 panic_u128 ptr_default ptr_i8 ptr_g8 ptr_i16_g32 ptr_i32_g16 ptr_i64_g64 ptr_i128_g128
    ptr_several ptr_unit_gen''')
PTR_SERDE = [n.replace('ptr::', 'ptr_serde::') for n in PTR]
for n in PTR_SERDE:
    spec(n, features='serde')
for n in PTR + PTR_SERDE:
    if '::panic' in n:
        spec(n, expect_panic=True)

SERDE = names('sd', '''
    sd_pointers sd_arena_ser_3 sd_arena_de_0 sd_arena_de_3 sd_arena_de_hint_3 sd_chain_ser_3 sd_nchain_ser_3 sd_chain_de_0
    sd_nchain_de_0 sd_chain_de_2 sd_nchain_de_2 sd_surject_ser_2 sd_surject_de_0 sd_surject_de_1 sd_surject_de_2_1
    sd_surject_de_2_2 sd_ord_ser_0 sd_ord_ser_3 sd_ord_de_0 sd_ord_de_1 sd_ord_de_2 sd_ord_de_3 sd_ord_de_8 sd_ord_de_11''')
SERDE_T = names('sd', 'sd_surject_de_3_1')
for n in SERDE + SERDE_T:
    spec(n, features='serde')

TRAIT = names('arena', 'tr_insert_2 tr_remove_3 tr_clear_3 tr_clear_shrink_3 tr_access_3') + \
    both('tr_insert_2 tr_remove_3 tr_clear_3 tr_clear_shrink_3 tr_access_3') + \
    names('surject', 'tr_insert_2 tr_remove_3 tr_clear_2 tr_clear_shrink_2 tr_access_3') + \
    names('ord::g', 'tr_insert_1 tr_remove_1 tr_clear_2 tr_clear_shrink_2 tr_access_2')



def minus(a, *texts):
    drop = set(x for t in texts for x in t)
    return [x for x in a if x not in drop]


SURJ_COMPRESS_2 = names('surject', 'compress_plain_one recaster_one')
SURJ_COMPRESS_1 = minus(SURJ_COMPRESS, SURJ_COMPRESS_2)
CHAIN_LINKS = both(CHAIN_OPS, CHAIN_TRAVERSE, 'drain_3 from_iter_4', """
    compress_one_3_2 compress_many_3_2 compress_3_1 compress_3_0 compress_plain_one compress_plain_many clone_3
    clone_from_with_3_2 clone_from_with_2_3 to_arena_3_0 to_arena_2_4""") + NCHAIN
CHAIN_ALL = both(CHAIN_OPS, CHAIN_TRAVERSE, CHAIN_COMPRESS, CHAIN_CLONE, CHAIN_ITER)
SURJ_STATE = SURJ_OPS + SURJ_UNION + SURJ_ITER + names('surject', """
    clone_3 clone_from_with_3_2 clone_from_with_2_3 compress_2_1""")
ORD_COMPRESS_U = [n for n in ORD_COMPRESS if n.startswith('ord::u')]
ORD_COMPRESS_G = names('ord::g', 'compress_1 compress_2 compress_3')
STALE_SLOW = names('surject', 'compress_one_2_2 compress_many_2_2') + names('ord::g', 'drain_2')

prop('P01', ARENA + ARENA_ITER + ARENA_COMPRESS + ARENA_CLONE + ARENA_GEN + both(CHAIN_STALE, 'gen_overflow_3') +
     minus(SURJ_STALE, STALE_SLOW) + ['surject::gen_overflow_3'] + minus(ORD_STALE, STALE_SLOW) +
     ['ord::g::gen_overflow_2'], STALE_SLOW)
prop('P02', ARENA)
prop('P03', ARENA + ARENA_ITER + ARENA_COMPRESS + ARENA_CLONE + LIMIT)
prop('P04', VEC)
OWN_CHAIN = '''
    remove_path remove_both remove_chain_path remove_chain_cycle remove_chain_both replace_keep replace_update
    insert_path insert_cycle insert_both insert_start_path insert_start_cycle insert_end_path insert_end_cycle
    swap_path invalidate_path connect_path exchange_next_path break_prev_path clear_path clear_shrink_path
    compress_two compress_path compress_cycle compress_both drain_path capacity_drain_path reserve_path clone_new clone_from clone_from_with'''
OWN_MORE = names('own_more::cg', OWN_CHAIN) + names('own_more::cn', OWN_CHAIN) + names('own_more::su', '''
    remove_key_1 remove_key_2 remove_key_3 remove_1 remove_2 remove_3 union_1 union_2 union_3 insert_key_1
    insert_key_2 insert_key_with_2 insert_2 insert_with_2 invalidate_2 swap_keys_2 swap_vals_2 clear_2
    clear_shrink_2 compress_1 compress_2 compress_3 clone_new clone_from clone_from_with''') + names('own_more::od', '''
    insert_3 insert_nonhereditary_3 insert_linear_3 insert_nonhereditary_linear_3 insert_empty_3 remove_3
    replace_keep_3 replace_update_3 invalidate_3 swap_vals_3 clear_3 clear_shrink_3 compress_3 drain_3_0 drain_3_1
    drain_3_3 capacity_drain_3_0 capacity_drain_3_1 capacity_drain_3_3 into_iter_3_0 into_iter_3_1 into_iter_3_3 clone_new clone_from clone_from_with''')
for v, b in (('two', (2, 2)), ('path', (2, 3)), ('cycle', (2, 3)), ('both', (3, 2))):
    for m in ('cg', 'cn'):
        spec('own_more::%s::compress_%s' % (m, v), loops={'compress_and_shrink_with': b})
for v, b in (('1', (2, 3)), ('2', (3, 2)), ('3', (4, 1))):
    spec('own_more::su::compress_' + v, loops={'ChainNoGenArena::<arena::P, triple_arena::utils::Key': b})
OWN_SLOW = names('own_more::cg', 'compress_path compress_cycle compress_both')
prop('P05', OWN + minus(OWN_MORE, OWN_SLOW), OWN_SLOW)
ORD_SLOW = names('ord::g', 'drain_2 into_iter_1 capacity_drain_1 advancer_remove_2')
prop('P06', ARENA_ITER + both(CHAIN_ITER) + SURJ_ITER + minus(ORD_ITER, ORD_SLOW) + minus(ORD_DRAIN, ORD_SLOW), ORD_SLOW + ORD_DRAIN_T)
RECAST = both('recast_4') + names('chain::g::link', 'link_recast') + names('surject', 'recast_3') + \
    names('ord::g', 'recast_3')
COMPRESS_SLOW = both('compress_many_3_3') + names('chain::n', 'compress_one_3_3') + names('surject', 'compress_one_2_2')
prop('P07', minus(RECAST + ARENA_COMPRESS + both(CHAIN_COMPRESS) + SURJ_COMPRESS_1 + ORD_COMPRESS, COMPRESS_SLOW),
     COMPRESS_SLOW + SURJ_COMPRESS_2 + SURJ_COMPRESS_T)
prop('P08', ARENA_CLONE + both(CHAIN_CLONE) + NCHAIN + SURJ_CLONE + ORD_CLONE)
prop('P09', ARENA_EQ + both(CHAIN_EQ) + SURJ_EQ + ORD_EQ)
CHAIN_LINKS_Q = minus(CHAIN_LINKS, both('clone_from_with_3_2 reserve_2 clone_3'))
prop('P10', CHAIN_LINKS_Q, minus(CHAIN_ALL, CHAIN_LINKS_Q))
prop('P11', both(CHAIN_OPS, CHAIN_TRAVERSE))
CHAIN_ITER_Q = both('advancer_4 iter_4 iter_mut_4 vals_mut_4')
prop('P12', both(CHAIN_TRAVERSE) + CHAIN_ITER_Q, minus(both(CHAIN_ITER), CHAIN_ITER_Q))
prop('P13', SURJ_STATE, minus(SURJ_CLONE + SURJ_COMPRESS, SURJ_STATE))
prop('P14', SURJ_UNION)
ORD_INSERT_Q = minus(ORD_INSERT, ['ord::u::insert_7', 'ord::g::insert_2'])
prop('P15', ORD_FIND + ORD_INSERT_Q + ORD_VALUES,
     ['ord::g::insert_2'] + minus(ORD_BALANCE + ORD_BALANCE_T, ORD_INSERT_Q))
prop('P16', ORD_REMOVE + ORD_VALUES, minus(ORD_BALANCE + ORD_BALANCE_T, ORD_REMOVE))
prop('P17', ORD_BALANCE + ORD_COMPRESS_U, ORD_BALANCE_T)
prop('P18', ORD_ITER + ORD_DRAIN + ORD_COMPRESS_G + names('ord::u', 'compress_8 compress_16'), ORD_DRAIN_T)
prop('P19', SERDE, SERDE_T)
prop('P20', PTR + PTR_SERDE)
prop('P21', TRAIT)
