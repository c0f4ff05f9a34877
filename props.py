# What each check runs: harness entries, bounds, engine options.
PROPS = {}
def prop(pid, *entries, **kw): PROPS[pid] = dict(entries=list(entries), **kw)
def E(name, src, **kw): return dict(name=name, src=src, **kw)

prop('C01',
     E('h_ring_all', 'ringdeque.cpp', covers=['end', 'full', 'grown', 'self'], shards=4, bounds='capacity 1..4, any rotation 0..5 in either direction, any fill, 2 operations out of 13 kinds, arbitrary element values and indices', deep=dict(shards=16, bounds='capacity 1..5, 3 operations')),
     E('h_ring_idx', 'ringdeque.cpp', covers=['end'], shards=2, bounds='capacity 1..4, any rotation and fill, one operation, element values and the index symbolic', deep=dict(shards=8)),
     E('h_ring_long', 'ringdeque.cpp', covers=['end'], shards=2, bounds='capacity 1..3, 4 push/pop operations', deep=dict(shards=8, bounds='capacity 1..4, 5 push/pop operations')))
T = dict(no_native=True)
prop('C03',
     E('h_spin', 'locks.cpp', preempt=3, covers=['end', 'try_lock_refused'], bounds='2 threads, 1 acquisition each by lock or try_lock, up to 3 preemptions', deep=dict(preempt=4, bounds='2 threads, 2 acquisitions each, up to 4 preemptions'), **T),
     E('h_spin3', 'locks.cpp', preempt=2, covers=['end'], bounds='3 threads, 3 preemptions', deep=dict(preempt=4), **T),
     E('h_rw2', 'locks.cpp', preempt=3, covers=['end', 'two_readers', 'try_write_refused', 'try_read_refused'], shards=2, bounds='2 threads, each of 6 reader/writer roles, 3 preemptions', deep=dict(preempt=4, shards=8), **T),
     E('h_rw3', 'locks.cpp', preempt=2, covers=['end', 'two_readers'], shards=2, bounds='3 threads, reader or writer each, 3 preemptions', deep=dict(preempt=4, shards=8), **T),
     E('h_rw_guard', 'locks.cpp', covers=['end'], bounds='sequential, 1..5 readers'))
prop('C04',
     E('h_actor_call', 'actor.cpp', preempt=3, covers=['end', 'worker_ran', 'worker_idle'], shards=2, bounds='worker (2 attempts) against 1 external call, 3 preemptions', deep=dict(preempt=4, shards=4), **T),
     E('h_actor_calls', 'actor.cpp', preempt=2, covers=['end', 'worker_ran'], bounds='worker against 2 external calls, 2 preemptions', deep=dict(preempt=3), **T),
     E('h_actor_flag', 'actor.cpp', preempt=3, covers=['end', 'worker_ran'], shards=2, bounds='worker (2 attempts) against 2 change notifications, 3 preemptions', deep=dict(preempt=4, shards=4), **T),
     E('h_actor_mix', 'actor.cpp', preempt=2, covers=['end', 'worker_ran'], bounds='worker, notifier and external caller, 2 preemptions', deep=dict(preempt=3), **T),
     E('h_actor_pool', 'actor.cpp', preempt=3, covers=['end', 'worker_ran'], bounds='2 pool threads on one actor, 3 preemptions', deep=dict(preempt=4), **T))
prop('C02',
     E('h_oq_pick', 'ordered.cpp', covers=['end', 'out_of_order', 'pop'], shards=4, bounds='capacity 1..4, any starting rotation, 4 push/pop operations, arbitrary element values', deep=dict(shards=16, bounds='capacity 1..5, 6 operations')),
     E('h_oq_sym', 'ordered.cpp', covers=['end', 'out_of_order'], shards=4, bounds='capacity 2..3, 3 operations with symbolic index and values', deep=dict(shards=16, bounds='capacity 2..4, 4 operations')),
     E('h_oq_own', 'ordered.cpp', covers=['end'], bounds='capacity 3, every push order'))
prop('C05',
     E('h_acc_separate', 'accum.cpp', covers=['end', 'pooled', 'popped'], shards=8, bounds='1..4 chunks of separate 4-byte buffers at any offset, 2..3 require/pop operations, arbitrary bytes'),
     E('h_acc_slab', 'accum.cpp', covers=['end', 'pooled', 'popped'], shards=8, bounds='3 adjacent 6-byte buffers, 2..3 chunks in stream or arbitrary order'),
     E('h_acc_forward', 'accum.cpp', covers=['end'], shards=2, bounds='3 adjacent buffers amalgamated, any partial pop, copy, forward'),
     E('h_acc_big', 'accum.cpp', covers=['end'], shards=4, bounds='one short chunk and one larger than the 8 KiB copy buffer, 2 pops at the boundaries'),
     E('h_acc_sym', 'accum.cpp', covers=['end'], shards=3, bounds='2 chunks with symbolic offsets and lengths, symbolic pop and require amounts, a symbolic position checked'),
     E('h_acc_bigops', 'accum.cpp', covers=['end', 'bigger'], shards=8, bounds='chunks of 4, 8, 8292 and 8392 bytes, 5 operations out of push, require 8, require 8342, pop all / all but 6 / 1', deep=dict(shards=16, bounds='6 operations')),
     E('h_acc_clear', 'accum.cpp', covers=['end']))
prop('C06',
     E('h_mb_ops', 'buffers.cpp', covers=['end', 'returned', 'mgr_gone', 'self_assign'], shards=4, bounds='2 buffers, 3 handles, 3 operations out of copy/move assignment, reset, copy and move construction, manager destroyed before or after', deep=dict(shards=16)),
     E('h_mb_callback', 'buffers.cpp', covers=['end']),
     E('h_mb_race', 'buffers.cpp', covers=['end'], preempt=3, bounds='2 threads, up to 3 handles, 3 preemptions', deep=dict(preempt=4), **T),
     E('h_mb_race_mgr', 'buffers.cpp', covers=['end', 'returned_first', 'manager_first'], preempt=3, bounds='manager destroyed while the last handle is dropped, 3 preemptions', deep=dict(preempt=4), **T))
prop('C07',
     E('h_mgr_generic', 'buffers.cpp', covers=['end', 'produced', 'dropped'], shards=6, bounds='1..3 buffers of 2..4 bytes, 5 produce/return steps in any order'),
     E('h_mgr_circ', 'buffers.cpp', covers=['end', 'produced', 'dropped'], shards=6, bounds='as above, double-mapped memory'),
     E('h_mgr_generic_sym', 'buffers.cpp', covers=['end', 'produced', 'dropped'], shards=4, bounds='2 buffers of 8 bytes, 4 produce/return steps, amounts symbolic: the offered range never overlaps a held range'),
     E('h_mgr_circ_sym', 'buffers.cpp', covers=['end', 'produced', 'dropped'], shards=4, bounds='as above, double-mapped memory'),
     E('h_stream_generic', 'buffers.cpp', covers=['end', 'held', 'starved'], shards=8, bounds='2..3 buffers, 6 steps of produce, consume, copy, drop'),
     E('h_stream_circ', 'buffers.cpp', covers=['end', 'held', 'starved', 'amalgamated'], shards=8, bounds='as above, double-mapped memory'))
prop('C08',
     E('h_sb_sub', 'shared.cpp', covers=['end', 'accepted', 'refused'], bounds='all 64-bit parent and requested addresses and lengths'),
     E('h_sb_circ', 'shared.cpp', covers=['end', 'accepted', 'refused'], bounds='circular parent, addresses and lengths below 2^62, requested range any 64-bit values'),
     E('h_sb_nested', 'shared.cpp', covers=['nested'], bounds='two levels, all 64-bit values'),
     E('h_sb_nested_circ', 'shared.cpp', covers=['nested'], bounds='two levels on a circular parent, values below 2^60'),
     E('h_sb_make', 'shared.cpp', covers=['end'], no_native=True, bounds='allocations of 0..20 bytes'))
prop('C09',
     E('h_pool', 'shared.cpp', covers=['end', 'got', 'dropped', 'cleared'], shards=4, bounds='5 get/release/clear operations, sizes around the default size'),
     E('h_pool_sym', 'shared.cpp', covers=['end', 'both', 'reused'], bounds='2 requests of every size 1..8196, the first held or released'),
     E('h_pool_reuse', 'shared.cpp', covers=['end']))
prop('C36',
     E('h_map_circ', 'mapfault.cpp', covers=['end', 'made', 'fault'], bounds='up to 3 system call failures or relocated mappings at any call'),
     E('h_map_always', 'mapfault.cpp', covers=['end', 'failed'], bounds='one call failing on every attempt'),
     E('h_map_file', 'mapfault.cpp', covers=['end', 'made', 'failed'], bounds='one failing call'))
GB = dict(preempt=0, ctors=['GenericBufferManager.cpp'], native=True)
prop('C12',
     E('h_link', 'ports.cpp', covers=['end', 'propagated', 'consumed', 'two_labels'], shards=16, bounds='producer and consumer, 2 manager buffers of 8 bytes, element size 2 or 3, 4 turns, 0..2 elements per turn, up to 2 labels per turn at any position of the produced elements', deep=dict(bounds='5 turns'), **GB),
     E('h_link_reserve', 'ports.cpp', covers=['end', 'propagated'], shards=8, bounds='as above with a reserve of 1..2 on the consumer', **GB),
     E('h_link_ahead', 'ports.cpp', covers=['end', 'propagated'], shards=8, bounds='as above with labels up to 3 elements ahead', **GB),
     E('h_link_sym', 'ports.cpp', covers=['end', 'propagated'], shards=4, bounds='as above, fewer turns, label positions symbolic', **GB),
     E('h_push_label', 'ports.cpp', covers=['end'], shards=2, bounds='pushLabel at any position, element size 2 or 3', **GB))
prop('C13',
     E('h_fanout', 'ports2.cpp', covers=['end', 'produced', 'consumed'], shards=8, bounds='1 producer, 2 consumers, 2 buffers of 8 bytes, 5 turns in any order, 0..4 elements per turn, arbitrary data', deep=dict(shards=16, bounds='7 turns'), **GB),
     E('h_fanout_sym', 'ports2.cpp', covers=['end', 'consumed'], shards=8, bounds='1 producer, 2 consumers, 2 buffers of 4 bytes, 4 turns, amounts symbolic, compared at a symbolic position', deep=dict(shards=16), **GB),
     E('h_rbw', 'ports2.cpp', covers=['end', 'inplace'], shards=16, bounds='producer, in-place block, consumer and optional second consumer of the producer or a held chunk, 5 turns', deep=dict(shards=16, bounds='7 turns'), **GB),
     E('h_fragment', 'ports2.cpp', covers=['end', 'met'], shards=4, bounds='element size 2..3, reserve 0..2, 4 turns of pushing 1..3 bytes or working', **GB))
prop('C14', E('h_output_sym', 'ports2.cpp', covers=['end', 'popped'], shards=8, bounds='2 buffers of 4 bytes, 2 turns of produce, popElements or setReserve with symbolic amounts', deep=dict(shards=16, bounds='4 turns'), **GB),
     E('h_output', 'ports2.cpp', covers=['end', 'posted', 'popped'], shards=16, bounds='3 buffers of 8 bytes, 4 turns, each produce 1 or all / getBuffer 1, 3, 5 elements and post / getBuffer of another type / two getBuffer / popElements / setReserve 2..4', deep=dict(bounds='5 turns'), **GB))
prop('C15',
     E('h_msg', 'ports2.cpp', covers=['end', 'received'], shards=4, bounds='2 subscribers, 6 posts/pops/peeks, arbitrary 32-bit contents', deep=dict(bounds='7 operations'), **GB),
     E('h_msg_tokens', 'ports2.cpp', covers=['end', 'held'], bounds='40 posts ahead, 1..3 taken', **GB),
     E('h_slot', 'ports2.cpp', covers=['end', 'called'], shards=2, bounds='5 emissions or runs, arbitrary arguments', deep=dict(bounds='6 operations'), **GB))
prop('C32', E('h_workinfo_sym', 'ports2.cpp', covers=['end'], shards=4, bounds='inputs of every length 1..255 bytes, every amount of output space between half and all of 64 bytes', **GB),
     E('h_workinfo', 'ports2.cpp', covers=['end'], shards=4, bounds='2 indexed and 1 named input of 0..3 elements, 1 indexed and 1 named output of 1..4 elements', **GB))
SE = dict(ctors=['Serialize.cpp', 'Label.cpp', 'Packet.cpp', 'DType.cpp', 'BufferChunk.cpp', 'Connectable.cpp', 'ThreadPool.cpp'], preempt=0, native=True)
prop('C16',
     E('h_ar_small', 'arch.cpp', covers=['end'], bounds='bool, 8 and 16 bit integers, every value'),
     E('h_ar_int', 'arch.cpp', covers=['end'], shards=6, bounds='32 and 64 bit integers, every value'),
     E('h_ar_float', 'arch.cpp', covers=['end'], bounds='float and double, every bit pattern'),
     E('h_ar_mixed', 'arch.cpp', covers=['end'], bounds='5 values of different types in one archive, strings of 0..2 bytes, arbitrary contents'),
     E('h_ar_vec', 'arch.cpp', covers=['end'], bounds='vectors of 0..3 elements of 6 types, arbitrary elements, read into an empty or filled vector'),
     E('h_ar_vecs', 'arch.cpp', covers=['end'], bounds='0..2 strings of 0..2 bytes, 0..2 vectors of 0..2'),
     E('h_ar_map', 'arch.cpp', covers=['end'], bounds='maps of 0..2 and sets of 0..3 arbitrary keys'),
     E('h_ar_complex', 'arch.cpp', covers=['end'], bounds='integer and float complex numbers, every value'),
     E('h_ar_long', 'arch.cpp', covers=['end'], bounds='lengths 63, 127, 128, 255, 256 with arbitrary bytes'))
prop('C17',
     E('h_ar_obj', 'arch.cpp', covers=['end', 'nested'], bounds='null, 6 value types, vectors and maps of 0..2 such objects, arbitrary contents', **SE),
     E('h_ar_dtype', 'arch.cpp', covers=['end'], bounds='7 kinds of data type, dimension 0..300', **SE),
     E('h_ar_chunk', 'arch.cpp', covers=['end'], bounds='null or 0..4 bytes at offset 0..2', **SE),
     E('h_ar_label', 'arch.cpp', covers=['end'], bounds='every index and width, id of 0..1 bytes, with and without data', **SE),
     E('h_ar_packet', 'arch.cpp', covers=['end'], bounds='any payload as above, 0..1 labels and metadata entries', **SE),
     E('h_ar_port', 'arch.cpp', covers=['end'], bounds='every combination of name, kind and type', **SE),
     E('h_ar_pool', 'arch.cpp', covers=['end'], bounds='every thread count and priority, 0..2 affinities', **SE))
prop('C18',
     E('h_ar_trunc', 'arch.cpp', covers=['end'], bounds='6 value and container types cut at every byte', **SE),
     E('h_ar_trunc_obj', 'arch.cpp', covers=['end'], bounds='6 kinds of object cut at every byte', **SE),
     E('h_ar_junk_int', 'arch.cpp', covers=['end', 'accepted', 'refused'], bounds='every sequence of 6 (32 bit) or 11 (64 bit) bytes', shards=2, **SE),
     E('h_ar_junk_con', 'arch.cpp', covers=['end', 'accepted', 'refused'], bounds='every sequence of 4..6 bytes read as string, vector or set; claimed sizes above 32 fail to allocate', shards=4, opts=['--max-alloc=32'], **SE),
     E('h_ar_junk_obj', 'arch.cpp', covers=['end', 'accepted', 'refused'], bounds='7 object headers followed by every sequence of 0..4 bytes; claimed sizes above 32 fail to allocate', shards=4, opts=['--max-alloc=32'], **SE))
CV = dict(ctors=['I_Convert.cpp', 'ConvertFloats.cpp', 'ConvertIntegers.cpp', 'ConvertIntermediate.cpp', 'ConvertString.cpp', 'Registry.cpp', 'I_Compare.cpp', 'I_Hash.cpp'], opts=['--no-format'], preempt=0, native=True)
prop('C20',
     E('h_conv_int', 'object.cpp', covers=['end', 'converted', 'refused'], shards=8, bounds='every value of each of 11 integer types to each of 11', **CV),
     E('h_conv_f2i', 'object.cpp', covers=['end', 'converted', 'refused'], shards=8, bounds='every float and double, including NaN and infinity, to 9 integer types', **CV),
     E('h_conv_i2f', 'object.cpp', covers=['end'], shards=4, bounds='every value of 6 integer types to float, double and complex', **CV),
     E('h_conv_f2f', 'object.cpp', covers=['end', 'converted', 'refused'], bounds='every float and double', **CV),
     E('h_conv_c2r', 'object.cpp', covers=['end', 'converted', 'refused'], bounds='every complex float and double', **CV),
     E('h_conv_c2c', 'object.cpp', covers=['end', 'converted', 'refused'], shards=2, bounds='every pair of doubles to complex<float>: real, complex and vectors', **CV),
     E('h_conv_cvec', 'object.cpp', covers=['end'], bounds='every pair of floats, vectors of 2 elements', **CV),
     E('h_conv_ci', 'object.cpp', covers=['end'], bounds='integer complex types, every value', **CV),
     E('h_conv_vec', 'object.cpp', covers=['end', 'converted', 'refused'], shards=4, bounds='vectors of 0..2 elements, 9 type pairs, every value', **CV),
     E('h_conv_str', 'object.cpp', covers=['end'], bounds='strings of 0..3 bytes', **CV),
     E('h_conv_can', 'object.cpp', covers=['end'], bounds='5 source and 4 target types', **CV))
prop('C19',
     E('h_obj_ops', 'object.cpp', covers=['end', 'self', 'gone'], shards=8, bounds='3 handles on 1..2 values, 3 operations out of copy/move assignment and construction, swap, reset, arbitrary values', **CV),
     E('h_obj_inner', 'object.cpp', covers=['end'], bounds='an object replaced by its own element, 3 ways', **CV),
     E('h_obj_extract', 'object.cpp', covers=['end', 'changed', 'null'], bounds='null, int, string, double; one or two handles; arbitrary values', **CV),
     E('h_obj_race', 'object.cpp', covers=['end'], bounds='2 threads reading, copying and dropping, 3 preemptions', deep=dict(preempt=4), **dict(CV, preempt=3, native=False, no_native=True)),
     E('h_obj_cow', 'object.cpp', covers=['end', 'changed', 'shared'], bounds='one thread dropping, one changing in place when unique, 3 preemptions', **dict(CV, preempt=3, native=False, no_native=True)))
prop('C21',
     E('h_cmp_int', 'object.cpp', covers=['end', 'equal', 'different'], shards=8, bounds='every pair of values of 9 by 9 integer types', **CV),
     E('h_cmp_float', 'object.cpp', covers=['end', 'equal', 'different'], shards=4, bounds='every pair of finite values of 5 type pairs', **CV),
     E('h_cmp_str', 'object.cpp', covers=['end', 'equal', 'different'], shards=4, bounds='strings of 0..3 arbitrary bytes', **CV),
     E('h_cmp_none', 'object.cpp', covers=['end', 'ordered', 'refused'], bounds='7 kinds of object pairwise', **CV))
PL = dict(CV, ctors=CV['ctors'] + ['I_ToString.cpp'])
prop('C23',
     E('h_path', 'plugin.cpp', covers=['end', 'accepted', 'refused'], shards=4, bounds='every string of 0..4 non-zero bytes', deep=dict(bounds='every string of 0..5 non-zero bytes'), **PL),
     E('h_path_join', 'plugin.cpp', covers=['end', 'joined', 'refused'], shards=2, bounds='4 base paths with every string of 0..3 non-zero bytes', **PL),
     E('h_path_cat', 'plugin.cpp', covers=['end'], bounds='4 by 4 paths', **PL))
prop('C24',
     E('h_reg', 'plugin.cpp', covers=['end', 'taken', 'removed'], shards=8, bounds='4 nested paths, 4 operations out of add, remove, get, arbitrary values, all queries compared', deep=dict(bounds='5 operations', shards=16), **PL),
     E('h_reg_order', 'plugin.cpp', covers=['end'], bounds='3 names in any order', **PL),
     E('h_reg_events', 'plugin.cpp', covers=['end', 'added', 'removed', 'both'], shards=2, bounds='2 nested handlers and a plugin, 5 additions and removals', **PL),
     E('h_reg_race', 'plugin.cpp', covers=['end'], shards=2, bounds='2 threads, one lookup each of 5 kinds or an addition, 2 preemptions', **dict(PL, preempt=2, native=False, no_native=True)),
     E('h_reg_race2', 'plugin.cpp', covers=['end', 'adds'], bounds='2 threads adding, removing or looking up the same path, 2 preemptions', deep=dict(preempt=3), **dict(PL, preempt=2, native=False, no_native=True)),
     E('h_reg_undo', 'plugin.cpp', covers=['end', 'removed'], shards=2, bounds='3 additions or removals of a conversion, comparison, hash and string function', **PL))
DT = dict(ctors=['DType.cpp'], preempt=0, native=True, opts=['--no-format'])
prop('C10',
     E('h_chunk_append', 'chunk.cpp', covers=['end', 'crossing', 'both'], shards=2, bounds='null, contained and crossing chunks of 3 chained 4-byte buffers, any offset and length, 4 types, arbitrary bytes', **DT),
     E('h_chunk_hold', 'chunk.cpp', covers=['end', 'returned'], shards=8, bounds='2 chunks of any extent over 3 chained 4-byte buffers, 2 copies, moves, swaps or clears', **DT),
     E('h_chunk_alias', 'chunk.cpp', covers=['end'], bounds='every address of every double-mapped buffer up to 2^40 bytes, and of every sub-buffer of its first half', **dict(DT, no_native=True)),
     E('h_chunk_elems', 'chunk.cpp', covers=['end'], bounds='6 types, up to 2^20 elements or bytes', **DT))
prop('C27',
     E('h_bconv_int', 'chunk.cpp', covers=['end', 'converted', 'refused'], shards=8, bounds='5 by 6 integer types, every value, 11 combinations of dimensions and counts, 0..6 output elements', **DT),
     E('h_bconv_float', 'chunk.cpp', covers=['end', 'converted', 'refused'], shards=8, bounds='8 type pairs with float and double, every value C++ can convert', **DT),
     E('h_bconv_complex', 'chunk.cpp', covers=['end'], shards=4, bounds='real to complex, complex to complex and to a pair of reals, 4 integer type pairs, every value', **DT),
     E('h_bconv_all', 'chunk.cpp', covers=['end', 'converted', 'refused'], shards=4, bounds='every pair of the 20 numeric types, any values below 16', **DT),
     E('h_bconv_none', 'chunk.cpp', covers=['end', 'converted', 'refused'], bounds='6 kinds of type pairwise', **DT))
prop('C11',
     E('h_dtype', 'chunk.cpp', covers=['end'], shards=2, bounds='22 types, every dimension up to 2^32', **DT),
     E('h_dtype_pairs', 'chunk.cpp', covers=['end'], bounds='22 by 22 types', **DT),
     E('h_dtype_alias', 'chunk.cpp', covers=['end'], bounds='16 aliases', **DT),
     E('h_dtype_markup', 'chunk.cpp', covers=['end'], bounds='22 types, 10 dimensions', **DT),
     E('h_dtype_dim', 'chunk.cpp', covers=['end', 'accepted', 'refused'], bounds='every dimension text of 0..3 bytes without blanks', **DT),
     E('h_dtype_unknown', 'chunk.cpp', covers=['end'], bounds='8 malformed names', **DT))

prop('C31',
     E('h_env_one', 'threads.cpp', preempt=2, covers=['end', 'again'], shards=4, bounds='a pool of 0 (one per task), 1 or 2 threads, 1 task registered, unregistered, registered again or left to the destructor; 2 preemptions', deep=dict(preempt=3, shards=8), **T),
     E('h_env_two', 'threads.cpp', preempt=1, covers=['end', 'other_runs', 'parallel'], shards=8, bounds='a pool of 0, 1 or 2 threads, 2 tasks, either unregistered first; 1 preemption', deep=dict(preempt=2, shards=16), **T),
     E('h_env_conc', 'threads.cpp', preempt=1, covers=['end'], shards=4, bounds='2 threads register and unregister a task each; 1 preemption', deep=dict(preempt=2, shards=8), **T))
prop('C22',
     E('h_call_bind', 'call.cpp', covers=['end', 'bound', 'few', 'called'], shards=4, bounds='a function of 3 arguments, 0..2 bind or unbind at positions 0..3, 0..4 arguments, arbitrary values and result', deep=dict(bounds='0..3 bind or unbind'), **CV),
     E('h_call_conv', 'call.cpp', covers=['end', 'refused', 'range'], shards=4, bounds='one argument of 3 types with any value, or not convertible, given or bound', **CV),
     E('h_call_kinds', 'call.cpp', covers=['end'], bounds='methods, constructors, references, strings, function objects; values below 10^6', **CV),
     E('h_call_null', 'call.cpp', covers=['end', 'refused'], bounds='null, equality, result conversion of every 64-bit value, exception in the function', **CV))
CB = dict(CV, ctors=CV['ctors'] + ['GenericBufferManager.cpp'])
prop('C30',
     E('h_ports_in', 'call.cpp', covers=['end', 'refused', 'automatic', 'deleted'], shards=8, bounds='7 names, 3 operations out of set up, register slot, automatic allocation and deletion, every dimension below 256', deep=dict(shards=16, bounds='4 operations'), **CB),
     E('h_ports_out', 'call.cpp', covers=['end', 'refused', 'automatic', 'deleted'], shards=8, bounds='as above for outputs and signals', deep=dict(shards=16, bounds='4 operations'), **CB),
     E('h_ports_name', 'call.cpp', covers=['end', 'index', 'name'], shards=8, bounds='every name of 1..2 bytes', deep=dict(shards=8, bounds='every name of 1..3 bytes'), **CB),
     E('h_ports_huge', 'call.cpp', covers=['end'], bounds='names of 10..30 equal digits', **CB))
prop('C35',
     E('h_block_call', 'call.cpp', covers=['end', 'called', 'refused'], shards=4, bounds='every set of 5 overloads in 2 orders, 7 kinds of call, arbitrary values', **CB),
     E('h_block_probe', 'call.cpp', covers=['end', 'probed'], bounds='results, private methods, probes, signals, slots; arbitrary values', **CB),
     E('h_block_excl', 'call.cpp', covers=['end', 'worked'], bounds='a worker thread (2 turns) and a calling thread, 2 preemptions', **dict(CB, preempt=2, native=False, no_native=True)))
TP = dict(ctors=['Topology.cpp', 'TopologySquashFlows.cpp', 'TopologyCommit.cpp', 'Block.cpp', 'Connectable.cpp', 'WorkerActor.cpp', 'InputPort.cpp', 'OutputPort.cpp', 'ManagedProxy.cpp', 'ManagedHandle.cpp', 'Environment.cpp', 'Handle.cpp', 'Proxy.cpp', 'ConvertContainers.cpp', 'Convert.cpp', 'UID.cpp', 'HostInfo.cpp', 'BufferManager.cpp', 'Containers.cpp', 'Callable.cpp', 'Label.cpp', 'DType.cpp'] + CB['ctors'], opts=['--no-format'], preempt=0, native=True)
prop('C33',
     E('h_topo_history', 'topo.cpp', covers=['end', 'committed', 'disconnected', 'deactivated', 'cleared', 'delivered'], shards=8, bounds='3 blocks, 4 possible connections, 4 operations out of connect, disconnect, commit and disconnectAll, then a commit; arbitrary message values', deep=dict(shards=16, bounds='5 operations'), **TP),
     E('h_topo_all', 'topo.cpp', covers=['end', 'again'], shards=4, bounds='disconnectAll with and without recursion over 1..3 levels, before and after a commit', **TP),
     E('h_topo_refuse', 'topo.cpp', covers=['end', 'delivered'], shards=4, bounds='8 refused or undone connections, with and without a connection in place', **TP))
prop('C28',
     E('h_hier_one', 'topo.cpp', covers=['end', 'through', 'delivered'], shards=8, bounds='one sub-topology with a block and a pass-through, every subset of 6 connections', **TP),
     E('h_hier_fan', 'topo.cpp', covers=['end', 'several', 'delivered'], shards=8, bounds='an input of a topology that leads to every subset of 2 blocks and a topology with 2 blocks, from 1 or 2 sources in another topology', **TP),
     E('h_hier_chain', 'topo.cpp', covers=['end', 'delivered'], shards=8, bounds='two pass-through topologies in a row, the first possibly inside a third, every subset of 5 connections', **TP),
     E('h_hier_change', 'topo.cpp', covers=['end', 'delivered', 'again'], shards=8, bounds='a sub-topology with a block, 2 changes or commits between, then a commit', **TP),
     E('h_hier_stream', 'topo.cpp', covers=['end', 'seen'], shards=2, bounds='a stream through a sub-topology with a block or a pass-through, 1..8 bytes, every amount and content', deep=dict(bounds='as above, 2 turns'), **TP))
MG = dict(TP, ctors=TP['ctors'] + ['Registry.cpp', 'Serialize.cpp'])
prop('C34',
     E('h_mg_call', 'managed.cpp', covers=['end', 'called', 'refused', 'range', 'base', 'wild'], shards=8, bounds='every set of 4 overloads with and without an opaque, a wildcard and an inherited member, 3 ways to hold the instance, 5 kinds of call, arbitrary values', **MG),
     E('h_mg_class', 'managed.cpp', covers=['end'], shards=4, bounds='constructors, static methods, pointers, fields, exceptions, conversions and refused registrations; arbitrary values', **MG),
     E('h_mg_life', 'managed.cpp', covers=['end', 'unloaded', 'refused'], shards=8, bounds='2 classes, 4 registrations or removals', deep=dict(shards=16, bounds='5 registrations or removals'), **MG),
     E('h_mg_value', 'managed.cpp', covers=['end'], bounds='any two int values', **MG),
     E('h_mg_cont', 'managed.cpp', covers=['end', 'refused'], shards=4, bounds='containers of 0..2 arbitrary int values', deep=dict(bounds='0..3 values'), **MG))
RP = dict(MG, ctors=MG['ctors'] + ['ServerHandler.cpp', 'I_ToString.cpp'])
prop('C25',
     E('h_rpc_datagram', 'remote.cpp', covers=['end', 'big'], bounds='1..2 datagrams, arbitrary numbers and strings of 0..2 bytes, null entries, a long string with arbitrary bytes in its middle', **RP),
     E('h_rpc_damaged', 'remote.cpp', covers=['end', 'content'], opts=RP['opts'] + ['--max-alloc=4096'], bounds='a datagram cut at every byte, with every other header, trailer or length word, or with other contents; claimed sizes above 4096 fail to allocate', **{k: v for k, v in RP.items() if k != 'opts'}),
     E('h_rpc_call', 'remote.cpp', covers=['end', 'exception', 'refused', 'compared'], shards=8, bounds='10 uses of a remote class, arbitrary values, replies read whole or in pieces of 3 bytes', **RP),
     E('h_rpc_broken', 'remote.cpp', covers=['end', 'later'], shards=2, bounds='a connection that ends in or before each of the first 4 replies', **RP),
     E('h_rpc_threads', 'remote.cpp', covers=['end', 'broken'], shards=4, bounds='2 threads with one call each over one connection, 2 preemptions', **dict(RP, preempt=2, native=False, no_native=True)),
     E('h_rpc_two', 'remote.cpp', covers=['end'], shards=4, bounds='2 threads with a connection each to one server, 1 preemption', **dict(RP, preempt=1, native=False, no_native=True)))
