from plans import Plan


def cases(tier, rng):
    n = 1500 if tier == 'quick' else 9000
    out = []
    for i in range(n):
        impl = 'py' if i % 3 == 0 else 'cpp'
        out.append(dict(kind='sap-' + impl, impl=impl, ptype=rng.choice(['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']),
                        L=rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 16, 100]), seed=rng.randrange(1 << 30),
                        nops=rng.choice([15, 40, 40, 100]) * (1 if tier == 'quick' else 2)))
    # hundreds of segments; more items than 16-bit numbers can tell apart
    for i in range(24 if tier == 'quick' else 200):
        impl = 'py' if i % 3 == 0 else 'cpp'
        L, bulk, limit = [(1, 150, 600), (2, 300, 1500), (3, 500, 2000), (100, 20000, 66000), (1000, 40000, 70000), (70000, 40000, 100000)][(i // 3) % 6]
        out.insert(0, dict(kind='bulk-' + impl, impl=impl, ptype=rng.choice(['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']), L=L, seed=rng.randrange(1 << 30), nops=30 if limit < 5000 else 12,
                           bulk=bulk, limit=limit))
    return out


PLAN = Plan('C01', modules=['segmented_array_pair_solib', 'numpy_types_solib'], cases=cases,
            required={'op_push': 5000, 'op_outpass': 500, 'op_inoutpass': 500, 'op_shrink': 200, 'op_set_zero': 50,
                      'push_into_next_segment': 500, 'push_after_pass_into_next_segment': 50, 'empty_inout': 50,
                      'exact_multiple_states': 300, 'reuse_after_empty': 50, 'deep_check': 2000},
            rule='random histories of store operations (append by tuple/list/array, read pass, partial pass, read/write pass keeping a random subset, '
                 'truncate, empty, indexed read and write) replayed against a Python list; a history is distinct by (implementation, record type, segment '
                 'length, operation-kind sequence) and non-trivial when it crosses a segment boundary',
            assumptions=['set_number_of_items is only used to truncate, or to declare what a read/write pass wrote',
                         'the reference is a plain Python list of field tuples'])
