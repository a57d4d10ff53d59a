"""C01: the segmented store against a plain list."""
import random
import numpy as np

COORDS = {'cartesian_x': ['x'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z'], 'spherical_r': ['r']}


def dtype_for(ptype):
    c = COORDS[ptype]
    names = c + [k + '0' for k in c] + ['u' + k for k in c] + ['weight']
    return np.dtype({'names': names + ['bitflags', 'cell_index', 'unique_ID', 'crossings'],
                     'formats': [np.float64] * len(names) + [np.int32] * 4})


def tup(rec):
    return tuple(x.item() if hasattr(x, 'item') else x for x in rec)


class Model:
    """Reference: the sequence of items, and nothing else."""
    def __init__(self):
        self.items = []


def run(case, R):
    rng = random.Random(case['seed'])
    L, ptype, impl = case['L'], case['ptype'], case['impl']
    dt = dtype_for(ptype)
    cpp = impl == 'cpp'
    if cpp:
        import numpy_types_solib, segmented_array_pair_solib as S
        sap = getattr(S, 'SegmentedArrayPair_' + ptype)(L)
    else:
        import SegmentedArrayPair_Module as M
        sap = M.SegmentedArrayPair_C(L, dt)
    items = []
    serial = [0]
    nf = len(COORDS[ptype]) * 3 + 1
    trace = []
    since_pass = [False]
    was_emptied = [False]

    def fresh():
        serial[0] += 1
        return tuple(rng.uniform(-1e3, 1e3) for _ in range(nf)) + (rng.randrange(8) if rng.random() < 0.7 else rng.randrange(2**31), rng.randrange(-1, 10**6) if rng.random() < 0.9 else rng.randrange(2**31), serial[0],
                                                                 rng.randrange(100) if rng.random() < 0.9 else rng.randrange(2**31))

    def seglist(n, seg):
        if n == 0:
            R.check(seg is None, 'empty-segment-not-none', 'a pass reported 0 items but returned a segment')
            return []
        R.check(len(seg) >= n, 'segment-too-short', 'a pass reported %d items in a segment of length %d' % (n, len(seg)))
        return [tup(r) for r in seg[0:n]]

    def op_push():
        k = rng.choice([1, 1, 1, L, L + 1, max(1, L - 1)]) if L < 20 else rng.choice([1, 3, 30, 100, 101])
        if case.get('bulk'):
            k = rng.choice([1, L, case['bulk'], case['bulk'], rng.randrange(case['bulk'])])
        for _ in range(k):
            it = fresh()
            how = rng.choice(['tuple', 'array', 'list']) if cpp else rng.choice(['tuple', 'array'])
            arg = it if how == 'tuple' else list(it) if how == 'list' else np.array([it], dtype=dt)
            ret = sap.push_back(arg)
            idx = len(items)
            if idx and idx % L == 0:
                R.count('push_into_next_segment')
                if since_pass[0]:
                    R.count('push_after_pass_into_next_segment')
                    since_pass[0] = False
            items.append(it)
            R.count('op_push')
            R.check(ret[0] == idx % L and ret[1] == idx, 'push-index', lambda: 'append of item %d (segment length %d) returned %r' % (idx, L, tuple(ret)))
            if rng.random() < 0.3:
                cs = sap.get_current_out_segment()
                R.check(tup(cs[ret[0]]) == it, 'current-out-segment', lambda: 'the current "out" segment after appending item %d does not hold it at the returned offset %d' % (idx, ret[0]))
                R.count('current_out_segment')
            if was_emptied[0]:
                R.count('reuse_after_empty')
                was_emptied[0] = False

    def op_outpass():
        R.count('op_outpass')
        since_pass[0] = True
        n, seg = sap.init_out_loop()
        got, pos = [], 0
        stop = rng.choice([None, None, None, 1, 2])
        first = True
        while n:
            if rng.random() < 0.3:
                j = rng.randrange(n)
                R.check(sap.get_full_index(j, 'out') == pos + j, 'full-index-out', lambda: 'full index of offset %d in segment starting at %d is %r' % (j, pos, sap.get_full_index(j, 'out')))
            got += seglist(n, seg)
            pos += n
            # edit in place through the segment
            if rng.random() < 0.2:
                j = rng.randrange(n)
                v = rng.uniform(-5, 5)
                seg[j]['weight'] = v
                k = pos - n + j
                o = list(items[k]); o[nf - 1] = v; items[k] = tuple(o)
                got[k] = items[k]
                R.count('edit_in_pass')
            if stop is not None:
                stop -= 1
                if stop == 0:
                    R.check(got == items[:len(got)], 'outpass-content', 'a partial read pass returned wrong items')
                    R.count('partial_pass')
                    return
            n, seg = sap.get_next_segment('out')
        R.check(got == items, 'outpass-content', lambda: 'a read pass returned %d items, %d stored; first difference at %s' % (
            len(got), len(items), next((i for i, (a, b) in enumerate(zip(got, items)) if a != b), min(len(got), len(items)))))

    def op_inout(keepmode=None):
        R.count('op_inoutpass')
        since_pass[0] = True
        n, sin, sout = sap.init_inout_loop()
        if n == 0:
            R.count('empty_inout')
            R.check(len(items) == 0, 'inout-empty', lambda: 'read/write pass saw no items, %d stored' % len(items))
            return
        mode = keepmode or rng.choice(['all', 'none', 'random', 'random', 'first', 'multiple'])
        kept, got, pos = [], [], 0
        ipout, count = 0, 0
        target = (len(items) // L) * L
        full_in_ok = True
        while n:
            content = seglist(n, sin)
            for j, it in enumerate(content):
                keep = {'all': True, 'none': False, 'random': rng.random() < 0.6, 'first': pos + j == 0,
                        'multiple': len(kept) < target}[mode]
                if rng.random() < 0.05 and keep:
                    fi = sap.get_full_index(j, 'in')
                    R.check(fi == pos + j, 'full-index-in', lambda: 'full "in" index %r expected %d' % (fi, pos + j))
                    if ipout < L:
                        pair = tuple(sap.get_full_indices(j, ipout))
                        R.check(pair == (pos + j, len(kept)), 'full-indices', lambda: 'get_full_indices gave %r, expected %r' % (pair, (pos + j, len(kept))))
                # the idiom of the movers: the slot is claimed before the particle's fate is known
                if ipout == L:
                    sout = sap.get_next_out_segment()
                    if isinstance(sout, tuple):
                        sout = sout[0]
                    ipout = 0
                    R.count('next_out_segment')
                new = list(it)
                new[0] = it[0] + 1.0
                new = tuple(new)
                sout[ipout] = new
                if keep:
                    kept.append(new)
                    ipout += 1
                if ipout == L and keep:
                    count += L
            got += content
            pos += n
            n, sin = sap.get_next_segment('in')
        R.check(got == items, 'inout-content', lambda: 'a read/write pass read %d items, %d stored' % (len(got), len(items)))
        if ipout != L:
            count += ipout
        sap.set_number_of_items('out', len(kept))
        items[:] = kept
        if not kept:
            was_emptied[0] = True
            R.count('op_set_zero')

    def op_shrink():
        R.count('op_shrink')
        n = rng.choice([0, rng.randrange(len(items) + 1), (len(items) // L) * L])
        sap.set_number_of_items('out', n)
        del items[n:]
        if n == 0:
            was_emptied[0] = True
            R.count('op_set_zero')

    def op_aside():
        # neither the count of the old ("in") side nor asking for addresses instead of arrays concerns the stored items
        R.count('op_aside')
        if rng.random() < 0.5 or not cpp:
            sap.set_number_of_items('in', rng.choice([0, rng.randrange(sap.get_capacity()[0] + 1), sap.get_capacity()[0]]))
            R.count('set_in')
            return
        since_pass[0] = True
        r = sap.init_out_loop(True)
        n = 0
        while r[0]:
            n += r[0]
            r = sap.get_next_segment('out', True)
        R.check(n == len(items), 'pass-by-address', lambda: 'a pass by address went over %d items, %d stored' % (n, len(items)))
        R.count('address_pass')

    def op_index():
        if not items:
            return
        i = rng.choice([0, len(items) - 1, rng.randrange(len(items)), ((len(items) - 1) // L) * L])
        seg, off = sap.get_segment_and_offset(i)
        R.check(tup(seg[off]) == items[i], 'segment-and-offset', lambda: 'item %d via segment/offset is %r, expected %r' % (i, tup(seg[off]), items[i]))
        g = sap.get_item(i)
        if cpp:
            R.check([g[k] for k in dt.names] == list(items[i]), 'get-item', lambda: 'item %d is %r, expected %r' % (i, g, items[i]))
            R.check(tuple(sap.get_as_tuple(i)) == items[i], 'get-as-tuple', 'get_as_tuple differs')
            R.check(list(sap.get_as_list(i)) == list(items[i]), 'get-as-list', 'get_as_list differs')
        else:
            R.check(tup(g) == items[i], 'get-item', lambda: 'item %d is %r, expected %r' % (i, tup(g), items[i]))
            R.check(tup(sap[i]) == items[i], 'subscript', 'subscript differs')
            if rng.random() < 0.3:
                v = fresh()
                sap[i] = v
                items[i] = v
        if cpp and rng.random() < 0.3:
            v = fresh()
            seg[off] = v
            items[i] = v
        R.count('op_index')

    def quick_state():
        n = sap.get_number_of_items()
        R.check(n == len(items), 'item-count', lambda: 'reported %r items, %d stored (segment length %d)' % (n, len(items), L))
        cin, cout = sap.get_capacity()
        nin, nout = sap.get_number_of_segments()
        R.check(cin == nin * L and cout == nout * L and cout >= len(items), 'capacity', lambda: 'capacity %r segments %r length %d items %d' % ((cin, cout), (nin, nout), L, len(items)))
        mb = sap.get_number_of_mbytes()
        size = dt.itemsize
        if cpp:
            seg, off = sap.get_segment_and_offset(0)
            size = seg.dtype.itemsize
        R.check(abs(mb[0] - nin * L * size / 1e6) < 1e-9 and abs(mb[1] - nout * L * size / 1e6) < 1e-9, 'mbytes', lambda: 'megabytes %r for segments %r of %d x %d bytes' % (tuple(mb), (nin, nout), L, size))
        if items and len(items) % L == 0:
            R.count('exact_multiple_states')

    def deep():
        R.count('deep_check')
        for i in range(len(items)):
            seg, off = sap.get_segment_and_offset(i)
            if not R.check(tup(seg[off]) == items[i], 'content', lambda: 'stored item %d is %r, expected %r (segment length %d)' % (i, tup(seg[off]), items[i], L)):
                return

    ops = [('push', op_push, 5), ('out', op_outpass, 2), ('inout', op_inout, 3), ('shrink', op_shrink, 1), ('index', op_index, 2), ('aside', op_aside, 1)]
    names = [o[0] for o in ops]
    weights = [o[2] for o in ops]
    fns = dict((o[0], o[1]) for o in ops)
    crossed = False
    for k in range(case['nops']):
        nm = rng.choices(names, weights)[0]
        if len(items) > case.get('limit', 12 * L + 40) and nm == 'push':
            nm = rng.choice(['shrink', 'inout'])
        trace.append(nm)
        try:
            fns[nm]()
        except Exception as e:
            if impl == 'py' or not isinstance(e, (AttributeError, NameError)):
                R.violation('store-raised:%s:%s' % (nm, type(e).__name__), 'operation %s on the %s store (segment length %d, %d items) raised %s: %s; history %s' % (
                    nm, impl, L, len(items), type(e).__name__, str(e)[:200], ' '.join(trace[-12:])))
                return
            raise
        quick_state()
        if rng.random() < (0.1 if case.get('bulk') else 0.3) or k == case['nops'] - 1:
            deep()
        if len(items) > L:
            crossed = True
        if R.viol:
            R.viol[-1]['detail'] = 'history: ' + ' '.join(trace)
            return
    if crossed:
        R.sig(impl, ptype, L, hash_trace(trace))
    R.sample = dict(impl=impl, ptype=ptype, segment_length=L, operations=' '.join(trace[:25]), items_at_end=len(items))


def hash_trace(t):
    import zlib
    return zlib.crc32(' '.join(t).encode())
