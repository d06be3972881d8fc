"""C09: channel names as a mapping, histories compared with a plain dictionary."""
import numpy as np

from .. import gen
from .c08 import gen_pattern, glob

RULE = ('random histories of 10-40 item/attribute operations (set, get, delete, update, pop, setdefault, clear, copy, compare, pattern queries) on a Tags '
        'object, valid and invalid, compared after every step with a dictionary; non-trivial = accepted and refused updates both occur; distinct by history')
CASES = dict(quick=18000, thorough=100000)
MIN = dict(method_names=500, set=3000, attr_set=1500, refused=3000, deleted=1000, queries=1500, missing=1000)

NAMES = gen.NAMES + ['Zed', 'k9', 'long_name_with_0', 'T', 'αβ', 'nope', 'm2x']
METHODS = ['keys', 'items', 'values', 'get', 'update', 'pop', 'popitem', 'clear', 'setdefault', 'filter', 'filter_get', 'indices']      # reached by item only
ILLEGAL = ['', '1a', '\n', '²', '٣', '.a', '*', '?a', '[a]', b'a',  '_x', ' x', '-a', 3, None, ('a',), 2.5]


def any_name(c):
    " a legal name: a first letter, then anything "
    k = c.choice([0, 1, 2, 8, 40, 200])
    rest = ''.join(c.choice(['a', 'Z', '0', '_', ' ', '.', '-', '\t', '\n', '/', 'é', '+', '#', "'", '\\', '\u200b', '\x00']) for _ in range(k))
    return c.choice(['a', 'Z', 'é', 'λ', 'x', 'Q']) + rest


def valid_value(c, n):
    k = c.int(0, 6)
    ids = [c.int(0, n - 1) for _ in range(c.int(1, 4))]
    if k <= 1:
        i = ids[0]
        return (np.int64(i) if c.chance(.2) else i), (i,)
    if k == 2:
        return list(ids), tuple(ids)
    if k == 3:
        return np.array(ids), tuple(ids)
    if k == 4:
        return iter(ids), tuple(ids)
    if k == 5:
        return range(ids[0] + 1), tuple(range(ids[0] + 1))
    return tuple(ids), tuple(ids)


def invalid_value(c, n):
    ids = [c.int(0, n - 1) for _ in range(c.int(0, 2))] if n else []
    bad = c.choice([n, n + 1, -1, -n - 1, n + 1000, 'ab', None])
    return c.choice([(), [], iter([]), bad, ids + [bad], [bad] + ids])


def same(c, t, d, n, label):
    c.ok(dict(t.items()) == d, f'{label}: content', got=dict(t.items()), want=d)
    c.ok(len(t) == len(d) and sorted(t) == sorted(d) and sorted(t.keys()) == sorted(d), f'{label}: keys')
    c.ok(set(t.indices) == set(range(n)), f'{label}: range of indices', got=t.indices, want=n)
    for v in t.values():
        c.ok(isinstance(v, tuple) and len(v) > 0 and all(0 <= i < n for i in v), f'{label}: values are tuples of valid indices', got=v)


def case(c):
    import razorback as rb
    n = c.int(0, 7) if c.chance(.8) else c.int(8, 60)
    names = NAMES + [any_name(c) for _ in range(4)] + gen.ODD_NAMES if c.chance(.4) else NAMES
    if c.chance(.2):
        names = c.rnd.sample(METHODS, c.int(1, 5)) + c.rnd.sample(names, 6) + ['n', 'self']
        c.obs('method_names')
    init = {}
    for name in c.rnd.sample(names, c.int(0, 5)):
        if n:
            init[name] = valid_value(c, n)
    args = {k: v for k, (v, _) in init.items()}
    d = {k: w for k, (_, w) in init.items()}
    if d and 'n' not in d and c.chance(.3):
        args = dict(d)
        t = rb.Tags(**args)
        n = 1 + max(i for v in d.values() for i in v)
    else:
        t = rb.Tags(n, **args)
    same(c, t, d, n, 'construction')
    if d and n > 0:
        m = c.int(0, max(i for v in d.values() for i in v))
        c.refused(lambda: rb.Tags(m, **d), 'construction with an index out of range')
    if not d:
        c.ok(len(rb.Tags().indices) == 0 and len(rb.Tags()) == 0, 'names of nothing')
    trace, acc, ref = [], 0, 0
    for step in range(c.int(10, 40)):
        op = c.choice(['set', 'attr_set', 'bad_value', 'bad_attr', 'bad_name', 'del', 'attr_del', 'get', 'update', 'bad_update',
                       'pop', 'setdefault', 'clear', 'query', 'copy', 'other', 'reject_del'])
        name = c.choice(sorted(d)) if d and c.chance(.5) else c.choice(names)
        trace.append((op, name))
        c.note(n=n, trace=trace[-12:])
        if op in ('set', 'attr_set', 'setdefault', 'update') and n:
            v, w = valid_value(c, n)
            if op == 'attr_set' and name in METHODS:
                op = 'set'
            if op == 'set':
                t[name] = v
                d[name] = w
            elif op == 'attr_set':
                setattr(t, name, v)
                d[name] = w
            elif op == 'setdefault':
                got = t.setdefault(name, w)
                c.ok(tuple(got) == d.setdefault(name, w), 'setdefault', got=got)
            else:
                o = c.choice(names)
                t.update({name: w, o: 0})
                d.update({name: w, o: (0,)})
            c.obs('set' if op != 'attr_set' else op)
            acc += 1
        elif op == 'bad_value':
            c.refused(lambda: t.__setitem__(name, invalid_value(c, n)), 'item with an invalid value')
        elif op == 'bad_attr':
            c.refused(lambda: setattr(t, name, invalid_value(c, n)), 'attribute with an invalid value')
        elif op == 'bad_name':
            if c.chance(.2):          # the range is not changed by an assignment
                c.refused(lambda: setattr(t, 'indices', c.choice([range(n + 3), (0,), 0])), 'assignment of the range')
            bad = c.choice(ILLEGAL)
            c.refused(lambda: t.__setitem__(bad, (0,)), f'illegal name {bad!r}')
        elif op == 'bad_update':
            old = dict(d)
            c.refused(lambda: t.update({name: invalid_value(c, n)}), 'update with an invalid value')
            d = old
        elif op in ('del', 'attr_del'):
            if name in d:
                if op == 'del':
                    del t[name]
                else:
                    delattr(t, name)
                del d[name]
                c.obs('deleted')
            elif op == 'del':
                c.refused(lambda: t.__delitem__(name), 'deletion of a missing name', KeyError)
            else:
                c.refused(lambda: delattr(t, name), 'deletion of a missing attribute', AttributeError)
        elif op == 'reject_del':
            c.refused(lambda: t.__delitem__('absent'), 'deletion of a missing name', KeyError)
        elif op == 'get':
            if name in d:
                c.ok(t[name] == d[name] and (name in METHODS or getattr(t, name) == d[name]) and t.get(name) == d[name] and name in t, 'look-up')
            else:
                c.refused(lambda: t[name], 'missing name', KeyError)
                if name not in METHODS:
                    c.refused(lambda: getattr(t, name), 'missing attribute', AttributeError)
                c.ok(t.get(name) is None and t.get(name, 5) == 5 and name not in t and (name in METHODS or not hasattr(t, name)), 'missing name')
                c.obs('missing')
        elif op == 'pop':
            if name in d:
                c.ok(t.pop(name) == d.pop(name), 'pop')
            else:
                c.refused(lambda: t.pop(name), 'pop of a missing name', KeyError)
                c.ok(t.pop(name, 7) == 7, 'pop with default')
        elif op == 'clear' and c.chance(.2):
            t.clear()
            d.clear()
        elif op == 'query':
            pats = [gen_pattern(c, sorted(d) or ['zz']) for _ in range(c.int(0, 3))]
            want = {x for x in d if any(glob(p, x) for p in pats)}
            got = t.filter(*pats)
            c.ok(isinstance(got, tuple) and len(got) == len(set(got)) and set(got) == want, 'filter', pats=pats, got=got, want=want)
            got = t.filter_get(*pats)
            c.ok(isinstance(got, tuple) and got == tuple(sorted({i for x in want for i in d[x]})), 'filter_get', pats=pats, got=got)
            c.obs('queries')
        elif op == 'copy':
            u = rb.Tags(n, **t)
            c.ok(u == t and not (u != t), 'equality of equal tags')
            v = rb.Tags(n, **dict(c.rnd.sample(list(d.items()), len(d))))
            c.ok(v == t and t == v and not (v != t), 'equality of tags filled in another order')
            if n:
                u['fresh'] = 0
                c.ok('fresh' not in t and u != t, 'a copy has its own names')
                u2 = rb.Tags(n + 1, **t)
                c.ok(not (u2 == t), 'tags of another range are different')
            if d and n > 1:
                k = c.choice(sorted(d))
                u3 = rb.Tags(n, **t)
                u3[k] = tuple((i + 1) % n for i in d[k])
                c.ok(not (u3 == t), 'tags with another value are different')
        if op in ('bad_value', 'bad_attr', 'bad_name', 'bad_update', 'reject_del'):
            c.obs('refused')
            ref += 1
        same(c, t, d, n, f'after {op} {name!r}')
    if acc and ref:
        c.sig(n, trace)
    c.sample(n=n, trace=trace)
