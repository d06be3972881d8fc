"""C28: tags extracted from paths, against an independent matcher."""
import functools
import os
import pathlib

from ..core import Skip

RULE = ('random patterns (literals with regular expression characters, stars, double stars, question marks, character sets with ranges and negation, 0 to 4 fields, relative and absolute, '
        'redundant separators) on random paths grown from the pattern and mutated (one character changed, added or removed, levels added or removed), decided by a backtracking matcher '
        'that shares nothing with the code; distinct by pattern and paths')
CASES = dict(quick=72000, thorough=300000)
MIN = dict(repeated_field=300, matching=5000, not_matching=5000, near_miss=2000, fields=5000, ambiguous=300, refused_template=150, malformed=150, duplicates=300, normalised=300, lazy=200, star_level=400,
           regex_chars=600, sets=800)
WORD = 'abcXYZ019_'
LIT = 'abcXYZ019_-.+ ()$^|&~#@=,;%\\\'"!é'
FIELDS = ['a', 'b', 'site', 'x1', '_c', 'Type', 'n_2']


def gen_set(c):
    neg = c.chance(.4)
    items = []
    for _ in range(c.int(1, 3)):
        if c.chance(.3):
            lo, hi = sorted(c.rnd.sample(c.choice(['abcdef', '0123456789', 'ABCXYZ']), 2))
            items.append((lo, hi))
        else:
            ch = c.choice('abcXYZ019_.+$^|&~?@')
            items.append((ch, ch))
    if items[0][0] == '^':
        items[0] = ('a', 'a')
    return neg, tuple(items)


def gen_pattern(c):
    toks, fields = [], list(FIELDS)
    c.rnd.shuffle(fields)
    if c.chance(.15):
        toks.append(('lit', '/'))
    for level in range(c.int(1, 4)):
        if level:
            toks.append(('lit', '/'))
        for _ in range(c.int(1, 4)):
            k = c.int(0, 11)
            if k < 4:
                toks += [('lit', ch) for ch in (c.rnd.choice(LIT if c.chance(.5) else WORD) for _ in range(c.int(1, 3)))]
            elif k < 7 and fields:
                toks.append(('field', fields.pop()))
            elif k in (7, 8) and toks and toks[-1][0] in ('star', 'dstar'):
                continue
            elif k == 7:
                toks.append(('star',))
            elif k == 8:
                toks.append(('dstar',))
            elif k == 9:
                toks.append(('any',))
            elif k == 10:
                toks.append(('set',) + gen_set(c))
    return toks


def text(toks):
    out = []
    for t in toks:
        if t[0] == 'set':
            out.append('[' + ('!' if t[1] else '') + ''.join(lo if lo == hi else f'{lo}-{hi}' for lo, hi in t[2]) + ']')
        else:
            out.append({'lit': t[-1], 'field': '{%s}' % t[-1], 'star': '*', 'dstar': '**', 'any': '?'}[t[0]])
    return ''.join(out)


def in_set(t, ch):
    return any(lo <= ch <= hi for lo, hi in t[2]) != t[1]


def matches(toks, path, values=None):
    " does the whole path match? fields stand for given values, or for any word "
    @functools.lru_cache(None)
    def rec(i, j):
        if i == len(toks):
            return j == len(path)
        t = toks[i]
        k = t[0]
        if k == 'lit':
            return path[j:j + 1] == t[1] and rec(i + 1, j + 1)
        if k == 'any':
            return j < len(path) and rec(i + 1, j + 1)
        if k == 'set':
            return j < len(path) and in_set(t, path[j]) and rec(i + 1, j + 1)
        if k == 'field':
            if values is not None:
                v = values[t[1]]
                return path.startswith(v, j) and rec(i + 1, j + len(v))
            e = j
            while e < len(path) and path[e] in '_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ':
                e += 1
                if rec(i + 1, e):
                    return True
            return False
        e = j
        while True:
            if rec(i + 1, e):
                return True
            if e >= len(path) or (k == 'star' and path[e] == '/'):
                return False
            e += 1
    return rec(0, 0)


def grow(c, toks):
    " a path matching the pattern, most of the time "
    out = []
    for t in toks:
        k = t[0]
        if k == 'lit':
            out.append(t[1])
        elif k == 'field':
            out.append(''.join(c.rnd.choice(WORD) for _ in range(c.choice([1, 1, 2, 5]))))
        elif k == 'star':
            out.append(''.join(c.rnd.choice(LIT) for _ in range(c.choice([0, 1, 3]))))
        elif k == 'dstar':
            out.append(''.join(c.rnd.choice('ab/c_/.') for _ in range(c.choice([0, 1, 3, 6]))))
        elif k == 'any':
            out.append(c.rnd.choice(LIT + '/'))
        else:
            ok = [ch for ch in WORD + LIT if in_set(t, ch)]
            out.append(c.rnd.choice(ok or ['a']))
    return ''.join(out)


def mutate(c, p):
    i = c.int(0, max(0, len(p) - 1))
    k = c.int(0, 6)
    ch = c.rnd.choice(LIT + '/')
    if k == 0:
        return p[:i] + ch + p[i + 1:]
    if k == 1:
        return p[:i] + ch + p[i:]
    if k == 2:
        return p[:i] + p[i + 1:]
    if k == 3:
        return p + c.choice(['x', '/', '/x', '\n', '.txt'])
    if k == 4:
        return c.choice(['x', 'x/', '/']) + p
    if k == 5:
        return p.replace('/', '/zz/', 1)
    return p.swapcase()


def usable(p):
    return p and not p.startswith('//') and '\0' not in p


def respell(c, p):
    " another spelling of the same path "
    q = c.choice([lambda: './' + p, lambda: p + '/', lambda: p.replace('/', '//') if not p.startswith('/') else p, lambda: 'q/../' + p, lambda: p.replace('/', '/./')])()
    return q if os.path.normpath(q) == p else p


def twice(c):
    " a field used several times, with the same value everywhere "
    from razorback.utils import tags_from_path
    fields = c.rnd.sample(['a', 'site', 'c_1', 'T'], c.int(1, 3))
    toks = fields + c.rnd.choices(fields, k=c.int(1, 2))
    c.rnd.shuffle(toks)
    seps = [c.choice('/-.') for _ in toks]
    pat = ''.join('{%s}%s' % x for x in zip(toks, seps)) + 'x'
    names = []
    for _ in range(c.int(1, 4)):
        v = {f: ''.join(c.rnd.choice(WORD) for _ in range(c.int(1, 4))) for f in fields}
        names.append((''.join(v[f] + s for f, s in zip(toks, seps)) + 'x', [v[f] for f in fields]))
    c.note(pattern=pat, names=names)
    got = list(tags_from_path([n for n, _ in names], pat, *['{%s}' % f for f in fields]))
    c.ok(got == names, 'field used several times', got=got, want=names)
    c.obs('repeated_field')


def case(c):
    if c.chance(.02):
        twice(c)
    from razorback.utils import tags_from_path
    toks = gen_pattern(c)
    pat = text(toks)
    stable = usable(pat) and os.path.normpath(pat) == pat and '***' not in pat
    if not stable or pat in ('.', '..'):
        raise Skip
    fields = [t[1] for t in toks if t[0] == 'field']
    names = []
    for _ in range(c.int(3, 10)):
        p = grow(c, toks)
        for _ in range(c.choice([0, 0, 1, 1, 2])):
            p = mutate(c, p)
        if usable(p):
            names.append(p)
    if names and c.chance(.3):
        names.append(c.choice(names))
        c.obs('duplicates')
    given = list(names)
    if c.chance(.15):
        given = [respell(c, n) for n in names]
        c.obs('normalised')
    pat_given = pat
    if c.chance(.1) and not pat.startswith('/'):
        pat_given = c.choice(['./' + pat, pat + '/', pat.replace('/', '//')])
        if os.path.normpath(pat_given) != pat:
            pat_given = pat
    if c.chance(.1) and all(str(pathlib.Path(n)) == n for n in given):
        given = [pathlib.Path(n) for n in given]
    sep = '\x01'
    full = sep.join('{%s}' % f for f in fields)
    tpls = [full]
    for _ in range(c.int(0, 2)):
        tpls.append(''.join(c.choice(['{%s}' % c.choice(fields) if fields else 'k', c.choice(['x', '_', '-', ' ', '', '%s', '\\1'])]) for _ in range(c.int(0, 4))))
    c.note(pattern=pat_given, names=[str(n) for n in given], templates=tpls[1:])
    src = c.choice([list, tuple, iter])(given)
    res = list(tags_from_path(src, pat_given, *tpls))
    want = [(g, os.path.normpath(str(g))) for g in given]
    want = [(g, p, matches(tuple(toks), p)) for g, p in want]
    hit = [(g, p) for g, p, m in want if m]
    c.ok([r[0] for r in res] == [g for g, _ in hit], 'yielded paths', got=[str(r[0]) for r in res], want=[str(g) for g, _ in hit])
    for (name, got), (g, p) in zip(res, hit):
        c.ok(len(got) == len(tpls) and all(isinstance(x, str) for x in got), 'one string per template', got=got)
        vals = got[0].split(sep) if fields else []
        c.ok(len(vals) == len(fields) and (fields or got[0] == ''), 'template filled', got=got)
        vals = dict(zip(fields, vals))
        c.ok(all(v and all(ch.isascii() and (ch.isalnum() or ch == '_') for ch in v) for v in vals.values()), 'field values', got=vals)
        c.ok(matches(tuple(toks), p, vals), 'field values do not make the pattern match', path=p, values=vals)
        for t, x in zip(tpls[1:], got[1:]):
            w = t
            for f, v in vals.items():
                w = w.replace('{%s}' % f, v)
            c.ok(x == w, 'templates use the same values', got=x, want=w)
        c.obs('fields', len(fields))
        c.obs('ambiguous', int(sum(t[0] in ('field', 'star', 'dstar') for t in toks) > 3))
    c.obs('matching', len(hit))
    c.obs('not_matching', len(given) - len(hit))
    c.obs('near_miss', sum(not m for _, _, m in want))
    c.obs('star_level', int(any(t[0] == 'star' for t in toks)))
    c.obs('sets', int(any(t[0] == 'set' for t in toks)))
    c.obs('regex_chars', int(any(t[0] == 'lit' and t[1] in '.+()$^|' for t in toks)))
    c.sig(pat, names)
    if len(given) > 1 and c.chance(.2):            # one path at a time gives the same
        for g, p, m in want:
            one = list(tags_from_path([g], pat_given, full))
            c.ok(len(one) == int(m), 'path alone')
        c.obs('lazy')
    if c.chance(.15):
        bad = c.choice(['{zz}', '{a}{nope}', 'x{unknown_field}', '{A9}'])
        if not {'zz', 'nope', 'unknown_field', 'A9'} & set(fields):
            c.refused(lambda: list(tags_from_path(given, pat_given, *c.rnd.sample([full, bad], 2))), 'template with unknown field')
            c.refused(lambda: list(tags_from_path([], pat_given, bad)), 'template with unknown field, no path')
            c.obs('refused_template')
    if c.chance(.15):
        bad = c.choice(['{}', '{0}', '{1a}', '{a b}', '{a-b}', '{a.b}', '{a[0]}', '{a:3}', '{a!r}', '{a', 'a}', '{:}', '{!s}', '{*}', '{-}', '{a+}', '{ a}'])
        if c.chance(.5):
            c.refused(lambda: list(tags_from_path(['aaa'], c.choice(['', 'x/', '*']) + bad)), 'malformed field in the pattern', exc=Exception)
        else:
            c.refused(lambda: list(tags_from_path(['aaa'], '{a}', bad)), 'malformed field in a template')
        c.note(bad=bad)
        c.obs('malformed')
    c.sample(**c.detail)
