"""Systematic small changes of the package, to find what the checks do not see.

    python3 tools/mutants.py list [FILE...]          number of mutants per file
    python3 tools/mutants.py test [FILE...]          keep those that pass the existing tests
    python3 tools/mutants.py run [-w N] [FILE...]    run the checks against those kept
    python3 tools/mutants.py show                    mutants that no check reported

Everything happens in copies of the package below /tmp/mut.  The results say
where to look: a surviving mutant is either a change that keeps the behaviour
or something a check should learn to see.
"""
import ast
import concurrent.futures as cf
import copy
import difflib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import threading

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
WORK = pathlib.Path('/tmp/mut')
PY = '/opt/venv/bin/python'
FILES = ['signalset.py', 'utils.py', 'mestimator.py', 'weights.py', 'prefilters.py', 'fourier_transform.py',
         'calibrations.py', 'data.py', 'cli.py', 'io/ats.py', 'io/binary_file_array.py']
SKIP = {'time_to_freq_old', 'sliding_window', 'ft', 'm_expexp', 'prefilter_values_mass_proc',
        '__str__', '__repr__', 'load_ats_from'}
# checks by function, most likely first; then those of the file
BY_FILE = {
    'signalset.py': 'C01 C03 C02 C04 C05 C06 C07 C08 C09 C33 C10 C11 C21 C29',
    'utils.py': 'C18 C19 C21 C20 C32 C22 C30 C28 C13 C16',
    'mestimator.py': 'C13 C14 C17 C16 C15 C32 C20 C19',
    'weights.py': 'C35 C14 C16 C15 C20',
    'prefilters.py': 'C22 C21 C19 C20',
    'fourier_transform.py': 'C11 C34 C12 C18 C20 C10',
    'calibrations.py': 'C25 C26',
    'data.py': 'C27 C25',
    'cli.py': 'C31 C27',
    'io/ats.py': 'C23 C29 C12',
    'io/binary_file_array.py': 'C24 C23 C12 C29',
}
BY_FUNC = {
    '_reorder_data': 'C02', 'join': 'C02', 'merge': 'C03', 'extract_t': 'C01 C08', 'extract_i': 'C01', '_time_to_index': 'C01 C03',
    'select_channels': 'C04 C08', 'select_runs': 'C05 C08', 'merge_consecutive_runs': 'C06', '_group_indices': 'C06',
    'pack': 'C07', '_join_merge': 'C07', 'filter': 'C08 C09', 'extract_groups': 'C08', 'fourier_coefficients': 'C11',
    '__setitem__': 'C09', '__getattr__': 'C09', '__setattr__': 'C09', '__delattr__': 'C09', 'filter_get': 'C09', '__eq__': 'C09 C02',
    'impedance_mass_proc': 'C30', 'compute_prefilter': 'C22', 'prefilter_values': 'C22', 'apply_prefilter': 'C21 C19', 'transfer_function_real_prob': 'C32',
    'tags_from_path': 'C28', '_prepare_pattern': 'C28', '_get_fields': 'C28', 'transfer_error': 'C17', 'slepian': 'C34',
    'slepian_window': 'C34', 'metronix': 'C25', 'phoenix': 'C26', 'tags': 'C33 C10 C08', '__init__': 'C33',
}


def functions(tree):
    " (qualified name, node) of the outermost functions "
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            yield node.name, node
        elif isinstance(node, ast.ClassDef):
            for sub in node.body:
                if isinstance(sub, ast.FunctionDef):
                    yield f'{node.name}.{sub.name}', sub


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult,
       ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any', 'sorted': 'list', 'floor': 'ceil', 'ceil': 'floor', 'right': 'left',
         'left': 'right', 'minimum': 'maximum', 'nanmedian': 'nanmean', 'union1d': 'append', 'real': 'imag', 'unique': 'array',
         'start': 'stop', 'stop': 'start', 'append': 'extend', 'issuperset': 'issubset', 'issubset': 'issuperset', 'weights': 'remote_weights',
         'prefilter': 'remote_prefilter', 'remote_weights': 'weights', 'remote_prefilter': 'prefilter', 'interval': 'intervals',
         'l_ivt': 'l_err', 'round': 'floor', 'fullmatch': 'match', 'match': 'search', 'is_dir': 'exists', 'is_file': 'exists', 'exists': 'is_dir',
         'is_dir_': 'exists', 'nonzero': 'where', 'l_err': 'l_T', 'i': 'j', 'j': 'i', 'e': 'b', 'b': 'e', 'br': 'b', 'be': 'b', 'T': 'z'}


def edits(fn):
    " functions that change a deep copy of the node in place, one per mutant "
    nodes = [n for n in ast.walk(fn)]
    for k, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    def f(m, i=i, new=new):
                        m.ops[i] = new()
                    yield k, f
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            def f(m):
                m.op = BIN[type(m.op)]()
            yield k, f
        elif isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield k, f
            for i in range(len(n.values)):
                def f(m, i=i):
                    del m.values[i]
                    if len(m.values) == 1:
                        m.values = m.values * 2
                yield k, f
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            def f(m):
                m.op = ast.UAdd() if isinstance(m.op, (ast.USub, ast.Invert)) else ast.Not()
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield k, f
        elif isinstance(n, ast.Constant):
            v = n.value
            vals = []
            if isinstance(v, bool):
                vals = [not v]
            elif isinstance(v, (int, float)):
                vals = [v + 1, v - 1] if isinstance(v, int) else [v * 1.5, v * .5, -v]
            elif v is None:
                vals = [0]
            for w in vals:
                def f(m, w=w):
                    m.value = w
                yield k, f
        elif isinstance(n, ast.If):
            for w in (True, False):
                def f(m, w=w):
                    m.test = ast.Constant(w)
                yield k, f
        elif isinstance(n, ast.IfExp):
            for w in (True, False):
                def f(m, w=w):
                    m.test = ast.Constant(w)
                yield k, f
        elif isinstance(n, ast.comprehension) and n.ifs:
            def f(m):
                m.ifs = []
            yield k, f
        elif isinstance(n, (ast.Name, ast.Attribute)):
            name = n.id if isinstance(n, ast.Name) else n.attr
            if name in NAMES and not isinstance(n.ctx, ast.Store):
                def f(m, new=NAMES[name]):
                    if isinstance(m, ast.Name):
                        m.id = new
                    else:
                        m.attr = new
                yield k, f
        elif isinstance(n, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                if getattr(n, part) is not None:
                    def f(m, part=part):
                        setattr(m, part, None)
                    yield k, f
        elif isinstance(n, ast.Break):
            def f(m):
                m.__class__ = ast.Continue
            yield k, f
        elif isinstance(n, ast.Continue):
            def f(m):
                m.__class__ = ast.Pass
            yield k, f
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                def f(m, i=i):
                    del m.keywords[i]
                yield k, f
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                def f(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield k, f
            if len(n.args) == 1 and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                def f(m):                                  # g(x) -> x
                    m.__class__, m._fields = ast.Subscript, ast.Subscript._fields
                    a = m.args[0]
                    m.value, m.slice, m.ctx = ast.Tuple([a], ast.Load()), ast.Constant(0), ast.Load()
                yield k, f
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                def f(m):                                  # x.g() -> x
                    a = m.func.value
                    m.__class__, m._fields = ast.Subscript, ast.Subscript._fields
                    m.value, m.slice, m.ctx = ast.Tuple([a], ast.Load()), ast.Constant(0), ast.Load()
                yield k, f
        for field in ('body', 'orelse', 'finalbody'):
            seq = getattr(n, field, None)
            if isinstance(seq, list):
                for i, st in enumerate(seq):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise, ast.Return)) or (
                            isinstance(st, ast.Expr) and not isinstance(st.value, ast.Constant)):
                        def f(m, field=field, i=i):
                            getattr(m, field)[i] = ast.Pass()
                        yield k, f


def mutants(rel):
    src = (REPO / 'src/razorback' / rel).read_text()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    seen = set()
    for name, fn in functions(tree):
        short = name.split('.')[-1]
        if short in SKIP:
            continue
        first = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
        indent = ' ' * fn.col_offset
        base = ast.unparse(fn)
        for k, edit in edits(fn):
            new = copy.deepcopy(fn)
            target = [n for n in ast.walk(new)][k]
            if target is new and False:
                continue
            try:
                edit(target)
                text = ast.unparse(ast.fix_missing_locations(new))
                ast.parse(text)
            except Exception:
                continue
            if text == base or text in seen:
                continue
            seen.add(text)
            body = ''.join(indent + l + '\n' if l else '\n' for l in text.split('\n'))
            full = ''.join(lines[:first]) + body + ''.join(lines[fn.end_lineno:])
            diff = [l for l in difflib.unified_diff(base.split('\n'), text.split('\n'), lineterm='', n=0) if l[:1] in '+-' and l[:3] not in ('+++', '---')]
            yield dict(file=rel, func=name, diff=diff, text=full)


def tree_for(slot):
    d = WORK / f'tree{slot}'
    if not d.exists():
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def put(slot, m):
    d = tree_for(slot)
    p = d / 'src/razorback' / m['file']
    p.write_text(m['text'])
    return d, p


def restore(p, rel):
    p.write_text((REPO / 'src/razorback' / rel).read_text())


slots = threading.local()
_free = []
_lock = threading.Lock()


def slot():
    if not hasattr(slots, 'n'):
        with _lock:
            slots.n = len(_free)
            _free.append(1)
    return slots.n


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def passes(m):
    d, p = put(slot(), m)
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=d,
                           env=dict(ENV, PYTHONPATH=str(d / 'src')), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        restore(p, m['file'])


def checks_for(m):
    short = m['func'].split('.')[-1]
    by_class = {'TagsBase': 'C09 C33', 'Tags': 'C09 C33', 'Inventory': 'C08 C07 C10', 'SyncSignal': 'C33 C01 C11 C10', 'SignalSet': 'C33 C10',
                'Weights': 'C16 C35', 'Huber': 'C35 C14', 'Thomson': 'C35 C14', 'BoundedInfluenceStep': 'C14 C16'}
    order = BY_FUNC.get(m['func'], BY_FUNC.get(short, '')).split() + by_class.get(m['func'].split('.')[0], '').split() + BY_FILE[m['file']].split()
    return list(dict.fromkeys(order))


MOST, PART = 4, 12


def quick_cases(c):
    text = (VERIF / f'rzmon/checks/{c.lower()}.py').read_text()
    return int(re.search(r'^CASES = dict\(quick=(\d+)', text, re.M).group(1))


def judge(m, jobs):
    d, p = put(f'r{slot()}', m)
    odd = []
    try:
        for c in checks_for(m)[:MOST]:
            try:
                n = max(30, quick_cases(c) // PART)
                r = subprocess.run([sys.executable, 'run.py', c, '--jobs', str(jobs), '--cases', str(n)], cwd=WORK / 'verif', env=dict(ENV, RZMON_REPO=str(d)),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=880)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
            if rc == 1 and 'VIOLATION' in out:
                return dict(by=c, odd=odd)
            if rc != 0:
                odd.append((c, rc, out[-300:]))
        return dict(by=None, odd=odd)
    finally:
        restore(p, m['file'])


def key(m):
    return m['file'] + '|' + m['func'] + '|' + '\n'.join(m['diff'])


def main():
    args = sys.argv[1:]
    cmd = args.pop(0)
    width = 4
    if args[:1] == ['-w']:
        width = int(args[1])
        args = args[2:]
    WORK.mkdir(exist_ok=True)
    kept_p, res_p = WORK / 'kept.json', WORK / 'results.json'
    kept = json.loads(kept_p.read_text()) if kept_p.exists() else {}
    res = json.loads(res_p.read_text()) if res_p.exists() else {}
    files = args or FILES
    if cmd == 'list':
        for f in files:
            print(f, sum(1 for _ in mutants(f)))
    elif cmd == 'test':
        ms = [m for f in files for m in mutants(f) if key(m) not in kept]
        with cf.ThreadPoolExecutor(8) as ex:
            for n, (m, ok) in enumerate(zip(ms, ex.map(passes, ms))):
                kept[key(m)] = ok
                if n % 50 == 0:
                    kept_p.write_text(json.dumps(kept))
        kept_p.write_text(json.dumps(kept))
        print(sum(kept.values()), 'of', len(kept), 'pass the tests')
    elif cmd == 'run':
        if not (WORK / 'verif').exists():
            subprocess.run(['git', 'clone', '-q', str(VERIF), str(WORK / 'verif')], check=True)
        else:
            subprocess.run(['git', '-C', str(WORK / 'verif'), 'pull', '-q'], check=True)
        ms = [m for f in files for m in mutants(f) if kept.get(key(m)) and key(m) not in res]
        if os.environ.get('SAMPLE'):
            import random
            random.Random(int(os.environ.get('SEED', 1))).shuffle(ms)
            ms = ms[:int(os.environ['SAMPLE'])]
        print(len(ms), 'to run', flush=True)
        with cf.ThreadPoolExecutor(width) as ex:
            futs = {ex.submit(judge, m, max(1, 8 // width)): m for m in ms}
            for fut in cf.as_completed(futs):
                m = futs[fut]
                r = res[key(m)] = dict(fut.result(), file=m['file'], func=m['func'], diff=m['diff'])
                res_p.write_text(json.dumps(res, indent=1))
                if r['by'] is None or r['odd']:
                    print('SURVIVES' if r['by'] is None else 'odd', m['file'], m['func'], m['diff'], r['odd'], flush=True)
    elif cmd == 'show':
        n = 0
        for r in res.values():
            if r['by'] is None and (not args or r['file'] in args):
                n += 1
                print(r['file'], r['func'], *r['diff'], *([r['odd']] if r['odd'] else []), sep='\n    ')
        print(n, 'survive of', len(res))


main()
