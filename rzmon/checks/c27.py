"""C27: data file resolution and the `rzb path` commands, against a model of the two directories."""
import os
import pathlib
import subprocess
import sys

from .. import pkgcopy

RULE = ('random states of the working directory and of the data directory of a private copy of the package (absent, empty, with some of the files, links), sequences of resolutions, '
        'path commands with and without creation, changes of directory and file creation or removal; each result against a model of the two directories and a snapshot of both '
        'trees before and after; distinct by state and sequence')
CASES = dict(quick=1500, thorough=40000)
MIN = dict(local_hit=120, package_hit=120, fallback=40, shadowed=25, refused=200, printed=300, created=80, already=80, repeated=80, snapshots=600, process=10, moved=150, linked=40, plain_file=60, blocked=1)
FILES = ['MFS06e1.TXT', 'MFS07e2.TXT', 'x.dat', 'sub/y.dat']
TARGETS = ['metronix_calibration', 'other', 'metronix_calibration/deep', '']


def model_file(cwd, pkg, name, target):
    for base in (cwd, pkg):
        d = os.path.join(base, 'data', target)
        if base == pkg or os.path.isdir(d):
            if os.path.isfile(os.path.join(d, name)):
                return base, os.path.join(d, name)
    return None


def model_dir(cwd, pkg, target):
    d = os.path.join(cwd, 'data', target)
    return d if os.path.isdir(d) else os.path.join(pkg, 'data', target)


def same_path(a, b):
    return os.path.isabs(str(a)) and os.path.realpath(str(a)) == os.path.realpath(str(b))


def put(c, base, p_file=.75):
    for t in TARGETS:
        if c.chance(.6):
            d = pathlib.Path(base) / 'data' / t
            d.mkdir(parents=True, exist_ok=True)
            for f in FILES:
                if c.chance(p_file):
                    (d / f).parent.mkdir(exist_ok=True)
                    (d / f).write_text(f'{base} {t} {f} {c.rnd.random()}')


def case(c):
    pkg = pkgcopy.private(c)
    pkgcopy.clean(pkg)
    import razorback as rb
    import razorback.cli
    root = c.scratch / 'root'
    places = [root / n for n in ('a', 'b', 'b/c', 'with space', 'data', 'data/data')]
    for p in places:
        p.mkdir(parents=True, exist_ok=True)
    if c.chance(.8):
        put(c, pkg)
    for p in places:
        if c.chance(.5):
            put(c, p)
    if c.chance(.3):
        real = root / 'elsewhere'
        put(c, real, .8)
        (real / 'data' / 'metronix_calibration').mkdir(parents=True, exist_ok=True)
        where = c.choice(places)
        if not (where / 'data').exists():
            (where / 'data').symlink_to(real / 'data')
            c.obs('linked')
        if not (root / 'link').exists():
            (root / 'link').symlink_to(where)
            places.append(root / 'link')
    if c.chance(.35):            # a regular file where a directory is looked for is no local directory
        for p in c.rnd.sample(places, c.int(1, 3)):
            f = p / c.choice(['data', 'data/metronix_calibration', 'data/other'])
            if not os.path.lexists(f) and os.path.isdir(p) and (f.name == 'data' or os.path.isdir(f.parent)):
                f.write_text('file')
                c.obs('plain_file')
    os.chdir(c.choice(places))
    ops = []
    for _ in range(c.int(4, 12)):
        op = c.choice(['file', 'file', 'file', 'path', 'path', 'create', 'create', 'cd', 'touch', 'rm', 'api'])
        ops.append(op)
        c.note(ops=ops, cwd=os.getcwd())
        cwd = os.getcwd()
        before = pkgcopy.tree(root), pkgcopy.tree(pkg)
        expect_new = ()
        if op == 'cd':
            os.chdir(c.choice(places))
            c.obs('moved')
            continue
        if op == 'touch':
            t = c.choice(TARGETS)
            d = pathlib.Path(c.choice([cwd, pkg])) / 'data' / t
            if any(p.is_file() for p in (d, *d.parents)):
                continue
            if d.exists() or not (pathlib.Path(cwd) / 'data').is_symlink():
                d.mkdir(parents=True, exist_ok=True)
                (d / 'x.dat').write_text(str(c.rnd.random()))
            continue
        if op == 'rm':
            fs = [p for b in (cwd, pkg) for p in pathlib.Path(b).glob('data/*/*') if p.is_file()]
            if fs:
                c.choice(fs).unlink()
            continue
        if op == 'file':
            name, target = c.choice(FILES), c.choice(TARGETS)
            hits = [(f, t) for f in FILES for t in TARGETS if model_file(cwd, pkg, f, t)]
            if hits and c.chance(.5):
                name, target = c.choice(hits)
            want = model_file(cwd, pkg, name, target)
            if want is None:
                c.refused(lambda: rb.data.get_data_file(name, target), 'missing data file')
                c.obs('refused')
            else:
                got = rb.data.get_data_file(name, target)
                c.ok(same_path(got, want[1]), 'data file', got=str(got), want=want[1])
                c.obs('local_hit' if want[0] == cwd else 'package_hit')
                has_local = os.path.isdir(os.path.join(cwd, 'data', target))
                c.obs('fallback', int(want[0] == pkg and has_local))
                c.obs('shadowed', int(want[0] == cwd and os.path.isfile(os.path.join(pkg, 'data', target, name))))
                if c.chance(.3):
                    os.chdir(c.choice(places))
                    c.ok(open(got).read() == open(want[1]).read(), 'resolved file is independent of the working directory')
                    os.chdir(cwd)
        elif op == 'api':
            target = c.choice(TARGETS)
            c.ok(same_path(rb.data.data_path(target), model_dir(cwd, pkg, target)), 'data_path', got=str(rb.data.data_path(target)))
            c.ok(same_path(rb.data.local_data_path(target), os.path.join(cwd, 'data', target)), 'local_data_path')
            c.ok(same_path(rb.data.default_data_path(target), os.path.join(pkg, 'data', target)), 'default_data_path')
        else:
            sub = c.choice(['base', 'metronix'])
            target = '' if sub == 'base' else 'metronix_calibration'
            local = os.path.join(cwd, 'data', target)
            args = ['path'] + ([c.choice(['-c', '--create'])] if op == 'create' else []) + [sub]
            existed = os.path.isdir(local)
            want_dir = model_dir(cwd, pkg, target)
            if op == 'create' and (os.path.isfile(local) or os.path.isfile(os.path.join(cwd, 'data'))):
                from click.testing import CliRunner
                r = CliRunner().invoke(rb.cli.cli, args)
                c.ok('created' not in r.output, 'directory said to be created over a file', got=r.output)
                c.ok((pkgcopy.tree(root), pkgcopy.tree(pkg)) == before, 'a creation that is not possible changes something')
                c.obs('blocked')
                continue
            out = command(c, rb, args, pkg)
            if op == 'path':
                c.ok(out.endswith('\n') and out.count('\n') == 1 and same_path(out[:-1], want_dir), 'printed directory', got=out, want=want_dir)
                c.obs('printed')
            else:
                words = out.rstrip('\n')
                c.ok(os.path.isdir(local), 'local directory created')
                c.ok('\n' not in words, 'one line', got=out)
                c.ok(('already' in words) == existed and ('created' in words) == (not existed), 'says whether it was created', got=out, existed=existed)
                c.ok(os.path.realpath(local) in words or local in words, 'prints the local directory', got=out, want=local)
                p = words.split(' already')[0].split(' created')[0]
                c.ok(same_path(p, local), 'prints the local directory', got=out, want=local)
                c.obs('already' if existed else 'created')
                expect_new = [os.path.relpath(os.path.realpath(d), os.path.realpath(root)) for d in (os.path.join(cwd, 'data'), local)]
                if c.chance(.4):
                    again = command(c, rb, args, pkg)
                    c.ok('already' in again and 'created' not in again, 'can be repeated', got=again)
                    c.obs('repeated')
        after = pkgcopy.tree(root), pkgcopy.tree(pkg)
        c.ok(after[1] == before[1], 'package directory changed', op=op, new=set(after[1]) ^ set(before[1]))
        new = set(after[0]) - set(before[0])
        c.ok(new <= set(expect_new), 'unexpected new files', op=op, new=new, allowed=expect_new)
        c.ok({k: v for k, v in after[0].items() if k not in new} == before[0], 'existing files changed', op=op)
        c.ok(os.getcwd() == cwd, 'working directory changed')
        c.obs('snapshots')
    c.sig(ops, sorted(pkgcopy.tree(root))[:50])
    c.sample(**c.detail)


def command(c, rb, args, pkg):
    if c.chance(.012):
        env = dict(os.environ, PYTHONPATH=str(pkg.parent), PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from razorback.cli import cli; cli()'] + args, env=env, capture_output=True, text=True, timeout=120)
        c.ok(r.returncode == 0, 'command failed', args=args, err=r.stderr[-500:])
        c.obs('process')
        return r.stdout
    from click.testing import CliRunner
    r = CliRunner().invoke(rb.cli.cli, args)
    c.ok(r.exit_code == 0 and r.exception is None, 'command failed', args=args, output=r.output, error=repr(r.exception))
    return r.stdout
