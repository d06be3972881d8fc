"""C31: commands of fake installed packages, run through the command line in fresh processes."""
import json
import os
import re
import subprocess
import sys

from ..core import SRC, HarnessError

RULE = ('0 to 4 fake installed packages (dist-info or egg-info directories on the import path) declaring 0 to 4 commands, groups or nested objects each, with names sorting before, between '
        'and after the built-in ones or equal to them, plus entry points of other groups; in a fresh process: listing, help, calls with arguments, options, failures and unknown names; '
        'distinct by set of plugins and calls')
CASES = dict(quick=144, thorough=4000)
MIN = dict(processes=40, listed=60, called=80, unknown=30, builtin=60, no_plugin=1, override=2, groups=15, command_line=2, other_groups=15, failing=10)
NAMES = ['aaa', 'plot', 'zz-top', 'Upper', 'x1', 'inv', 'path2', 'pat', 'vers', 'versions', 'pack_all', 'q', 'mt', 'b-c', 'Zed', 'run']

DRIVER = r'''
import json, sys, warnings
warnings.simplefilter('ignore')
from click.testing import CliRunner
import razorback.cli as m
calls = json.load(open(sys.argv[1]))
out = []
for args in calls:
    r = CliRunner().invoke(m.cli, args, prog_name='rzb')
    out.append(dict(code=r.exit_code, out=r.output, err=None if r.exception is None or isinstance(r.exception, SystemExit) else repr(r.exception)))
print('\n@@@' + json.dumps(dict(out=out, file=m.__file__)))
'''

MODULE = '''
import click

@click.command()
@click.argument('values', nargs=-1)
@click.option('--times', default=1)
def simple(values, times):
    "A simple command of {tag}."
    click.echo('{tag}:' + '|'.join(values) + ':' + str(times))

@click.command()
@click.argument('code', type=int)
def failing(code):
    "A failing command of {tag}."
    click.echo('{tag} fails')
    raise SystemExit(code)

@click.group()
def group():
    "A group of {tag}."

@group.command('sub')
@click.argument('value')
def sub(value):
    click.echo('{tag}/sub:' + value)

class space:
    inner = simple
'''


def case(c):
    root = c.scratch
    env_path, plugins, names = [], {}, list(NAMES)
    c.rnd.shuffle(names)
    if c.chance(.3):
        names += [c.choice(['version', 'path'])]
        names = names[-1:] + names[:-1]
    k = c.choice([0, 1, 1, 2, 3, 4])
    for i in range(k):
        where = root / (f'site{i}' if c.chance(.5) else 'site')
        mod = f'rzmon_plugin_{i}'
        (where / mod).mkdir(parents=True)
        if str(where) not in env_path:
            env_path.append(str(where))
        lines, others = [], []
        (where / mod / '__init__.py').write_text('')
        (where / mod / 'cmds.py').write_text(MODULE.format(tag=mod))
        for _ in range(c.choice([1, 2, 4, 0])):
            name = names.pop(0)
            kind, attr = c.choice([('simple', 'simple'), ('simple', 'space.inner'), ('group', 'group'), ('failing', 'failing')])
            lines.append(f'{name} = {mod}.cmds:{attr}')
            plugins[name] = (mod, kind)
        if c.chance(.5):
            others.append(f'hidden{i} = {mod}.cmds:simple')
            c.obs('other_groups')
        ep = '[console_scripts]\nzzz = x:y\n' + '\n[rzb.commands]\n' + '\n'.join(lines) + '\n\n[rzb.other]\n' + '\n'.join(others) + '\n'
        if c.chance(.6):
            d = where / f'{mod}-1.{i}.dist-info'
            d.mkdir()
            (d / 'METADATA').write_text(f'Metadata-Version: 2.1\nName: {mod}\nVersion: 1.{i}\n')
            (d / 'RECORD').write_text('')
        else:
            d = where / f'{mod}.egg-info'
            d.mkdir()
            (d / 'PKG-INFO').write_text(f'Metadata-Version: 1.1\nName: {mod}\nVersion: 1.{i}\n')
        (d / 'entry_points.txt').write_text(ep)
    c.obs('no_plugin', int(not plugins))
    c.obs('override', int(bool({'version', 'path'} & set(plugins))))
    all_names = sorted({'version', 'path'} | set(plugins))
    calls = [(['--help'], 'list'), (['-h'], 'list')]
    for name, (mod, kind) in plugins.items():
        for _ in range(2):
            calls.append(call(c, name, mod, kind))
        calls.append(([name, '--help'], 'help', mod))
    if 'version' not in plugins:
        calls.append((['version'], 'version'))
    if 'path' not in plugins:
        calls += [(['path', 'base'], 'out', '/data'), (['path', 'metronix'], 'out', 'metronix_calibration')]
    for bad in c.rnd.sample(['nope', 'hidden0', 'zzz', 'versio', 'simple', 'cmds', 'AAA', 'pathh', 'versions-'], 2):
        if bad not in plugins:
            calls.append(([bad], 'unknown'))
    c.rnd.shuffle(calls)
    c.note(plugins=plugins, calls=[x[0] for x in calls])
    cwd = root / 'cwd'
    cwd.mkdir()
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=os.pathsep.join(c.rnd.sample(env_path, len(env_path)) + [SRC.rsplit('/razorback', 1)[0]]), PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', COLUMNS='200')
    (root / 'calls.json').write_text(json.dumps([x[0] for x in calls]))
    (root / 'driver.py').write_text(DRIVER)
    r = subprocess.run([sys.executable, '-W', 'ignore', str(root / 'driver.py'), str(root / 'calls.json')], env=env, cwd=cwd, capture_output=True, text=True, timeout=200)
    if r.returncode or '@@@' not in r.stdout:
        c.fail('the command line cannot be used with these packages', err=r.stderr[-1500:])
    res = json.loads(r.stdout.split('@@@')[1])
    if os.path.realpath(os.path.dirname(res['file'])) != os.path.realpath(SRC):
        raise HarnessError(res['file'])
    c.obs('processes')
    for spec, got in zip(calls, res['out']):
        verdict(c, spec, got['code'], got['out'], got['err'], all_names)
    if c.chance(.35):
        spec = c.choice(calls)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.argv[0] = "rzb"; from razorback.cli import cli; cli()'] + spec[0],
                           env=env, cwd=cwd, capture_output=True, text=True, timeout=200)
        verdict(c, spec, r.returncode, r.stdout + r.stderr, None if 'Traceback' not in r.stderr else r.stderr[-500:], all_names)
        c.obs('command_line')
    c.ok(not any(cwd.iterdir()), 'nothing is created in the working directory')
    c.sig(sorted(plugins.items()), len(env_path))
    c.sample(**c.detail)


def call(c, name, mod, kind):
    c.obs('called')
    if kind == 'simple':
        vals = [c.choice(['a', 'b c', 'é', '--', '1.5', 'x=y']) for _ in range(c.int(0, 3))]
        vals = [v for v in vals if v != '--']
        times = c.int(1, 9)
        opt = ['--times', str(times)] if c.chance(.5) else []
        times = times if opt else 1
        return [name] + (opt + vals if c.chance(.5) else vals + opt), 'exact', f'{mod}:{"|".join(vals)}:{times}\n'
    if kind == 'group':
        c.obs('groups')
        v = c.choice(['u', 'v w'])
        return [name, 'sub', v], 'exact', f'{mod}/sub:{v}\n'
    c.obs('failing')
    code = c.choice([1, 3, 7])
    return [name, str(code)], 'code', code, f'{mod} fails\n'


def verdict(c, spec, code, out, err, names):
    args, kind = spec[:2]
    c.ok(err is None, 'the command line raised', args=args, error=err, out=out)
    if kind == 'code':
        c.ok(code == spec[2] and out == spec[3], 'failing command', args=args, code=code, out=out)
        return
    if kind == 'unknown':
        c.ok(code != 0 and 'no such command' in out.lower(), 'unknown command accepted', args=args, code=code, out=out)
        c.obs('unknown')
        return
    c.ok(code == 0, 'command failed', args=args, code=code, out=out)
    if kind == 'list':
        body = out.split('Commands:')
        c.ok(len(body) == 2, 'command list', out=out)
        got = [m.group(1) for m in re.finditer(r'^  (\S+)', body[1], re.M)]
        c.ok(got == names, 'listed commands', got=got, want=names)
        c.obs('listed')
    elif kind == 'help':
        c.ok(f'of {spec[2]}.' in out, 'help of the command', args=args, out=out)
    elif kind == 'version':
        c.ok(out.startswith('razorback') and out.count('\n') == 1, 'version', out=out)
        c.obs('builtin')
    elif kind == 'out':
        c.ok(spec[2] in out, 'built-in command', args=args, out=out)
        c.obs('builtin')
    else:
        c.ok(out == spec[2], 'command output', args=args, got=out, want=spec[2])
