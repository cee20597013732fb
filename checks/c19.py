"""C19: a sweep visits every combination once and passes it on unchanged."""
import argparse
import itertools
import os
import shlex
import shutil
import subprocess
import tempfile
from collections import OrderedDict
from symtorch.runner import Case
from checks import common as cm

LEVEL = 'other'
EXPLANATION = ('Bounded symbolic checking: the sweep tools run on symbolic values (numbers, truth values, positions of separators in strings). A branch on a value is explored both ways with the solver, so that no value (0, 1, equal or repeated ones) is treated differently. '
               'Commands are recorded by a stand-in instead of being run; directories and result files live in a scratch directory, and whether a result exists is symbolic.')
ASSUMPTIONS = ['values print as words without characters special to the shell', 'distinct values print differently']
OUTSIDE = 'more settings, values or seeds than listed per case; values that need quoting in the shell; what the started script does; log files'


def same(ctx, label, a, b):
    if isinstance(b, (bool, str, type(None), list, tuple, dict)) or isinstance(a, (bool, str, type(None), list, tuple, dict)):
        ctx.check(label, type(a) is type(b) and a == b)
    else:
        ctx.check(label, a == b)


def value(ctx, kind, name):
    if kind == 'num':
        return ctx.scalar(name)
    if kind == 'flag':
        return ctx.boolean(name)
    if kind == 'none':
        return None
    return kind


def settings_of(ctx, shape, tag=''):
    """shape: list of (key, [kinds])"""
    return OrderedDict((k, [value(ctx, kind, '{}{}{}'.format(tag, k, i)) for i, kind in enumerate(kinds)]) for k, kinds in shape)


def combinations(settings):
    ks = list(settings)
    return [OrderedDict(zip(ks, vs)) for vs in itertools.product(*[settings[k] for k in ks])]


def compare(ctx, label, got, want):
    ctx.check(label + ': number of combinations', isinstance(got, list) and len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check('{}: settings of combination {}'.format(label, i), list(g) == list(w))
        for k in w:
            same(ctx, '{}: {} in combination {}'.format(label, k, i), g[k], w[k])


def sweeps(ctx, shapes, dict_type=OrderedDict):
    """several sweeps one after the other; earlier results and the inputs stay as they were"""
    import neuro_shooting.command_line_execution_tools as ce
    done = []
    for r, shape in enumerate(shapes):
        s = dict_type(settings_of(ctx, shape, 's%d' % r))
        before = OrderedDict((k, list(s[k])) for k in s)
        got = ce.recursively_sweep_parameters(pars_to_sweep=s) if r % 2 == 0 else ce.recursively_sweep_parameters(s)
        want = combinations(before)
        done.append((got, want))
        ctx.check('sweep {}: input'.format(r), list(s) == list(before))
        for k in before:
            ctx.check('sweep {}: input {}'.format(r, k), len(s[k]) == len(before[k]) and all(a is b for a, b in zip(s[k], before[k])))
        for j, (g, w) in enumerate(done):
            compare(ctx, 'sweep {} after {}'.format(j, r), g, w)
        # what the caller does with one combination does not reach the others
        if got:
            got[0]['added'] = 1
            compare(ctx, 'sweep {}: other combinations'.format(r), got[1:], want[1:])
            del got[0]['added']


def merge(ctx, template, add):
    import neuro_shooting.experiment_utils as eu
    t = OrderedDict((k, value(ctx, kind, 't' + k)) for k, kind in template)
    a = OrderedDict((k, value(ctx, kind, 'a' + k)) for k, kind in add)
    t0, a0 = OrderedDict(t), OrderedDict(a)
    for _ in range(2):
        got = eu.merge_args(t, a) if _ else eu.merge_args(run_args_template=t, add_args=a)
        want = merged(t0, a0)
        ctx.check('merged settings', set(got) == set(want))
        for k in want:
            same(ctx, 'merged ' + k, got[k], want[k])
        for what, now, was in (('template', t, t0), ('combination', a, a0)):
            ctx.check(what + ' unchanged', list(now) == list(was) and all(now[k] is was[k] for k in was))
        got['more'] = 1


def merged(t, a):
    want = OrderedDict(t)
    for k, v in a.items():
        if v is True:
            want[k] = None
        elif v is False:
            want.pop(k, None)
        else:
            want[k] = v
    return want


class Commands(object):
    """stand-ins for whatever starts a process: nothing is run"""
    NAMES = [(os, 'system'), (os, 'popen'), (subprocess, 'call'), (subprocess, 'run'), (subprocess, 'check_call'), (subprocess, 'check_output'), (subprocess, 'Popen')]

    def __enter__(self):
        self.seen, self.old = [], [(m, n, getattr(m, n)) for m, n in self.NAMES]
        for m, n in self.NAMES:
            setattr(m, n, self.record)
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)

    def record(self, cmd, *a, **k):
        self.seen.append((cmd, k))
        return 0


def parse(cmd, kw, script):
    """(interpreter, arguments, gpu) of one recorded command"""
    env = dict(kw.get('env') or {})
    toks = [str(c) for c in cmd] if isinstance(cmd, (list, tuple)) else shlex.split(cmd)
    if len(toks) == 3 and os.path.basename(toks[0]) in ('bash', 'sh') and toks[1] == '-c':
        toks = shlex.split(toks[2])
    if script not in toks:
        return None
    i = toks.index(script)
    args = list(itertools.takewhile(lambda t: not t.startswith(('>', '2>', '&>', '|', ';', '&')), toks[i + 1:]))
    for t in toks[:max(i - 1, 0)]:
        if t.startswith('CUDA_VISIBLE_DEVICES='):
            env['CUDA_VISIBLE_DEVICES'] = t.split('=', 1)[1]
    d, key, ok = OrderedDict(), None, True
    for a in args:
        if a.startswith('--'):
            key = a[2:]
            ok = ok and key not in d
            d[key] = None
        elif key is not None and d[key] is None:
            d[key] = a
        else:
            ok = False
    return (toks[i - 1] if i else None), d, env.get('CUDA_VISIBLE_DEVICES'), ok


def check_runs(ctx, label, cmds, want, script, python, gpu):
    """want: list of (settings, seed); every one is run once; returns their directories"""
    got = [parse(c, k, script) for c, k in cmds]
    ctx.check(label + ': number of runs', len(got) == len(want) and None not in got)
    dirs, left = [None] * len(want), list(range(len(want)))
    for g in got:
        interp, args, dev, ok = g
        ctx.check(label + ': interpreter', interp == python)
        ctx.check(label + ': gpu', dev == (None if gpu is None else str(gpu)))
        ctx.check(label + ': well formed', ok)
        args = dict(args)
        out = args.pop('output_directory', None)
        ctx.check(label + ': has an output directory', out is not None)
        hit = None
        for i in left:
            w = {k: (None if v is None else str(v)) for k, v in want[i][0].items()}
            w['seed'] = str(want[i][1])
            if w == args:
                hit = i
                break
        ctx.check(label + ': arguments are those of one requested run', hit is not None)
        left.remove(hit)
        dirs[hit] = out
    return dirs


def run(ctx, shape, template=(), seeds=2, start=0, gpu=0, script='script.py', python='/opt/some/python', model='simple', fcn='cubic', results=True, kinds=('pt',), base='out', again=None, exists=False, force=True):
    """a whole sweep; then, with results symbolically present, again; then recomputing"""
    import neuro_shooting.experiment_utils as eu
    tmp = tempfile.mkdtemp(prefix='c19.')
    try:
        s = settings_of(ctx, shape)
        t = OrderedDict((k, value(ctx, kind, 't' + k)) for k, kind in template)
        s0, t0 = OrderedDict((k, list(v)) for k, v in s.items()), OrderedDict(t)
        a = argparse.Namespace(gpu=gpu, path_to_python=python, nr_of_seeds=seeds, starting_seed_id=start, shooting_model=model, output_base_directory=base, force_recompute=False)
        if fcn is not None:
            a.fcn = fcn
        if exists:
            os.mkdir(os.path.join(tmp, base))
        kw = dict(args=a, run_args_to_sweep=s, run_args_template=t, python_script=script, output_dir_prefix=tmp + '/')
        want = [(merged(t0, d), sd) for sd in range(start, start + seeds) for d in combinations(s0)]

        def sweep(label, expect, **more):
            with Commands() as c:
                eu.sweep_parameters(**dict(kw, **more))
            r = check_runs(ctx, label, c.seen, expect, script, python, gpu)
            ctx.check(label + ': settings unchanged', list(s) == list(s0) and all(len(s[k]) == len(s0[k]) and all(x is y for x, y in zip(s[k], s0[k])) for k in s0))
            ctx.check(label + ': template unchanged', list(t) == list(t0) and all(t[k] is t0[k] for k in t0))
            return r

        dirs = sweep('first', want)
        ctx.check('directories exist', all(os.path.isdir(d) for d in dirs))
        ctx.check('below the requested one', all(os.path.dirname(os.path.abspath(d)) == os.path.join(tmp, base) for d in dirs))
        ctx.check('every run has its own', len(set(map(os.path.abspath, dirs))) == len(dirs))
        if results:
            have = []
            for i, d in enumerate(dirs):
                for kind in kinds:
                    if ctx.boolean('result.{}.{}'.format(kind, i)):
                        open(os.path.join(d, {'pt': 'model_1.pt', 'other': 'frame.png', 'log': 'runlog.log', 'ptx': 'x.pt.txt'}[kind]), 'w').close()
                        if kind == 'pt':
                            have.append(i)
            rest = [i for i in range(len(want)) if i not in have]
            second = sweep('again', [want[i] for i in rest])
            ctx.check('same directories', second == [dirs[i] for i in rest])
            if force:
                third = sweep('recomputing', want, do_not_recompute=False)
                ctx.check('same directories when recomputing', third == dirs)
            ctx.check('results are kept', all(os.path.exists(os.path.join(dirs[i], 'model_1.pt')) for i in have))
        if again is not None:
            # a sweep for another model or function finds no results of this one
            for d in dirs:
                open(os.path.join(d, 'model_1.pt'), 'w').close()
            for k, v in again.items():
                setattr(a, k, v)
            start = a.starting_seed_id
            other = sweep('other model', [(merged(t0, d), sd) for sd in range(start, start + a.nr_of_seeds) for d in combinations(s0)])
            ctx.check('directories of another sweep', not set(map(os.path.abspath, other)) & set(map(os.path.abspath, dirs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def text(ctx, name, n):
    """n characters, each the separator or not"""
    return ''.join(';' if ctx.boolean('{}.{}'.format(name, i)) else 'abcdefgh'[i] for i in range(n))


def strings(ctx, n, m):
    import neuro_shooting.command_line_execution_tools as ce
    a, b = text(ctx, 'a', n), text(ctx, 'b', m)
    esc = lambda x: x.replace(';', '\\;')
    # what was joined before contains escaped separators only
    first = ce.add_to_config_string(None, a)
    ctx.check('first', first == esc(a))
    ctx.check('first after empty', ce.add_to_config_string('', a) == esc(a))
    if n and m:
        ctx.check('joined', ce.add_to_config_string(first, b) == esc(a) + '\\;' + esc(b))
        ctx.check('three', ce.add_to_config_string(ce.add_to_config_string(first, b), a) == '\\;'.join([esc(a), esc(b), esc(a)]))
    ctx.check('nothing added', ce.add_to_config_string(first, None) == first)
    ctx.check('nothing', not ce.add_to_config_string(None, None) and not ce.add_to_config_string('', None))


def pairs(ctx, kinds):
    import neuro_shooting.command_line_execution_tools as ce
    kv = OrderedDict(('k%d' % i, value(ctx, kind, 'v%d' % i)) for i, kind in enumerate(kinds))
    got = ce.create_kv_string(kv)
    ctx.check('pairs', got == '\\;'.join('{}={}'.format(k, str(v)) for k, v in kv.items()))
    ctx.check('unchanged', len(kv) == len(kinds))


def arguments(ctx, kinds, gpu, log):
    """one run: the options in order, None as a bare option"""
    import neuro_shooting.command_line_execution_tools as ce
    args = OrderedDict(('k%d' % i, value(ctx, kind, 'v%d' % i)) for i, kind in enumerate(kinds))
    with Commands() as c:
        ce.run_command_with_args('some.py', args, '/opt/some/python', gpu, log)
    ctx.check('one command', len(c.seen) == 1)
    interp, got, dev, ok = parse(c.seen[0][0], c.seen[0][1], 'some.py')
    ctx.check('interpreter', interp == '/opt/some/python' and ok)
    ctx.check('gpu', dev == (None if gpu is None else str(gpu)))
    ctx.check('options', list(got) == list(args))
    for k in args:
        ctx.check('option ' + k, got[k] == (None if args[k] is None else str(args[k])))


def cases(tier):
    big = tier != 'quick'
    lim = {'max_paths': 3000}
    shapes = {
        'none': [[]],
        'one': [[('a', ['num', 'num', 'num'])], [('b', ['num'])]],
        'two': [[('a', ['num', 'num']), ('b', ['num', 'num', 'num'])], [('b', ['num', 'num']), ('a', ['num'])]],
        'three': [[('c', ['num', 'num']), ('a', ['x', 'num']), ('b', ['num', 'num'])], [], [('c', ['num', 'num'])]],
        'mixed': [[('a', ['flag', 'num', 'none', 'x', '']), ('b', ['flag', 'num'])], [('a', ['flag', 'flag'])]],
        'empty': [[('a', ['num', 'num']), ('b', [])], [('a', [])], [('a', ['num'])]],
        'same': [[('a', ['num', 'num']), ('b', ['num'])], [('a', ['num', 'num']), ('b', ['num'])], [('a', ['num', 'num'])]],
        'four': [[('d', ['num', 'num']), ('c', ['num', 'flag']), ('b', ['num']), ('a', ['num', 'num', 'num'])]],
    }
    for n, sh in shapes.items():
        yield Case('sweep-' + n, sweeps, '{} sweeps one after the other'.format(len(sh)), lim, shapes=sh)
        yield Case('sweep-dict-' + n, sweeps, 'the same with plain dictionaries', lim, shapes=sh, dict_type=dict)
    kinds = ('num', 'flag', 'none', 'x', '')
    for tk, ak in itertools.product(kinds, kinds):
        yield Case('merge-{}-{}'.format(tk or 'empty', ak or 'empty'), merge, 'a setting in both, one in each', lim, template=[('k', tk), ('t', 'num'), ('u', 'none')], add=[('k', ak), ('a', 'flag'), ('b', 'num')])
    yield Case('merge-nothing', merge, 'no settings', lim, template=[], add=[])
    yield Case('merge-flags', merge, 'three flags over a template', lim, template=[('f', 'none'), ('g', 'none'), ('h', 'num')], add=[('g', 'flag'), ('f', 'flag'), ('h', 'flag')])

    yield Case('run-plain', run, '2 settings x 2 values, 2 seeds, results of any subset of runs exist', lim, shape=[('a', ['num', 'num']), ('b', ['num'])])
    yield Case('run-flags', run, 'a flag and a number', lim, shape=[('f', [True, False]), ('a', ['num'])], template=[('f', 'none'), ('niters', 'num')], seeds=1)
    yield Case('run-symbolic-flag', run, 'template and combination', lim, shape=[('f', ['flag']), ('a', ['num', 'num'])], template=[('g', 'none'), ('a', 'num')], seeds=1, start=4)
    yield Case('run-seeds', run, '3 seeds from 7, no GPU', lim, shape=[('a', ['num'])], seeds=3, start=7, gpu=None, exists=True)
    yield Case('run-noseeds', run, 'no seeds', lim, shape=[('a', ['num'])], seeds=0)
    yield Case('run-nothing', run, 'no settings to sweep', lim, shape=[], template=[('x', 'num')], seeds=2)
    yield Case('run-files', run, 'other files than results', lim, shape=[('a', ['num'])], seeds=2, kinds=('other', 'pt', 'ptx', 'log'), force=False)
    yield Case('run-gpu', run, 'second GPU, no function', lim, shape=[('a', ['num', 'num'])], seeds=1, gpu=1, fcn=None)
    yield Case('run-wildcards', run, 'wildcard characters in the directory', lim, shape=[('a', ['num', 'num'])], seeds=1, base='out[1]')
    yield Case('run-late-seed', run, 'seeds from 99', lim, shape=[('a', ['num'])], seeds=2, start=99)
    yield Case('run-models', run, 'sweeping over models and functions', lim, shape=[('shooting_model', ['simple', 'updown']), ('fcn', ['cubic', 'quadratic'])], seeds=1)
    yield Case('run-other-model', run, 'then another model', lim, shape=[('a', ['num', 'num'])], seeds=1, results=False, again=dict(shooting_model='updown'))
    yield Case('run-other-fcn', run, 'then another function', lim, shape=[('a', ['num', 'num'])], seeds=1, results=False, again=dict(fcn='quadratic'))
    yield Case('run-other-seeds', run, 'then other seeds of the same number', lim, shape=[('a', ['num'])], template=[('shooting_model', 'simple'), ('fcn', 'x')], seeds=2)
    yield Case('run-later-seeds', run, 'then the seeds from 100 on', lim, shape=[('a', ['num'])], seeds=2, results=False, again=dict(starting_seed_id=100))
    yield Case('run-much-later-seeds', run, 'then the seeds from 1000 on', lim, shape=[('a', ['num'])], seeds=2, start=10, results=False, again=dict(starting_seed_id=1010))
    yield Case('run-long-values', run, 'values of 70 characters that differ in the last one, then in the first', lim, shape=[('a', ['x' * 70 + '1', 'x' * 70 + '2', '1' + 'x' * 70])], seeds=1, results=False)
    yield Case('run-long-names', run, 'long names of settings', lim, shape=[('a' * 50, ['num', 'num']), ('b' * 50, ['num'])], seeds=1, results=False)
    yield Case('run-close-values', run, 'numbers that differ late', lim, shape=[('a', [0.1234567, 0.1234568, 1e-9, 2e-9]), ('b', [1234567890, 1234567891])], seeds=1, results=False)
    yield Case('run-values-case', run, 'names that differ in case, sign or points', lim, shape=[('a', ['tanh', 'Tanh', 'tan.h', 'tan_h']), ('b', [-1.5, 1.5])], seeds=1, results=False)
    yield Case('run-settings-8', run, 'eight settings', lim, shape=[('k%d' % i, ['num', 'num'] if i in (0, 7) else ['num']) for i in range(8)], seeds=1, results=False)
    for ks in (['num', 'none', 'num'], ['none'], [], ['flag', 'num'], ['num', 'x', 'none', 'none', 'num']):
        for gpu in (0, 3, None):
            for log in (None, '/nowhere/run.log'):
                yield Case('command-{}-{}-{}'.format('.'.join(ks) or 'nothing', gpu, 'log' if log else 'nolog'), arguments, 'one command', lim, kinds=ks, gpu=gpu, log=log)
    N = 6 if big else 4
    for n in range(N + 1):
        for m in range(N + 1):
            if n + m <= (9 if big else 6):
                yield Case('strings-{}-{}'.format(n, m), strings, 'separators anywhere in strings of {} and {} characters'.format(n, m), lim, n=n, m=m)
    for ks in ([], ['num'], ['num', 'num'], ['num', 'flag', 'x', 'num']):
        yield Case('pairs-' + ('.'.join(ks) or 'nothing'), pairs, 'pairs', lim, kinds=ks)
    yield Case('sweep-long', sweeps, '12 values, then 11 settings', lim, shapes=[[('a', ['num'] * 12), ('b', ['num'])], [('k%d' % i, ['num'] if i % 4 else ['num', 'x']) for i in range(11)]])
    yield Case('run-many', run, '12 values, no results yet', lim, shape=[('a', ['num', 'num'] + list(range(10)))], seeds=1, results=False)
    yield Case('run-many-seeds', run, '12 seeds', lim, shape=[('a', ['num'])], seeds=12, results=False)
    if big:
        yield Case('sweep-big', sweeps, '5 settings of 3 values', lim, shapes=[[('k%d' % i, ['num'] * 3) for i in range(5)]] * 2)
        yield Case('run-big', run, '3 x 3 combinations, results of any subset', lim, shape=[('a', ['num'] * 3), ('b', ['num'] * 3)], seeds=1, force=False)
