"""C17: the command line."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile

import pyrsistent as pyr
from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import models
from harness import REPO, Reject, Sub, Violation
from props.c16 import compare, geometry, read_back, rings_of, sheet_cases
from props.c20 import Injected, patched

DEFAULTS = {'thickness': '6', 'min_finger_width': '3',
            'max_finger_width': '5', 'support_radius': '12',
            'final_dilation': '1/20', 'random_seed': 42}
NUMS = {'thickness': ['6', '3', '61/10', '5.98', '4.5', '6.0'],
        'min_finger_width': ['3', '2', '7/3', '2.75', '0.3'],
        'max_finger_width': ['5', '9', '25/3', '8.5', '5.05'],
        'support_radius': ['12', '9', '20', '37/3', '13.7'],
        'final_dilation': ['1/20', '0', '0.1', '1/3', '0.125', '-1/10',
                           '0.05', '3'],
        'random_seed': [0, 1, 42, 1234567]}


@st.composite
def options(draw, only=None):
    """[[name, text, style]] in the order of the command line."""
    names = draw(st.lists(st.sampled_from(sorted(only or NUMS)), max_size=5,
                          unique=True))
    out = [[n, str(draw(st.sampled_from((only or NUMS)[n]))),
            draw(st.sampled_from(['=', ' ']))] for n in names]
    if draw(st.integers(0, 5)) == 0:
        out.append(['debug', '', ''])
    return out


names = st.sampled_from(['model.stl', 'a b.stl', 'two.parts.stl', 'BIG.STL',
                         'x.stl', 'ünï.stl', 'dir.v2/m.stl', 'sub/m.stl'])
outs = st.sampled_from([None, None, 'out.dxf', 'odd name.DXF', 'plain',
                        'other/out.dxf', '{abs}/abs.dxf', 'other/a.b.dxf'])


def argv(opts, infile, out, short, where):
    a, tail = [], []
    for n, v, style in opts:
        if n == 'debug':
            a.append('--debug')
        elif style == '=' or v.startswith('-'):
            a.append('--%s=%s' % (n, v))
        else:
            a += ['--' + n, v]
    if out is not None:
        a += (['-o', out] if short else ['--output_file', out])
    if where == 'first':
        return [infile] + a
    return a + [infile]


@contextlib.contextmanager
def workdir():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        for s in ('sub', 'other', 'dir.v2'):
            os.mkdir(s)
        try:
            yield d
        finally:
            os.chdir(old)


def files(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def call(args):
    """Exception or None."""
    import logging
    from plycutter import command_line
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            command_line.main(args)
    except SystemExit as e:
        return None if e.code in (0, None) else e
    except Exception as e:
        return e
    finally:
        logging.disable(logging.CRITICAL)
    return None


def settings_of(opts):
    p = dict(DEFAULTS)
    for n, v, _ in opts:
        if n != 'debug':
            p[n] = v
    q = {k: mpq(v) for k, v in p.items() if k != 'random_seed'}
    q['random_seed'] = int(p['random_seed'])
    return q


def expected_path(case, d):
    if case['out'] is not None:
        return os.path.relpath(case['out'].format(abs=d), d) \
            if case['out'].startswith('{') else case['out']
    return os.path.splitext(case['name'])[0] + '.dxf'


def check_output(before, d, path, cuts, dilation):
    after = files(d)
    if path not in after:
        raise Violation('no file %s, but %s' % (
            path, sorted(set(after) - set(before))))
    extra = {k for k in after if k != path and after[k] != before.get(k)}
    if extra or set(before) - set(after):
        raise Violation('other files were written or removed: %s' %
                        sorted(extra | (set(before) - set(after))))
    lines = read_back(os.path.join(d, path))
    compare(lines, [(k, rings_of(g.buffer(dilation)))
                    for k, g in sorted(cuts.items())])


def write_mesh(mesh, path, kind):
    data = mesh.export(file_type=kind)
    with open(path, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def box_mesh():
    import trimesh
    return trimesh.creation.box((20, 10, 6))


# --- the pipeline replaced: options, paths, what is written ------------------

@st.composite
def option_cases(draw):
    return {'opts': draw(options()), 'name': draw(names), 'out': draw(outs),
            'short': draw(st.booleans()),
            'where': draw(st.sampled_from(['first', 'last'])),
            'abs_in': draw(st.booleans()), 'old': draw(st.booleans()),
            'cuts': draw(st.lists(sheet_cases(), min_size=1, max_size=3)),
            'ids': draw(st.sampled_from(['s0 s1 s2', 's9 s10 s2', 'b a c']))}


class Result:
    pass


def run_options(case, ctx):
    from plycutter import canned, create_sheetplex
    seen = []
    cuts = {i: geometry(s and dict(s, scale=s['scale']
                                   if s['scale'] != 400 else 1))
            for i, s in zip(case['ids'].split(), case['cuts'])}
    big = max((abs(v) for g in cuts.values() for r in rings_of(g)
               for p in r for v in p), default=0)
    small = [min(max(p[0] for p in r) - min(p[0] for p in r)
                 for r in rings_of(g)) for g in cuts.values() if rings_of(g)]
    if big > 1e4 or (small and min(small) < 1e-3):
        raise Reject                    # no joinery at such scales
    plex = models.plex([models.plane_sheet(i, [1, 0, 0], 0, 6)
                        for i in cuts])

    def sheetplex(mesh, params):
        seen.append(('sheets', dict(params), len(mesh.faces)))
        return plex

    def pipeline(sp, params, **kw):
        import argparse
        seen.append(('joints', dict(params), sp))
        return argparse.Namespace(ok=True, sheetbuild=None, history=[],
                                  sheet_cuts=pyr.pmap(cuts), params=params)
    with workdir() as d:
        write_mesh(box_mesh(), case['name'], 'stl')
        path = expected_path(case, d)
        if case['old']:
            with open(path, 'w') as f:
                f.write('old\n' * 1000)
        before = files(d)
        args = argv(case['opts'],
                    os.path.join(d, case['name']) if case['abs_in']
                    else case['name'],
                    case['out'] and case['out'].format(abs=d),
                    case['short'], case['where'])
        with patched(create_sheetplex, 'create_sheetplex',
                     lambda old: sheetplex), \
                patched(canned, 'canned_1', lambda old: pipeline):
            exc = call(args)
        if [s[0] for s in seen] != ['sheets', 'joints']:
            raise Reject            # the stand-ins are not used
        if exc is not None:
            raise exc if not isinstance(exc, SystemExit) else \
                Violation('%s: refused with %r' % (args, exc))
        want = settings_of(case['opts'])
        for stage, params, x in seen:
            for k, v in want.items():
                if k == 'final_dilation' and k not in params:
                    continue
                if k not in params:
                    raise Violation('%s: %s is not told %s' %
                                    (args, stage, k))
                g = params[k]
                if isinstance(g, float) or g != v:
                    raise Violation('%s: %s is told %s=%r, not %s' %
                                    (args, stage, k, g, v))
            if params.get('only_sheets') is not None:
                raise Violation('%s: only some sheets' % (args,))
        if seen[1][2] is not plex and set(seen[1][2].sheets) != \
                set(plex.sheets):
            raise Violation('joint making got other sheets')
        if seen[0][2] != 12:
            raise Violation('the mesh has %d triangles, the file 12' %
                            seen[0][2])
        check_output(before, d, path, cuts, want['final_dilation'])
    ctx.nontrivial(any(o[0] != 'debug' for o in case['opts']))
    if case['out'] is None:
        ctx.label('default output path')
    if want['final_dilation'] != mpq(1, 20):
        ctx.label('dilation given')
    if len(cuts) > 1:
        ctx.label('several sheets')


# --- everything real ----------------------------------------------------------

RUN_OPTS = {'thickness': ['6', '61/10', '5.98'],
            'min_finger_width': ['2', '7/3'],
            'max_finger_width': ['9', '25/3', '5'],
            'support_radius': ['9', '20', '37/3'],
            'final_dilation': ['0', '0.1', '1/3', '0.125', '-1/10'],
            'random_seed': [0, 1, 7]}


@st.composite
def run_cases(draw):
    W = draw(st.integers(14, 30))
    D = draw(st.integers(8, 24))
    H = draw(st.integers(14, 30))
    kind = draw(st.sampled_from(['L', 'L', 'T', 'two', 'one']))
    return {'kind': kind, 'size': [W, D, H],
            'opts': draw(options(RUN_OPTS)), 'name': draw(names),
            'out': draw(outs), 'short': draw(st.booleans()),
            'where': draw(st.sampled_from(['first', 'last'])),
            'format': draw(st.sampled_from(['stl', 'stl', 'stl_ascii'])),
            'old': draw(st.booleans()), 'process': draw(
                st.integers(0, 5)) == 0}


def small_boxes(case):
    W, D, H = case['size']
    t = 6
    kind = case['kind']
    if kind == 'one':
        return [[0, 0, 0, W, D, t]]
    if kind == 'two':                   # not connected
        return [[0, 0, 0, W, D, t], [0, D + 5, 0, W, D + 5 + D, t]]
    x = 0 if kind == 'L' else (W - t) // 2
    return [[0, 0, 0, W, D, t], [x, 0, 0, x + t, D, H]]


def fits(args, d):
    """Run in a process of its own; True if it says it succeeded."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent-pycache')
    p = subprocess.run(
        [sys.executable, '-B', '-c',
         'import sys; from plycutter.command_line import main; '
         'sys.exit(main())'] + args, cwd=d, env=env,
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0


def run_real(case, ctx):
    from plycutter import canned, create_sheetplex
    import trimesh
    v, f = models.Boxes(small_boxes(case)).mesh_arrays()
    mesh = models.to_mesh(v, f)
    want = settings_of(case['opts'])
    with workdir() as d:
        write_mesh(mesh, case['name'], case['format'])
        path = expected_path(case, d)
        if case['old']:
            with open(path, 'w') as fh:
                fh.write('old\n' * 1000)
        before = files(d)
        args = argv(case['opts'], case['name'],
                    case['out'] and case['out'].format(abs=d),
                    case['short'], case['where'])
        loaded = trimesh.load(case['name'])
        params = models.params(only_sheets=None, **{
            k: v for k, v in want.items()})
        res = None
        try:
            sp = create_sheetplex.create_sheetplex(loaded, params)
            if len(sp.sheets):
                res = canned.canned_1(sp, params)
        except Exception:
            pass
        if case['process'] and case['where'] == 'last':
            done = fits(args, d)
            ctx.label('own process')
        else:
            exc = call(args)
            done = exc is None
            if not done and res is not None:
                raise exc if not isinstance(exc, SystemExit) else \
                    Violation('%s: refused with %r' % (args, exc))
        if res is None or not res.ok:
            if done:
                raise Violation('%s: success reported, but there is no '
                                'result' % (args,))
            if files(d) != before:
                raise Violation('%s failed, but files have changed' % args)
            ctx.label('no result')
            return
        if not done:
            raise Violation('%s: failed' % (args,))
        check_output(before, d, path, res.sheet_cuts,
                     want['final_dilation'])
    ctx.nontrivial()
    ctx.label(case['kind'])


# --- failures -------------------------------------------------------------------

@st.composite
def failing_cases(draw):
    return {'how': draw(st.sampled_from([
        'no file', 'garbage', 'empty file', 'thickness', 'no plates',
        'bad number', 'unknown option', 'no input', 'step', 'step', 'step',
        'writer', 'no directory', 'process', 'two inputs'])),
        'out': draw(st.sampled_from([None, 'out.dxf', 'other/out.dxf'])),
        'old': draw(st.booleans()), 'at': draw(st.integers(0, 8)),
        'opts': draw(options({'min_finger_width': ['2', '3'],
                              'random_seed': [0, 1]}))}


def run_failing(case, ctx):
    import trimesh
    how = case['how']
    with workdir() as d:
        name = 'model.stl'
        v, f = models.Boxes([[0, 0, 0, 20, 8, 6],
                             [0, 0, 0, 6, 8, 20]]).mesh_arrays()
        mesh = models.to_mesh(v, f)
        opts = list(case['opts'])
        if how == 'no plates':
            mesh = trimesh.creation.icosphere(subdivisions=1, radius=30)
        write_mesh(mesh, name, 'stl')
        if how == 'garbage':
            with open(name, 'w') as fh:
                fh.write('this is no mesh ' * 50)
        if how == 'empty file':
            open(name, 'w').close()
        out = case['out']
        if how == 'no directory':
            out = 'nowhere/out.dxf'
        path = out or 'model.dxf'
        if case['old'] and how != 'no directory':
            with open(path, 'w') as fh:
                fh.write('old\n' * 1000)
        before = files(d)
        args = argv(opts, name, out, True, 'last')
        if how in ('no file', 'process'):
            args[-1] = 'missing.stl'
        if how == 'thickness':
            args = ['--thickness', '4'] + args
        if how == 'bad number':
            args = ['--thickness', ['abc', '1/0', '', '6mm', '1e'][
                case['at'] % 5]] + args
        if how == 'unknown option':
            args = ['--thikness', '6'] + args
        if how == 'two inputs':
            args = args + [name]
        if how == 'no input':
            args = args[:-1]
        if how == 'process':
            exc = None if fits(args, d) else 1
        elif how == 'step':
            from plycutter.sheetbuild import SheetBuild
            left = [case['at']]
            inj = Injected('injected fault')

            def make(old):
                def g(*a, **k):
                    left[0] -= 1
                    if left[0] < 0:
                        raise inj
                    return old(*a, **k)
                return g
            with patched(SheetBuild,
                         ['check', 'choose_interside'][case['at'] % 2],
                         make):
                exc = call(args)
            if left[0] >= 0:
                raise Reject            # not reached
            if exc is not None and exc is not inj:
                raise Violation('%s: a step fails, but %r is reported' %
                                (args, exc))
        elif how == 'writer':
            inj = Injected('injected fault')
            G2 = type(geo.G2().empty())

            def make(old):
                def g(self, amount):
                    if amount == mpq(1, 20):
                        raise inj
                    return old(self, amount)
                return g
            with patched(G2, 'buffer', make):
                exc = call(args)
        else:
            exc = call(args)
        if exc is None:
            raise Violation('%s (%s): success is reported' % (args, how))
        after = files(d)
        if after != before:
            raise Violation('%s (%s) failed, but wrote or changed %s' % (
                args, how, sorted(k for k in set(after) | set(before)
                                  if after.get(k) != before.get(k))))
    ctx.nontrivial()
    ctx.label(how)


SUBS = [
    Sub('options', option_cases(), run_options, 240, 8000,
        'random options, file names and results of (replaced) joint making; '
        'non-trivial = some numeric option is given'),
    Sub('runs', run_cases(), run_real, 32, 1000,
        'whole runs on small models, compared with the result that the '
        'library gives for the same settings; non-trivial = it gave one'),
    Sub('failing', failing_cases(), run_failing, 64, 1500,
        'unreadable or unsuitable input, bad options, a failing step; '
        'all are non-trivial'),
]
