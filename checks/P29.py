"""A model made from a path is the one written in that file or example."""
import os
import pathlib
from sa.bench import REPO
from sa.interp import Cfg
from sa.terms import mk, const, NONE, TRUE

MINIMUM = 100
MO = 'pynare.core.model:Model.from_path'
EXAMPLES = {n: 'pynare/examples/pynare/%s.%s' % (n, t) for n, t in (
    ('simple_rbc', 'mod'), ('simple_linear', 'mod'), ('optim_ck', 'mod'), ('basic_nk', 'mod'), ('four_eq_nk', 'txt'), ('herbst_schorfheide', 'txt'))}
PATHS = [('model.mod', 'model'), ('model', 'model'), ('models/growth.mod', 'growth'), ('/abs/path/to/rbc.txt', 'rbc'), ('./here.mod', 'here'), ('../up/there.mod', 'there'),
         ('v1.2/model.mod', 'model'), ('nk.v2.mod', 'nk'), ('a.b/c.d/e.f.g', 'e'), ('my model.mod', 'my model'), ('dir.mod/plain', 'plain'), ('x', 'x'),
         ('deep/er/and/deep.er/still/m_1.mod', 'm_1'), ('models/simple_rbc.mod', 'simple_rbc'), ('simple_rbc.mod', 'simple_rbc'), ('basic_nk', 'basic_nk'),
         ('UPPER.MOD', 'UPPER'), ('with-dash.mod', 'with-dash')]
ABSENT = ['nothing.mod', 'dir/nothing', 'unknown_rbc', 'models/unknown.mod', 'simple_rbc2', 'Simple_rbc', 'examples/none.txt', 'rbc', 'nk.simple_rbc']


def run(B):
    B.defer = True
    B.rule = ('what is opened, handed to the reader of the language and made of it is derived for every form of path, with files that exist and that do '
              'not, and compared with the text, the language and the name that belong to the path.')
    B.anchor(MO)
    B.anchor('pynare.io.files:read_file')
    B.anchor('pynare.io.files:read_example')

    def cfg(files):
        def path_of(I, t, st):
            t = I.R(t, st)
            if I.hint(t) in ('spec.reading:Place', 'spec.reading:PathObject'):
                t = I.get_attr(t, 'path', st)
            return I.V(t, st)

        def system(I, name, args, kw, st):
            if name in ('builtins.open', 'io.open'):
                p = path_of(I, args[0] if args else kw['file'], st)
                if p.op != 'const':
                    return None
                path = {os.path.normpath(f): f for f in files}.get(os.path.normpath(p.args[1]))
                if path is None:
                    I.raise_(st, mk('exc', 'FileNotFoundError'))
                    return NONE
                return I.instantiate('spec.reading:File', [const('text of ' + path)], {}, st)
            if name in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath') and len(args) == 1:
                p = path_of(I, args[0], st)
                if p.op != 'const':
                    return None
                q = pathlib.PurePosixPath(p.args[1])
                return I.instantiate('spec.reading:PathObject', [const(str(q)), const(q.name), const(q.stem), const(q.suffix), const(os.path.normpath(p.args[1]) in map(os.path.normpath, files))], {}, st)
            if name in ('os.path.exists', 'os.path.isfile'):
                p = path_of(I, args[0], st)
                return const(os.path.normpath(p.args[1]) in map(os.path.normpath, files)) if p.op == 'const' else None
            if name in ('os.fspath', 'builtins.str') and len(args) == 1 and I.hint(I.R(args[0], st)) in ('spec.reading:Place', 'spec.reading:PathObject'):
                return path_of(I, args[0], st)
            return None

        def outline(I, args, kw, st):
            return I.instantiate('spec.reading:Outline', args, {{'model_text': 'text'}.get(k, k): v for k, v in kw.items()}, st)

        def made(I, args, kw, st):
            args = [a for a in args if I.hint(I.R(a, st)) != 'class']
            d = dict(zip(['outline', 'language', 'name'], args[-3:] if len(args) > 3 else args), **kw)
            d.setdefault('language', const('dynare'))
            d.setdefault('name', const(''))
            return I.instantiate('spec.reading:Read', [], d, st)
        return Cfg(recursion=8, hooks=[system], opaque={'read_model': outline, 'Model.from_outline': made})

    def check(label, f, args, files, want):
        def go():
            I, J = B.engine(cfg(files)), B.engine(Cfg())
            c = B.value(I, lambda s: I.R(I.call(mk('func', 'spec.reading:' + f), [const(a) for a in args], {}, s), s))
            e = B.value(J, lambda s: J.call(mk('func', 'spec.functions:whole'), [mk('list', *map(const, want)) if isinstance(want, list) else const(want)], {}, s))
            B.match(label, c, e, raises=True, alive=True)
        B.guard(label, go)

    for p, name in PATHS:
        for files in ([p], [p] + list(EXAMPLES.values()), [q for q, _ in PATHS]):
            tag = '%s, %d file(s)' % (p, len(files))
            check('model at ' + tag, 'model', [p], files, ['text of ' + p, 'dynare', 'dynare', name])
            check('model at the object of ' + tag, 'model_of_object', [p], files, ['text of ' + p, 'dynare', 'dynare', name])
            for lang in ('dynare', 'another'):
                check('model in %s at %s' % (lang, tag), 'model_in', [p, lang], files, ['text of ' + p, lang, lang, name])
            check('model in a language named, at ' + tag, 'model_named', [p, 'another'], files, ['text of ' + p, 'another', 'another', name])
        check('contents of ' + p, 'contents', [p], [p], 'text of ' + p)
    for n, path in EXAMPLES.items():
        for p in (n, n + '.mod', n + '.txt'):
            check('example ' + p, 'model', [p], list(EXAMPLES.values()), ['text of ' + path, 'dynare', 'dynare', n])
            check('example by the object of ' + p, 'model_of_object', [p], list(EXAMPLES.values()), ['text of ' + path, 'dynare', 'dynare', n])
            check('contents of the example ' + p, 'example', [p], list(EXAMPLES.values()), 'text of ' + path)
            check('file %s and the example' % p, 'model', [p], [p] + list(EXAMPLES.values()), ['text of ' + p, 'dynare', 'dynare', n])
            check('contents of the example, not the file, ' + p, 'example', [p], [p] + list(EXAMPLES.values()), 'text of ' + path)
        B.compare('the file of the example ' + n, const(os.path.exists(os.path.join(REPO, path))), TRUE)
    for p in ABSENT:
        check('no file ' + p, 'refused', [p], list(EXAMPLES.values()), 'FileNotFoundError')
        check('no example ' + p, 'no_example', [p], [p] + list(EXAMPLES.values()), 'ValueError')
