import itertools, json, os
from ..core import check
from ..src import REPO, VERIF
from .. import ts

SRC = os.path.join(REPO, 'editors/code/src')
PASSIVE = {'log', 'show', 'showErrorMessage', 'showInformationMessage', 'showWarningMessage'}

VOCAB = {'.workspaceValue', '.workspaceFolderValue', '.defaultValue', '.globalValue', '.get', '.inspect', '.start', '.stop', '.restart', '.state', '.isTrusted', '.existsSync'}


def fn(r, mod, name, args):
    f = r.modget(mod, name)
    if f is None:
        raise ts.Unsupported('%s is not in %s' % (name, mod))
    return r.call(f, args)


def one(c, prog, name, impl, spec, **kw):
    kw.setdefault('passive', PASSIVE)
    kw.setdefault('vocab', VOCAB)
    st, d = ts.compare(prog, impl, spec, **kw)
    if st == 'ok':
        c.count('paths compared', d[1])
        c.funcs |= {'editors/code/src%s.ts: %s' % f for f in d[2]}
        c.ok(name, '%d paths of the code, %d compared' % d[:2])
    elif st == 'bad':
        c.bad(name, 'editors/code/src', d)
    else:
        c.undecided(name, d)


@check('C28', 'path-by-path comparison of the extension with references over the syntax tree: every valuation of the conditions, the value or failure and the sequence of effects')
def c28(c):
    try:
        prog = ts.Program(SRC, os.path.join(VERIF, 'spec/vscode.ts'))
    except (ts.Unsupported, OSError) as e:
        c.undecided('front end', str(e))
        return
    S, P = ('par', 'strategy'), ('par', 'path')
    out = lambda r, f: r.outcome(f)

    # the executable: twice in a row, as nothing may be remembered from one start to the next
    def twice(mod, name):
        def go(r):
            a = out(r, lambda: fn(r, mod, name, [S, P]))
            r.epoch = 1
            return (a, out(r, lambda: fn(r, mod, name, [('par', 'strategy2'), ('par', 'path2')])))
        return go
    asy = {'which', 'pathExists', 'start', 'stop'}
    once = lambda mod, name: lambda r: out(r, lambda: fn(r, mod, name, [S, P]))
    one(c, prog, 'resolveJarlBinaryPath', once('/binary', 'resolveJarlBinaryPath'), once('/spec', 'specResolve'), asyncs=asy)
    one(c, prog, 'resolveJarlBinaryPath again', twice('/binary', 'resolveJarlBinaryPath'), twice('/spec', 'specResolve'), asyncs=asy)

    # the settings
    for name, spec, ps in (('getWorkspaceSettings', 'specWorkspaceSettings', ['ns', 'ws']), ('getInitializationOptions', 'specInitializationOptions', ['ns'])):
        a = [('par', p) for p in ps]
        one(c, prog, name, lambda r: out(r, lambda: fn(r, '/settings', name, a)), lambda r: out(r, lambda: fn(r, '/spec', spec, a)))

    # the workspace folder: every number of open folders up to three
    for k in (None, 0, 1, 2, 3):
        def go(mod, name):
            def f(r):
                r.preset = {'vscode.workspace.workspaceFolders': ts.UNDEF if k is None else ts.Obj('arr', items=[('elem', 'folder%d' % i) for i in range(k)])}
                return out(r, lambda: fn(r, mod, name, []))
            return f
        one(c, prog, 'getRootWorkspaceFolder with %s' % ('no workspace' if k is None else '%d folders' % k), go('/workspace', 'getRootWorkspaceFolder'), go('/spec', 'specRoot'), asyncs=asy)

    # the session: every sequence of operations up to four, every failure in it
    opaque = {'resolveJarlBinaryPath', 'getRootWorkspaceFolder', 'getWorkspaceSettings', 'getInitializationOptions'}
    kw = dict(solids={'resolveJarlBinaryPath'}, opaque=opaque, effects={'start', 'stop'}, throws={'start', 'stop', 'resolveJarlBinaryPath'}, asyncs={'start', 'stop', 'resolveJarlBinaryPath', 'getRootWorkspaceFolder'})

    def session(mod, cls, seq):
        def go(r):
            o = r.new(r.modget(mod, cls), [('par', 'context')])
            del r.trace[:]
            res = []
            for i, op in enumerate(seq):
                r.epoch = i + 1
                v = out(r, lambda: r.call(r.get(o, op), []))
                res += [(op, v[0]), ('client', out(r, lambda: r.call(r.get(o, 'getClient'), []))), ('binary', out(r, lambda: r.call(r.get(o, 'getBinaryPath'), [])))]
            return tuple(res)
        return go
    bad = 0
    for n in (1, 2, 3, 4) if c.tier == 'thorough' else (1, 2, 3):
        for seq in itertools.product(('start', 'stop', 'restart'), repeat=n):
            before = len(c.viol)
            one(c, prog, 'session ' + ', '.join(seq), session('/lsp', 'Lsp', seq), session('/spec', 'SpecLsp', seq), **kw)
            c.count('sequences of operations')
            bad += len(c.viol) > before
            if bad >= 3:
                break

    # the restart command, activation and deactivation
    def commands(mod, name):
        def go(r):
            ctx = ('par', 'ctx')
            return out(r, lambda: fn(r, mod, name, [ctx]))
        return go
    one(c, prog, 'registerCommands', commands('/commands', 'registerCommands'), commands('/spec', 'specRegisterCommands'), effects={'registerCommand', 'restart'}, asyncs={'restart'})

    def life(r):
        r.call(r.modget('/extension', 'activate'), [('par', 'context')])
        a = tuple(x[1] for x in r.trace if x[0] == 'do')
        r.epoch = 1
        out(r, lambda: r.call(r.modget('/extension', 'deactivate'), []))
        b = tuple(x[1] for x in r.trace if x[0] == 'do')
        print(r.trace) if os.environ.get('DD') else 0
        del r.trace[:]
        return (a, b)

    def spec_life(r):
        o = r.new(r.modget('/spec', 'SpecLsp'), [('par', 'context')])
        out(r, lambda: r.call(r.get(o, 'start'), []))
        a = tuple(x[1] for x in r.trace if x[0] == 'do') + ('registerCommand',)
        r.epoch = 1
        out(r, lambda: r.call(r.get(o, 'stop'), []))
        b = tuple(x[1] for x in r.trace if x[0] == 'do')
        b = b[:len(a) - 1] + ('registerCommand',) + b[len(a) - 1:]
        del r.trace[:]
        return (a, b)
    kw2 = dict(kw, effects=kw['effects'] | {'registerCommand'})
    one(c, prog, 'activate, deactivate', life, spec_life, **kw2)
    # what the manifest of the extension offers
    try:
        man = json.load(open(os.path.join(REPO, 'editors/code/package.json')))
        props = man['contributes']['configuration']['properties']
        strat = props['jarl.executableStrategy']
        for name, got, want in (('strategies offered', set(strat['enum']), {'bundled', 'environment', 'path'}), ('strategy by default', strat.get('default'), 'bundled'),
                                ('path by default', props['jarl.executablePath'].get('default'), None),
                                ('commands offered', {x['command'] for x in man['contributes'].get('commands', [])}, {'jarl.restart'}),
                                ('languages that activate', {x.split(':')[1] for x in man['activationEvents'] if x.startswith('onLanguage:')} >= {'r', 'rmd', 'quarto'}, True)):
            if got == want:
                c.ok(name)
            else:
                c.bad(name, 'editors/code/package.json', '%s: %s; required: %s' % (name, got, want))
    except (OSError, ValueError, KeyError) as e:
        c.undecided('manifest', repr(e))
