"""Obligations, verdicts, evidence, known findings, command line."""
import json, os, sys, time, traceback, signal
from . import src
from .src import AnalysisError, VERIF, REPO
from .term import Unknown, show, T, mk, BOT, TRUE
from . import term as TM

SPEC_DIR = os.path.join(VERIF, 'spec')
KNOWN = os.path.join(VERIF, 'known_findings.json')
_CHECKS = {}


class Violation:
    def __init__(s, key, where, text):
        s.key, s.where, s.text = key, where, text


class Ctx:
    """one property's run"""

    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.obs = []          # (name, status, detail)
        s.viol = []
        s.funcs = set()
        s.counts = {}
        s.notes = []

    # -------- verdict helpers
    def ok(s, name, detail=''):
        s.obs.append((name, 'discharged', detail))

    def bad(s, key, where, text):
        s.obs.append((key, 'violated', text))
        if not any(v.key == key for v in s.viol):
            s.viol.append(Violation(key, where, text))

    def undecided(s, name, why):
        s.obs.append((name, 'undecided', why))

    def count(s, what, n=1):
        s.counts[what] = s.counts.get(what, 0) + n

    def floor(s, what, n, where='-'):
        """fail closed when fewer instances than confirmed by hand were found"""
        c = s.counts.get(what, 0)
        if c < n:
            s.bad('floor:%s' % what, where, 'only %d of at least %d instances of "%s" were found: the construct the rule is about is gone' % (c, n, what))
        else:
            s.ok('floor:%s' % what, '%d >= %d' % (c, n))

    def merge(s, t):
        """take over the verdicts of another run"""
        s.obs += t.obs
        s.viol += [v for v in t.viol if not any(w.key == v.key for w in s.viol)]
        s.funcs |= t.funcs
        s.notes += t.notes
        for k, n in t.counts.items():
            s.count(k, n)

    # -------- index
    def idx(s):
        return load()

    def fn(s, file, qual, required=True):
        f = load().find(file, qual)
        if f is None:
            f = load().find_any(qual, prefer=file)
        if f is None and required:
            s.undecided('missing:%s' % qual, 'function %s (%s) was renamed or inlined' % (qual, file))
        if f is not None:
            s.funcs.add('%s::%s' % (rel(f.file), f.qual))
        return f

    # -------- equivalence with a reference
    def equiv(s, file, qual, spec, name=None, opaque=(), errs=False, effects=(), outs=None, inline=None, vocab=(), fallback=None, strict=False,
              transparent=(), only=None, depth=12, project=None, argmap=None, passive=None, assume_ok=False, target=None):
        """the function computes exactly what its reference in /verif/spec computes"""
        from .ev import Ev
        from .cmp import Cmp, explain
        name = name or qual
        idx = load()
        Ctx._ns = getattr(Ctx, '_ns', 0) + 1
        TM.refill()
        f = target or s.fn(file, qual)
        g = idx.find_any(spec)
        if g is None:
            raise AnalysisError('reference %s not found' % spec)
        if f is None:
            return None
        try:
            ev1 = Ev(idx, opaque=opaque, inline=inline, transparent=transparent, depth=depth, ns='q%d' % Ctx._ns)
            ev1.effects = set(effects)
            ev1.passive, ev1.assume_ok = passive or {}, assume_ok
            a = ev1.summary(g, argmap(ev1.ns) if argmap else None)
        except Exception as e:
            if isinstance(e, MemoryError):
                raise
            if not isinstance(e, (Unknown, RecursionError)) and os.environ.get('DEBUG'):
                raise
            s.undecided(name, 'reference not summarised: %s %s' % (type(e).__name__, e))
            return 'undecided'
        try:
            ev2 = Ev(idx, opaque=opaque, inline=inline, transparent=transparent, depth=depth, ns='q%d' % Ctx._ns)
            ev2.effects = set(effects)
            ev2.passive, ev2.assume_ok = passive or {}, assume_ok
            b = ev2.summary(f, argmap(ev2.ns) if argmap else None)
        except Exception as e:
            if isinstance(e, MemoryError):
                raise
            if not isinstance(e, (Unknown, RecursionError)) and os.environ.get('DEBUG'):
                raise
            s.undecided(name, 'not summarised: %s %s' % (type(e).__name__, e))
            if fallback:
                fallback(s, f)
            return 'undecided'
        for x in ev2.analysed:
            s.funcs.add('%s::%s' % (rel(x.file), x.qual))
        res = []
        pairs = [('return value', a.value, b.value)]
        for k in sorted(set(a.outs) | set(b.outs)):
            if k in a.outs and k in b.outs and (outs is None or k in outs):
                pairs.append(('final value of %s' % k, a.outs[k], b.outs[k]))
        if effects:
            pairs.append(('sequence of effects', a.trace, b.trace))
        paths = 0
        und = None
        if only:
            pairs = [p for p in pairs if p[0] in only or p[0].split()[-1] in only]
        for what, x, y in pairs:
            if project:
                x, y = project(what, x), project(what, y)
            if x is None or y is None:
                continue
            c = Cmp(errs=errs, vocab=set(vocab))
            try:
                v, d = c.compare(x, y)
            except Exception as e:
                if os.environ.get('DEBUG'):
                    raise
                v, d = 'undecided', 'comparison failed: %s %s' % (type(e).__name__, e)
            paths += max(1, c.paths)
            if v == 'differ':
                w = reshaped(x, y, idx)
                if w:
                    v, d = 'undecided', 'the parameters of %s changed' % w
            if v == 'differ':
                s.bad('differs:%s:%s' % (name, what), '%s:%s fn %s' % (rel(f.file), f.j['l'], f.qual),
                      '%s of %s does not agree with the required behaviour: %s' % (what, f.qual, explain(d)))
                return 'differ'
            if v == 'undecided':
                und = '%s: %s' % (what, d)
        s.count('decision paths compared', paths)
        if und:
            s.undecided(name, und)
            if fallback:
                fallback(s, f)
            return 'undecided'
        s.ok(name, 'equals reference %s on all %d decision paths (%d functions inlined)' % (spec, paths, len(ev2.analysed)))
        return 'equal'


    def impls(s, owner, trait, spec, required=True, **kw):
        """every method of the hand-written implementations of a trait agrees with its reference (derived ones need no look)"""
        from .src import Fn
        fs = [f for f in load().fns if f.owner == owner and f.trait == trait and not f.file.startswith('spec/') and '/verif/' not in f.file]
        if not fs and required:
            s.undecided('impl %s for %s' % (trait, owner), 'not found')
        for f in fs:
            if f.name in spec:
                s.equiv(f.file, f.qual, spec[f.name], name='%s (%s)' % (f.qual, trait), target=f, **kw)

    def structural_eq(s, *types):
        """values of these types are equal only when they are the same (`==`, `contains`, maps and sets rely on it)"""
        from .ev import Ev
        from .cmp import Cmp, explain
        idx = load()
        for t in types:
            fs = [f for f in idx.fns if f.owner == t and f.trait == 'PartialEq' and f.name == 'eq']
            if not fs:
                if t in idx.structs or t in idx.enums:
                    s.ok('equality of ' + t)
                continue
            for f in fs:
                Ctx._ns = getattr(Ctx, '_ns', 0) + 1
                TM.refill()
                from .term import eq, field, ctor, ite, FALSE
                where = '%s:%s %s' % (rel(f.file), f.j['l'], f.qual)
                try:
                    en = idx.enums.get(t)
                    if en is not None:
                        vs = [ctor(t + '::' + v['n']) for v in en['v']]
                        wrong = None
                        for x in vs:
                            for y in vs:
                                r = Ev(idx, registry=True).summary(f, {'self': x, 0: y}).value
                                if r.op != 'bool':
                                    raise Unknown('not constant')
                                if r.a[0] is not (x is y):
                                    wrong = wrong or (show(x), show(y), r.a[0])
                        if wrong:
                            s.bad('equality:' + t, where, '%s == %s is %s' % wrong)
                        else:
                            s.ok('equality of ' + t)
                        continue
                    ev = Ev(idx, ns='e%d' % Ctx._ns)
                    got = ev.summary(f).value
                    x, y = mk('var', 'arg0', ev.ns), mk('var', 'arg1', ev.ns)
                    want = TRUE
                    for fl in idx.structs[t]['f']:
                        want = ite(eq(field(x, fl['n']), field(y, fl['n'])), want, FALSE)
                    v, d = Cmp().compare(want, got)
                except Exception as e:
                    if isinstance(e, MemoryError):
                        raise
                    s.undecided('equality of ' + t, '%s %s' % (type(e).__name__, e))
                    continue
                if v == 'differ':
                    s.bad('equality:' + t, where, 'two different values of %s compare equal or the same value compares unequal: %s' % (t, explain(d)))
                elif v == 'undecided':
                    s.undecided('equality of ' + t, str(d))
                else:
                    s.ok('equality of ' + t)

    # -------- where may an event happen?
    def sites(s, file, qual, opaque=(), depth=12, transparent=()):
        """(Ev, list of call sites with their path conditions), or None when the function is outside the fragment"""
        from .ev import Ev
        f = s.fn(file, qual)
        if f is None:
            return None
        Ctx._ns = getattr(Ctx, '_ns', 0) + 1
        TM.refill()
        ev = Ev(load(), opaque=opaque, depth=depth, transparent=transparent, ns='s%d' % Ctx._ns)
        try:
            ev.summary(f)
        except Exception as e:
            if isinstance(e, MemoryError) or (os.environ.get('DEBUG') and not isinstance(e, (Unknown, RecursionError))):
                raise
            s.undecided('sites:%s' % qual, 'not summarised: %s %s' % (type(e).__name__, e))
            return None
        for x in ev.analysed:
            s.funcs.add('%s::%s' % (rel(x.file), x.qual))
        s.arg = lambda i, ns=ev.ns: mk('var', 'arg%d' % i, ns)
        return ev.sites

    def only_when(s, name, sites, event, never, why):
        """no site of the event is reachable under the given facts (list of (atom, value))"""
        from .cmp import feasible, facts_of, show as _show
        if sites is None:
            return
        n = 0
        for x in sites:
            if not event(x):
                continue
            n += 1
            try:
                r = feasible(x.gate, facts_of(never))
            except Exception as e:
                s.undecided('%s:%s' % (name, x.fn), str(e))
                continue
            if r is not None:
                s.bad('%s:%s:%s' % (name, x.fn, x.name), '%s:%s fn %s' % (rel(x.file), x.line, x.fn), '%s: `%s` is reachable when %s' % (
                    why, x.name, '; '.join(('' if v else 'not ') + show(a) for a, v in list(r.d.items())[-10:])[:900]))
        s.count('event sites (%s)' % name, n)
        s.ok(name, '%d sites' % n) if not any(o[0].startswith(name + ':') and o[1] == 'violated' for o in s.obs) else None


def reshaped(x, y, idx):
    """a function of the repository both sides call, with another number of arguments"""
    def shapes(t):
        r = {}
        for u in TM.subterms(t):
            if u.op == 'app' and ('f:' in u.a[0]):
                r.setdefault(u.a[0], set()).add(len(u.a))
        return r
    a, b = shapes(x), shapes(y)
    for n in a:
        if n in b and not (a[n] & b[n]):
            return n
    return None


def rel(p):
    root = REPO.rstrip('/') + '/'
    return p[len(root):] if p.startswith(root) else p


_idx = []


def load():
    if not _idx:
        src.build_dumper()
        specs = sorted(os.path.join(SPEC_DIR, x) for x in os.listdir(SPEC_DIR) if x.endswith('.rs'))
        files = src.rust_files(REPO)
        if len(files) < 150:
            raise AnalysisError('only %d source files found under %s' % (len(files), REPO))
        _idx.append(src.Index(src.dump(files + specs), REPO))
    return _idx[0]


def check(prop, technique, level='static'):
    def d(f):
        _CHECKS[prop] = (f, technique)
        return f
    return d


def known_findings():
    try:
        return json.load(open(KNOWN))
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


def run(prop, tier):
    t0 = time.time()
    f, technique = _CHECKS[prop]
    ctx = Ctx(prop, tier)
    try:
        f(ctx)
    except Exception as e:
        if os.environ.get('DEBUG') or isinstance(e, (MemoryError, AnalysisError)):
            raise
        ctx.undecided('analysis', '%s %s' % (type(e).__name__, e))
    kf = {(k['property'], k['key']): k for k in known_findings().get('known', [])}
    new = []
    for v in ctx.viol:
        k = kf.get((prop, v.key))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', '%s.replay.json' % prop)
    if new:
        json.dump([dict(key=v.key, where=v.where, text=v.text) for v in new], open(replay, 'w'), indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    n = len(ctx.obs)
    dis = sum(1 for o in ctx.obs if o[1] == 'discharged')
    und = [o for o in ctx.obs if o[1] == 'undecided']
    expl = ('Static analysis of the current sources: %d obligations, %d discharged, %d undecided (outside the analysed fragment), %d violated. '
            'Rule: %s. Analysed functions: %d. Counts: %s.' % (n, dis, len(und), n - dis - len(und), technique, len(ctx.funcs),
                                                             ', '.join('%s=%s' % x for x in sorted(ctx.counts.items())) or '-'))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=expl, obligations=n, discharged=dis, obligation_list=[dict(name=a, status=b, detail=c[:600]) for a, b, c in ctx.obs],
                            functions=sorted(ctx.funcs), counts=ctx.counts),
              assumptions=['the semantics of the Rust standard library and external crates is as modelled in jarlsa/stdm.py',
                           'source files are analysed as parsed (no macro expansion beyond the modelled std/anyhow macros)'] + ctx.notes,
              wall_s=round(time.time() - t0, 3), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w'), indent=1)
    for a, b, c in ctx.obs:
        if b != 'discharged' or os.environ.get('VERBOSE'):
            print('  [%s] %s: %s' % (b, a, c[:1500]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (prop, n, dis, len(und), n - dis - len(und), time.time() - t0))
    for v in new:
        print('  %s: %s' % (v.where, v.text[:2500]))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0
