"""Effect rules over the whole source: which functions may perform an operation (call-graph closure by name)."""
import re
from .core import load, rel
from .src import walk


def test_files(idx):
    """files that are only compiled for tests (`#[cfg(test)] mod x;`)"""
    out = set()
    for f, items in idx.items.items():
        for it in items:
            if it.get('k') == 'mod' and it.get('test') and it.get('items') is None:
                d = f.rsplit('/', 1)[0]
                out.add('%s/%s.rs' % (d, it['n']))
                out.add('%s/%s/mod.rs' % (d, it['n']))
    return out


def product_fns(idx):
    tf = test_files(idx)
    for f in idx.fns:
        if f.file.startswith('..') or '/tests/' in f.file or f.file in tf or f.file.startswith('xtask/') or f.file.startswith('spec/'):
            continue
        yield f


def full_path(idx, f, segs):
    p = [x['n'] for x in segs]
    u = idx.uses.get(f.file, {}).get(p[0])
    return '::'.join(([u] if u else [p[0]]) + p[1:])


def mentions(idx, f, rx):
    for n in walk(f.j['b']):
        if n.get('k') == 'path':
            s = full_path(idx, f, n['p'])
            if rx.search(s):
                yield s, n.get('l', f.line)


def callers(idx):
    """function name -> set of functions mentioning it (as path or method)"""
    out = {}
    for f in product_fns(idx):
        for n in walk(f.j['b']):
            k = n.get('k')
            if k == 'path':
                out.setdefault(n['p'][-1]['n'], set()).add(f)
            elif k in ('mcall', 'method', 'methodcall'):
                out.setdefault(n.get('m') or n.get('n'), set()).add(f)
    return out


WRITES = re.compile(r'(^|::)(std|tokio|fs_err)::fs::(write|remove_\w+|rename|copy|create_dir\w*|hard_link|set_permissions|soft_link|File::(create|create_new|options)|OpenOptions\b.*)'
                    r'|(^|::)(File::(create|create_new|options)|OpenOptions(::.*)?|process::Command(::.*)?|Command::new|NamedTempFile(::.*)?|unix::fs::\w+)$|^fs::(write|remove_\w+|rename|copy|create_dir\w*)$')


def who_may(c, name, rx, allowed, what, skip=()):
    """operations matching rx are only performed on behalf of the allowed functions"""
    idx = load()
    cal = callers(idx)
    memo = {}

    def fine(f, stack):
        if f.qual in allowed:
            return True
        if f in memo:
            return memo[f]
        if f in stack:
            return True
        cs = [x for x in cal.get(f.name, ()) if x is not f]
        r = bool(cs) and all(fine(x, stack | {f}) for x in cs)
        if not stack:
            memo[f] = r
        return r
    n = seen = 0
    for f in product_fns(idx):
        if any(f.file.startswith(s) for s in skip):
            continue
        seen += 1
        for s, l in mentions(idx, f, rx):
            n += 1
            if not fine(f, frozenset()):
                c.bad('%s:%s:%s' % (name, f.qual, s), '%s:%s fn %s' % (f.file, l, f.qual), '`%s` %s' % (s, what))
    c.count('functions searched for %s' % name, seen)
    c.count('sites (%s)' % name, n)
    if not any(o[0].startswith(name + ':') and o[1] == 'violated' for o in c.obs):
        c.ok(name, '%d sites in %d functions' % (n, seen))
    return n
