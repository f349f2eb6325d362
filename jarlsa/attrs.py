"""Rules over the attributes of data structures: how they are serialised (serde) and how command-line options are declared (clap)."""
import re
from .core import load, rel


def serde(attrs, word):
    for a in attrs:
        s = a.get('s', '')
        if s.startswith('serde'):
            m = re.search(r'\b%s\b(?:\s*=\s*"([^"]*)")?' % word, s)
            if m:
                return m.group(1) or True
    return None


def recase(name, style):
    w = name.split('_')
    return {'kebab-case': '-'.join(w), 'camelCase': w[0] + ''.join(x.title() for x in w[1:]), 'PascalCase': ''.join(x.title() for x in w),
            'UPPERCASE': name.upper(), 'lowercase': name.lower(), 'SCREAMING_SNAKE_CASE': name.upper(),
            'SCREAMING-KEBAB-CASE': '-'.join(w).upper()}.get(style, name)


def written(c, what, structs):
    """the fields a structure is written out with: structs = {name: {field: key}}"""
    idx = load()
    for n, want in structs.items():
        st = idx.structs.get(n)
        if st is None:
            c.undecided('%s:%s' % (what, n), 'the structure was renamed')
            continue
        if any(o == n and t == 'Serialize' for o, t, _, _ in idx.impls):
            c.undecided('%s:%s' % (what, n), 'hand-written serialisation')
            continue
        w = '%s struct %s' % (st['file'], n)
        style = serde(st['attrs'], 'rename_all')
        style = style if isinstance(style, str) else None
        bad = 0
        have = {f['n']: f for f in st['f']}
        for k, key in want.items():
            f = have.get(k)
            if f is None:
                c.undecided('%s:%s.%s' % (what, n, k), 'the field was renamed')
                bad += 1
                continue
            r = serde(f['attrs'], 'rename')
            got = r if isinstance(r, str) else recase(k, style)
            for s in ('skip', 'skip_serializing', 'skip_serializing_if'):
                if serde(f['attrs'], s) is not None:
                    c.bad('%s:%s.%s:%s' % (what, n, k, s), w, '`%s` is %s left out of the output (#[serde(%s)])' % (k, 'sometimes' if s.endswith('if') else 'always', s))
                    bad += 1
            if any(serde(f['attrs'], s) is not None for s in ('flatten', 'with', 'serialize_with')):
                c.undecided('%s:%s.%s' % (what, n, k), 'custom serialisation')
                bad += 1
            elif got != key:
                c.bad('%s:%s.%s:key' % (what, n, k), w, '`%s` is written under the key `%s` instead of `%s`' % (k, got, key))
                bad += 1
        if not bad:
            c.ok('%s:%s' % (what, n))


def options(c, what, want, struct='CheckCommand'):
    """command-line options: want = {field: (long name, default)}; default None = absent, False = an unset flag"""
    idx = load()
    st = idx.structs.get(struct)
    if st is None:
        c.undecided(what, 'the structure of the command line was renamed')
        return
    have = {f['n']: f for f in st['f']}
    for k, (long, default) in want.items():
        f = have.get(k)
        name = '%s:--%s' % (what, long)
        w = '%s struct %s field %s' % (st['file'], struct, k)
        if f is None:
            c.undecided(name, 'the field was renamed')
            continue
        s = ' '.join(a.get('s', '') for a in f['attrs'] if re.match(r'\s*(arg|clap)\b', a.get('s', '')))
        s = re.sub(r'\b(help|long_help)\s*=\s*(concat\s*!\s*\([^)]*\)|"(?:[^"\\]|\\.)*")', '', s)
        if not s:
            c.undecided(name, 'the option is declared another way')
            continue
        m = re.search(r'\blong\b(?:\s*=\s*"([^"]*)")?', s)
        if long and (not m or (m.group(1) or k.replace('_', '-')) != long):
            c.bad(name, w, 'the option is accepted as %s' % ('`--%s`' % (m.group(1) or k.replace('_', '-')) if m else 'no long option'))
            continue
        if re.search(r'\baction\b|\bSet(False|True)\b|\bdefault_value_if|\benv\b|\bvalue_parser\b|\bconflicts|\brequires\b|\boverrides|\bskip\b', s):
            if re.search(r'\bSetFalse\b', s):
                c.bad(name, w, 'giving the flag switches it off')
            else:
                c.undecided(name, 'the option has further attributes')
            continue
        m = re.search(r'\bdefault_value\s*=\s*"((?:[^"\\]|\\.)*)"', s) or re.search(r'\bdefault_value_t\s*=\s*([^,]+?)\s*(?:,|\)\s*\]?$|$)', s)
        got = m.group(1) if m else None
        if default is False:
            good = got in (None, 'false')
        elif callable(default):
            good = default(got, s)
        elif default == '':
            good = got in ('', 'String :: new ()', 'String::new()', 'String :: default ()')
        else:
            good = got == default
        if good:
            c.ok(name)
        else:
            c.bad(name, w, 'without the option its value is %s' % (got if got is not None else 'absent'))
