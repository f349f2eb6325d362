from ..core import check, load, rel
from ..eff import product_fns
from ..order import Order

WHAT = {'hash': 'the iteration order of a hash table', 'pair': 'the iteration order of a hash map', 'value': 'the iteration order of a hash map', 'threads': 'the order in which threads finish',
        'dir': 'the order of a directory listing'}


@check('C29', 'order-taint abstract interpretation: an order chosen by a hash table, by threads or by a directory listing reaches no selection, early exit or output without an ordering operation in between')
def c29(c):
    fns = list(product_fns(load()))
    o = Order(load(), fns).run()
    for (file, line, kind), (fn, what, why) in sorted(o.found.items(), key=str):
        c.bad('order:%s:%s' % (fn, kind), '%s:%s fn %s' % (rel(file), line, fn), '%s: the result depends on %s (%s:%s)' % (what, WHAT.get(why[0], 'an order that is not determined'), rel(why[1]), why[2]))
    for k in o.stats['sources']:
        c.ok('order source %s' % (k,))
    c.funcs.update('%s::%s' % (rel(f.file), f.qual) for f in fns)
    c.count('functions interpreted', len(fns))
    c.count('calls interpreted', o.stats['calls'])
    c.count('sources of undetermined order', len(o.stats['sources']))
    c.count('ordering operations', len(o.stats['sorted']))
    c.floor('sources of undetermined order', 8)
    c.floor('functions interpreted', 400)
