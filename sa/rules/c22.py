"""Zero-size requests."""
from common import *
import wrap, alloc
from rules.c05 import Where

RULE = ('For requests of zero bytes, on every path of the central allocation function: strategy 0 ends in a report, 1 returns '
        'null, 2 the common address, 3 a page of its own that is inaccessible on return and entered in a record, where the '
        'strategy consulted is that of the interface (C or C++, for every family tag, the other one set differently); the '
        'release function accepts null and the common address without change. operator new never returns null.')
CFAM = ('EFA_MALLOC', 'EFA_CALLOC', 'EFA_MEMALIGN', 'EFA_POSIX_MEMALIGN', 'EFA_REALLOC', 'EFA_VALLOC', 'EFA_STRDUP')
CPPFAM = ('EFA_NEW_ELEM', 'EFA_NEW_ARRAY', 'EFA_MEMBER_NEW_ELEM', 'EFA_MEMBER_NEW_ARRAY')


class ZeroItem(alloc.SizeItem):
    """a zero-size request of one family under one strategy, the other strategy set to something else"""
    def __init__(self, config, tag, strategy):
        alloc.SizeItem.__init__(self, config, '_duma_allocate', 'user', '=0')
        self.tag, self.strategy = tag, strategy

    def __repr__(self):
        return '%s:_duma_allocate[%s, zero size, strategy %d]' % (self.config, self.tag, self.strategy)


class Mon(alloc.AllocMon):
    def __init__(self, it):
        alloc.AllocMon.__init__(self, it, {'zero', 'ret', 'state'})
        self.pages = 0

    def at_entry(self, st, item):
        e = self.eng
        cpp = item.tag in CPPFAM
        st.env[('a', alloc.alloc_params(e.m, item.fn)[0])] = C(e.EFA[item.tag])
        other = {0: 3, 1: 3, 2: 3, 3: 2}[item.strategy]
        e.add(st, ceq(e.gval(st, 'NEW_0_STRATEGY' if cpp else 'MALLOC_0_STRATEGY') - item.strategy))
        e.add(st, ceq(e.gval(st, 'MALLOC_0_STRATEGY' if cpp else 'NEW_0_STRATEGY') - other))
        super().at_entry(st, item)

    def at_exit(self, st, v, kind, item):
        e, s = self.eng, item.strategy
        if kind == 'ret' and not st.cons.bot:
            v = st.cons.norm(v)
            na = e.gval(st, 'null_addr')
            w = Where(e.m.functions[item.fn])
            isnull = self.eq(st, v, C(0))
            common = self.eq(st, v, na)
            ok = False if s == 0 else isnull if s == 1 else common if s == 2 else not common or isnull
            e.oblig('zero-size-strategy', ok, w, 'a zero-size request of family %s under strategy %d %s' % (
                item.tag, s, 'returns' if s == 0 else 'gives null' if isnull else 'gives the common address' if common else 'gives a block'), st)
            if s == 3 and not isnull and not common:
                self.pages += 1
        super().at_exit(st, v, kind, item)

    def finish(self, rets, item):
        e = self.eng
        if item.strategy == 3:
            e.oblig('zero-size-strategy', self.pages > 0, Where(e.m.functions[item.fn]),
                    'a zero-size request of family %s never gets a page of its own under strategy 3' % item.tag)
        elif item.strategy == 0:
            e.oblig('zero-size-strategy', True, Where(e.m.functions[item.fn]), '')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    its = []
    for c in configs:
        for t in CFAM + CPPFAM:
            for s in ((0, 1, 2, 3) if t in CFAM else (2, 3)):
                its.append(ZeroItem(c, t, s))
    ctx.items(run_items(its, Mon, alloc.OwnEngine))
    alloc.run(ctx, {'zero', 'ret', 'state'}, alloc.tree_allocs(configs, sizes=('=0',)))
    alloc.run(ctx, {'dealloc', 'zero'}, alloc.tree_frees(configs))
    wrap.run(ctx, {'result', 'fail'}, configs)
