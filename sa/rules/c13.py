"""Failure of an allocation: what the central function and every interface make of it."""
from common import *
import wrap, alloc
from wrap import Where
from rules import c16

RULE = ('(1) _duma_allocate interpreted for every argument value, record table and system-call outcome: for a non-zero size it '
        'returns null only after an attempt to obtain memory failed and only in the mode of new or with exit-on-failure off, '
        'and an exhausted system ends the program only with exit-on-failure on. (2) Every entry point, with the central '
        'functions as events: failure mode selected, null / error code / bad_alloc after the new-handler returned exactly when '
        'the allocation failed, nothing allocated lost. (3) realloc: failure leaves the old block alone.')


class ModeItem(alloc.SizeItem):
    """one calling context with one failure mode: null, env0 (exit-on-failure off), env1 (on)"""
    def __init__(self, config, fn, ctx, mode):
        alloc.SizeItem.__init__(self, config, fn, ctx, '>0')
        self.mode = mode

    def __repr__(self):
        return '%s:%s[%s,%s]' % (self.config, self.fn, self.ctx, self.mode)


class Eng(alloc.OwnEngine):
    def external(self, st, n, a, I):
        r = super().external(st, n, a, I)
        if n in ('mmap', 'mmap64'):
            for s, v, k in r:
                s.tags['mm'] = 'fail' if (not v.c and v.k == -1) else ''
        elif n == 'mprotect':
            for s, v, k in r:
                if not (not v.c and v.k == 0):
                    s.tags['mm'] = ''       # a failing mprotect is fatal in every mode
        return r


class Mon(alloc.AllocMon):
    def __init__(self, item):
        alloc.AllocMon.__init__(self, item, set())

    def at_entry(self, st, item):
        e = self.eng
        alloc.AllocMon.at_entry(self, st, item)
        P = self.params(item.fn)
        self.W = Where(e.m.functions[item.fn])
        if P['fail'] is None:
            raise Missing('failure mode parameter of _duma_allocate')
        fe = e.m.di.enum('_DUMA_FailReturn') or {}
        st.env[('a', P['fail'])] = C(fe['DUMA_FAIL_NULL' if item.mode == 'null' else 'DUMA_FAIL_ENV'])
        fx = e.gval(st, 'MALLOC_FAILEXIT')
        if item.mode == 'env0':
            e.add(st, ceq(fx))
        elif item.mode == 'env1':
            e.add(st, cge(fx - 1))
        st.tags['mm'] = ''

    def on_call(self, st, name, a, I):
        e = self.eng
        if name in ('DUMA_Abort', 'DUMA_Exit') and st.tags['mm'] == 'fail':
            e.oblig('ends-only-if-configured', self.item.mode == 'env1', I, 'an exhausted system ends the program although the '
                    'caller asked for a null pointer or exit-on-failure is off', st)
        return alloc.AllocMon.on_call(self, st, name, a, I)

    def on_global_load(self, st, name, off, size, inst):
        # a null without a refusal is left to the case of a full list of records, known only once it is searched
        e = self.eng
        if e.fnstack.count('_duma_allocate') == 1 and (name, off) == e.gf('slotCount')[:2]:
            st.tags['scan'] = 1
        return alloc.AllocMon.on_global_load(self, st, name, off, size, inst)

    def leave_alloc(self, st, ret, inst):
        if self.eng.fnstack.count('_duma_allocate') == 1:
            # a return after a record was made live is a block (that record is the subject of C01)
            st.tags['blk'] = 1 if ('new', 'h') in st.gh else 0
        alloc.AllocMon.leave_alloc(self, st, ret, inst)

    def at_exit(self, st, v, kind, item):
        e, W = self.eng, self.W
        if kind != 'ret' or v is None or st.cons.bot:
            return
        if st.tags.get('blk'):
            e.oblig('block-or-null', True, W, '', st)
            return
        for t in e.assume(st.copy(), ceq(v), None):
            if t.cons.bot:
                continue
            e.oblig('null-only-on-failure', t.tags['mm'] == 'fail' or t.tags.get('scan', 0), W,
                    'returns null for a non-zero size although neither memory was refused nor the record list exhausted', t)
            e.oblig('null-only-in-null-mode', item.mode != 'env1', W,
                    'returns null although exit-on-failure is set for this interface', t)


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = []
    for c in configs:
        m = module(c)
        if '_duma_allocate' not in m.functions:
            raise Missing('function _duma_allocate')
        items += [ModeItem(c, '_duma_allocate', x, y) for x in (('user',) if not ctx.thorough else ('user', 'inner')) for y in ('null', 'env0', 'env1')]
    ctx.items(run_items(items, Mon, Eng))
    wrap.run(ctx, {'fail', 'once', 'result'}, configs)
    c16.run(ctx, {'fail'}, configs)
    ctx.assumptions += ['the record table is well formed on entry (C01, C03, C04)']
