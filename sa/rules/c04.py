"""Statistics agree with the record table."""
from common import *
import alloc
from rules.c05 import Where

RULE = ('Along every path of the central allocation and release functions the differences (counter - what the records say) of '
        'the memory allocated, the memory protected and the number of unused records are tracked through every store to a '
        'counter or record; all three are unchanged when the lock is released and when the function returns. The totals are '
        'only incremented. A block is kept protected only within the limit. Initialisation establishes the agreement.')
CNT = {'sumAllocatedMem': 'dA', 'sumProtectedMem': 'dP', 'unUsedSlots': 'dU'}
UP = ('numAllocs', 'numDeallocs', 'sumTotalAllocatedMem')
WHAT = {'dA': 'the memory counted as allocated', 'dP': 'the memory counted as protected', 'dU': 'the number of unused records'}


class Mon(alloc.AllocMon):
    def at_entry(self, st, item):
        e = self.eng
        self.cnt = {}
        for n, k in CNT.items():
            g, o, z, ty = e.gf(n)
            self.cnt[(g, o)] = k
            st.gh[k] = C(0)
        g, o, z, ty = e.gf('slotCount')
        self.cnt[(g, o)] = 'slots'
        for n in UP:
            if n in e.g2:
                g, o, z, ty = e.gf(n)
                self.cnt[(g, o)] = n
        super().at_entry(st, item)

    def move(self, st, k, d):
        if k in st.gh:
            st.gh[k] = st.cons.norm(st.gh[k] + d)

    def on_global_store(self, st, g, off, size, val, old, inst):
        super().on_global_store(st, g, off, size, val, old, inst)
        k = self.cnt.get((g, off))
        if k is None or st.cons.bot or not isinstance(val, Lin) or old is None:
            return
        e = self.eng
        if k in UP:
            self.ob('stats', 'totals-only-grow', self.grows(st, val, old, size), inst, '%s does not grow' % k, st)
            return
        f = e.toS if k in ('dA', 'dP') else e.toU
        d = st.cons.norm(f(st, val, size * 8) - f(st, old, size * 8))
        if k == 'slots':
            self.move(st, 'dU', -d)     # new records are unused ones
        else:
            self.move(st, k, d)

    def grows(self, st, val, old, size):
        e = self.eng
        d = st.cons.norm(val - old)
        if self.ge(st, d, C(0)):
            return True
        return self.ge(st, e.toS(st, val, size * 8), e.toS(st, old, size * 8))

    def cls(self, st, v):
        """(counts as allocated, counts as protected) of a state value, None where not decided"""
        e = self.eng
        if v is None:
            return None, None
        ss = self.state_of(st, v)
        PR = {e.E['DUMAST_ALL_PROTECTED'], e.E['DUMAST_BEGIN_PROTECTED']}
        EM = e.E['DUMAST_EMPTY']
        a = False if ss == {EM} else True if EM not in ss else None
        p = True if ss <= PR else False if not (ss & PR) else None
        return a, p

    def kb(self, st, x):
        return self.eng.floordiv(st, st.cons.norm(x + 1023), 1024)

    def on_slot_store(self, st, h, off, size, val, old, inst):
        super().on_slot_store(st, h, off, size, val, old, inst)
        if st.cons.bot:
            return
        e = self.eng
        n = e.fbyoff.get(off)
        if n not in ('state', 'internalSize'):
            return
        sl = st.slots[h]
        # the hook sees the record before the store (old) or after it; use explicit values
        iS = self.f(st, sl, 'internalSize')
        s = self.f(st, sl, 'state')
        if n == 'state':
            if old is None:
                self.lose(st, 'U A P')
                return
            a0, p0 = self.cls(st, old)
            a1, p1 = self.cls(st, val)
            k = None
            if a0 is None or a1 is None:
                if not self.eq(st, val, old):
                    self.lose(st, 'U A')
            elif a0 != a1:
                k = self.kb(st, iS)
                self.move(st, 'dA', -k if a1 else k)
                self.move(st, 'dU', C(1) if a1 else C(-1))
            if p0 is None or p1 is None:
                if not self.eq(st, val, old):
                    self.lose(st, 'P')
            elif p0 != p1:
                k = k if k is not None else self.kb(st, iS)
                self.move(st, 'dP', -k if p1 else k)
        else:
            if old is None:
                self.lose(st, 'A P')
                return
            if self.eq(st, val, old):
                return
            a, p = self.cls(st, s)
            d = None
            if a is not False or p is not False:
                d = st.cons.norm(self.kb(st, val) - self.kb(st, old))
            if a is None:
                self.lose(st, 'A')
            elif a:
                self.move(st, 'dA', -d)
            if p is None:
                self.lose(st, 'P')
            elif p:
                self.move(st, 'dP', -d)

    def lose(self, st, ks):
        for k in ks.split():
            st.gh.pop('d' + k, None)

    def agree(self, st, inst, when):
        if st.cons.bot:
            return
        for k in ('dA', 'dP', 'dU'):
            v = st.gh.get(k)
            self.ob('stats', 'counter-agrees', v is not None and (v.divisible(1 << 64) or self.eq(st, v, C(0))), inst,
                    '%s does not agree with the records any more at %s%s' % (WHAT[k], when, '' if v is None else ' :: off by %s' % v), st)

    # a call of a central function from inside one keeps the differences: that is what the items of their own decide
    def depth(self):
        return sum(1 for n in self.eng.fnstack if n in alloc.CORE)

    def on_call(self, st, name, args, inst):
        if name in alloc.CORE and self.depth() == 1:
            for k in WHAT:
                if k in st.gh:
                    st.gh[('sv', k)] = st.gh[k]
        return super().on_call(st, name, args, inst)

    def on_return(self, st, fname, ret, inst):
        if fname in alloc.CORE and self.depth() == 2:
            for k in WHAT:
                v = st.gh.pop(('sv', k), None)
                if v is None:
                    st.gh.pop(k, None)
                else:
                    st.gh[k] = v
        super().on_return(st, fname, ret, inst)

    def on_unlock(self, st, I):
        super().on_unlock(st, I)
        self.agree(st, I, 'the release of the lock')

    def at_exit(self, st, v, kind, item):
        if kind == 'ret':
            self.agree(st, self.where(item), 'return')
        super().at_exit(st, v, kind, item)


class InitMon(Monitor):
    """initialisation: the counters set against the records written"""
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        self.where = Where(self.eng.m.functions[item.fn])

    def on_call(self, st, name, a, I):
        if name == 'duma_init':     # reads the settings; allocates only through the central functions
            return [(st, C(0), 'ret')]

    def on_slot_store(self, st, h, off, size, val, old, inst):
        e = self.eng
        n = e.fbyoff.get(off)
        if n in ('state', 'internalSize'):
            i = st.cons.norm(h - e.gval(st, 'allocList'))
            st.gh[('rec', n, i.k if not i.c else str(i))] = st.cons.norm(val)

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if kind != 'ret' or st.cons.bot:
            return
        idx = sorted({k[2] for k in st.gh if isinstance(k, tuple) and k[0] == 'rec'}, key=str)
        if not idx:
            return
        tot, used, ok = C(0), 0, True
        for i in idx:
            s, z = st.gh.get(('rec', 'state', i)), st.gh.get(('rec', 'internalSize', i))
            if s is None or s.c or not isinstance(i, int):
                ok = False
                continue
            if s.k != e.E['DUMAST_EMPTY']:
                used += 1
                if z is None:
                    ok = False
                else:
                    tot = tot + e.floordiv(st, st.cons.norm(z + 1023), 1024)
                if s.k in (e.E['DUMAST_ALL_PROTECTED'], e.E['DUMAST_BEGIN_PROTECTED']):
                    ok = False
        g = lambda n: e.gval(st, n)
        eq = lambda x: st.cons.eq0(st.cons.norm(x))
        e.oblig('initial-agreement', ok and eq(g('sumAllocatedMem') - tot), self.where, WHAT['dA'] + ' does not agree with the records after initialisation', st)
        e.oblig('initial-agreement', ok and eq(g('sumProtectedMem')), self.where, WHAT['dP'] + ' does not agree with the records after initialisation', st)
        e.oblig('initial-agreement', ok and eq(g('unUsedSlots') + used - g('slotCount')), self.where, WHAT['dU'] + ' does not agree with the records after initialisation', st)
        self.seen = True

    def finish(self, rets, item):
        if not getattr(self, 'seen', False):
            raise Missing('records set up by the initialisation')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = alloc.tree_allocs(configs) + alloc.tree_frees(configs)
    ctx.items(run_items(items, lambda it: Mon(it, {'stats', 'limit'}), alloc.OwnEngine))
    ctx.items(run_items([Item(c, '_duma_init', 'init') for c in configs], InitMon))
