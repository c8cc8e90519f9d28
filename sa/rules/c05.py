"""Lock and record-table typestate."""
from common import *

RULE = ('Typestate over every path of every public entry point: state shared by all threads is read or written only at '
        'lock depth >= 1 (a test of the table pointer against null excepted), records only while the record table is '
        'accessible and through a table pointer read under the current lock; on every return lock depth and table '
        'protection equal those at entry.')


class M(Monitor):
    def __init__(self, item, threads=True):
        self.item = item
        self.threads = threads

    def at_entry(self, st, item):
        self.lk0, self.lst0 = st.tags['lk'], st.tags['lst']

    def _nulltest(self, inst):
        """all uses of the loaded pointer are comparisons with null"""
        F = inst.block.fn
        for B in F.blocks:
            for J in B.insts:
                if J.op == 'phi':
                    if any(o == ('v', inst.id) for p, o in J.x):
                        return False
                elif ('v', inst.id) in J.ops:
                    if J.op == 'icmp' and any(o[0] == 'c' and o[1] == 0 for o in J.ops):
                        continue
                    if J.op == 'icmp' and any(o[0] in ('z', 'null') for o in J.ops):
                        continue
                    return False
        return True

    def on_global_load(self, st, g, off, size, inst):
        e = self.eng
        f = e.goff.get((g, off))
        if not f or f[0] not in SHARED or not self.threads:
            return
        ok = st.tags['lk'] > 0
        if not ok and f[0] == 'allocList' and self._nulltest(inst):
            ok = True
        e.oblig('shared-read-locked', ok, inst, 'reads shared state %s without holding the lock' % f[0], st)

    def on_global_store(self, st, g, off, size, val, old, inst):
        e = self.eng
        f = e.goff.get((g, off))
        if not f or f[0] not in SHARED or not self.threads:
            return
        e.oblig('shared-write-locked', st.tags['lk'] > 0, inst, 'writes shared state %s without holding the lock' % f[0], st)

    def slot(self, st, h, inst, what):
        e = self.eng
        if self.threads:
            e.oblig('record-locked', st.tags['lk'] > 0, inst, '%s a record without holding the lock' % what, st)
        e.oblig('table-open', st.tags['lst'] == 'O', inst, '%s a record while the record table is not accessible' % what, st)
        if self.threads:
            ok = True
            for s in h.c:
                o = SYMS[s].origin
                if SYMS[s].kind == 'list' and o and o[0] == 'global' and o[3] < st.tags['gen']:
                    ok = False
            e.oblig('table-pointer-current', ok, inst,
                    '%s a record through a table pointer obtained before the lock was taken' % what, st)

    def on_slot_load(self, st, h, off, size, inst):
        self.slot(st, h, inst, 'reads')

    def on_slot_store(self, st, h, off, size, val, old, inst):
        self.slot(st, h, inst, 'writes')

    def at_exit(self, st, v, kind, item):
        e = self.eng
        inst = None
        F = e.m.functions[item.fn]
        what = 'leaves by exception' if kind == 'throw' else 'returns'
        d = st.tags['lk'] - self.lk0
        if self.threads:
            e.oblig('lock-balanced', d == 0, Where(F), '%s %s with the lock %s' % (
                item.fn, what, 'held %d time(s) more than at entry' % d if d > 0 else 'released %d time(s) too often' % -d), st)
        e.oblig('table-restored', st.tags['lst'] == self.lst0, Where(F),
                '%s %s with the record table left %s' % (item.fn, what, {'O': 'accessible', 'C': 'inaccessible', 'P':
                'partly protected'}.get(st.tags['lst'], 'in unknown protection')), st)


class Where:
    """pseudo instruction: the end of a function"""
    def __init__(self, F):
        class B: pass
        self.block = B()
        self.block.fn = F

    def loc(self):
        d = self.block.fn.di or {}
        return '%s:%s' % (d.get('file'), d.get('line'))


SKIP = set(STRMEM) | OUTSIDE | set(INITS) | {'duma_alloc_return', '_ZSt', 'DUMA_newFrame'}


def entries(mod, skip=SKIP):
    return [f for f in public(mod) if f not in skip]


class Eng(DumaEngine):
    no_inline = frozenset(INITS)


class EngW(DumaEngine):
    """wrappers: the two central functions are analysed on their own and stand for their contract here"""
    no_inline = frozenset(INITS) | {'_duma_allocate', '_duma_deallocate'}

    def external(self, st, n, a, I):
        if n in ('_duma_allocate', '_duma_deallocate'):
            k, p, f = alloc_params(self.m, n)
            want = 1 if st.tags['lk'] == 0 and st.tags['lst'] == 'C' else (
                0 if st.tags['lk'] > 0 and st.tags['lst'] == 'O' else None)
            pv = st.cons.norm(a[p])
            self.oblig('central-function-context', want is not None and not pv.c and pv.k == want, I,
                       'calls %s in a lock/table state that does not fit its table-protection argument' % n, st)
        return super().external(st, n, a, I)


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'shared', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread']
    big, small = [], []
    for c in configs:
        m = module(c)
        for f in entries(m):
            if f in ('_duma_allocate', '_duma_deallocate', '_duma_realloc') or 'heck' in f or 'Frame' in f:
                for x in contexts(m, f):
                    big.append(Item(c, f, x))
            else:
                small.append(Item(c, f))
    big.sort(key=lambda i: (i.fn != '_duma_realloc', i.fn != '_duma_allocate'))
    mk = lambda it: M(it, it.config != 'nothread')
    ctx.items(run_items(big, mk, Eng))
    ctx.items(run_items(small, mk, EngW))
    ctx.assumptions += ['entry points run after initialisation (initialisation itself: C23)',
                        'the program passes live arguments; aborting paths end the process (C10)']
