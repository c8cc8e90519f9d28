"""Allocator families: tags of the entry points, names and pairing check."""
from common import *
import wrap
from rules import c16

RULE = ('(1) Every public allocation and release function passes, on every path, the family tag of its own interface to the '
        'central functions. (2) For every pair (releasing tag T, allocating tag X) the release function is interpreted with '
        'records allocated under X: if the families differ no path changes a record and none returns having accepted the '
        'address; if they agree a releasing path exists. (3) The name of every tag in the description table is the name of '
        'the function the program called.')

FAMILIES = [
    ('EFA_INT_ALLOC', 'EFA_INT_DEALLOC'),
    ('EFA_MALLOC', 'EFA_CALLOC', 'EFA_FREE', 'EFA_MEMALIGN', 'EFA_POSIX_MEMALIGN', 'EFA_REALLOC', 'EFA_VALLOC', 'EFA_STRDUP'),
    ('EFA_NEW_ELEM', 'EFA_DEL_ELEM'), ('EFA_NEW_ARRAY', 'EFA_DEL_ARRAY'),
    ('EFA_MEMBER_NEW_ELEM', 'EFA_MEMBER_DEL_ELEM'), ('EFA_MEMBER_NEW_ARRAY', 'EFA_MEMBER_DEL_ARRAY')]
FREES = ('EFA_INT_DEALLOC', 'EFA_FREE', 'EFA_REALLOC', 'EFA_DEL_ELEM', 'EFA_DEL_ARRAY', 'EFA_MEMBER_DEL_ELEM',
         'EFA_MEMBER_DEL_ARRAY')
ALLOCS = ('EFA_INT_ALLOC', 'EFA_MALLOC', 'EFA_CALLOC', 'EFA_MEMALIGN', 'EFA_POSIX_MEMALIGN', 'EFA_REALLOC', 'EFA_VALLOC',
          'EFA_STRDUP', 'EFA_NEW_ELEM', 'EFA_NEW_ARRAY', 'EFA_MEMBER_NEW_ELEM', 'EFA_MEMBER_NEW_ARRAY')
NAMES = {'EFA_MALLOC': 'malloc', 'EFA_CALLOC': 'calloc', 'EFA_FREE': 'free', 'EFA_MEMALIGN': 'memalign',
         'EFA_POSIX_MEMALIGN': 'posix_memalign', 'EFA_REALLOC': 'realloc', 'EFA_VALLOC': 'valloc', 'EFA_STRDUP': 'strdup',
         'EFA_NEW_ELEM': 'new', 'EFA_DEL_ELEM': 'delete', 'EFA_NEW_ARRAY': 'new[]', 'EFA_DEL_ARRAY': 'delete[]',
         'EFA_MEMBER_NEW_ELEM': 'new', 'EFA_MEMBER_DEL_ELEM': 'delete', 'EFA_MEMBER_NEW_ARRAY': 'new[]',
         'EFA_MEMBER_DEL_ARRAY': 'delete[]'}


def family(t):
    for f in FAMILIES:
        if t in f:
            return f
    return None


class PairItem(Item):
    def __init__(self, config, tag, rec):
        Item.__init__(self, config, '_duma_deallocate', 'int' if tag == 'EFA_INT_DEALLOC' else 'user')
        self.tag, self.rec = tag, rec

    def __repr__(self):
        return '%s:_duma_deallocate[%s of %s]' % (self.config, self.tag, self.rec)


class Eng(DumaEngine):
    def slot_invariants(self, st, f, h):
        super().slot_invariants(st, f, h)
        it = self.item
        al = f['allocator']
        x, i = self.EFA[it.rec], self.EFA['EFA_INT_ALLOC']
        # other records of the table are of the family under test or the library's own
        if x == i:
            self.add(st, ceq(al - x))
        else:
            self.add(st, ceq(al - x)) if self.item.only else self.add_pend(st, ('imp', cne(al - i), [ceq(al - x)]))


class Mon(Monitor):
    def __init__(self, item):
        self.item = item
        self.match = item.tag in family(item.rec)
        self.released = 0

    def at_entry(self, st, item):
        e = self.eng
        k, p, f = alloc_params(e.m, item.fn)
        st.env[('a', k)] = C(e.EFA[item.tag])
        self.where = wrap.Where(e.m.functions[item.fn])

    def on_slot_store(self, st, h, off, size, val, old, inst):
        e = self.eng
        if self.match:
            self.released += 1
            return
        e.oblig('mismatch-changes-nothing', False, inst,
                'a block allocated with %s is released by %s' % (self.item.rec, self.item.tag), st)

    def at_exit(self, st, v, kind, item):
        pass

    def finish(self, rets, item):
        e = self.eng
        if self.match:
            e.oblig('match-accepted', self.released > 0, self.where,
                    'a block allocated with %s can not be released with %s' % (item.rec, item.tag))
        else:
            e.oblig('mismatch-changes-nothing', True, self.where, '')


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    wrap.run(ctx, {'family'}, configs)
    c16.run(ctx, {'family'}, configs)
    items = []
    for c in (configs[:1] if not ctx.thorough else configs):
        m = module(c)
        E = m.di.enum('_DUMA_Allocator') or {}
        for t in FREES + ALLOCS:
            if t not in E:
                raise Missing('family tag %s' % t)
        for t in FREES:
            for x in (ALLOCS if t != 'EFA_INT_DEALLOC' else ALLOCS[:1]):
                it = PairItem(c, t, x)
                it.only = True
                items.append(it)
    ctx.items(run_items(items, Mon, Eng))
    for c in configs:
        e = DumaEngine(module(c))
        T = e.alloc_table
        if T is None:
            raise Missing('allocator description table')
        for t, n in NAMES.items():
            i = e.EFA[t]
            nm = T['rows'][i][0] if i < len(T['rows']) else None
            nm = nm.decode('latin1').rstrip('\0') if isinstance(nm, bytes) else (nm or '')
            words = nm.replace('()', '').split()
            ctx.ob('reported-name', n in words, c, 'reports call %s "%s"' % (t, nm), T['name'])
