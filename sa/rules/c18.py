"""Leak reports and locations."""
from lint import *
from wrap import Where
import wrap, alloc
from rules import c16

RULE = ('(1) The leak report function interpreted for an arbitrary record table: records are visited one after the other, from '
        'the first to the last; a record is printed at most once and exactly when it is live, not the library\'s own and has a '
        'location (or all leaks are asked for), with its own address, size and location; records passed over meet one of these '
        'exclusions; the exit function of the process reaches it. (2) Every entry point passes the location it was given (or '
        'none) to the central functions unchanged. (3) The central functions record the location given with the block, and '
        'the location of the release in blocks kept protected.')


class Eng(DumaEngine):
    def goto(self, F, B, succ, st, out):
        if F.rpo.index(succ) <= F.rpo.index(B.idx) and 'cur' in st.gh and not st.cons.bot:
            self.mon.passed(st, B.insts[-1])
        if 'cur' in st.gh and not st.cons.bot:
            # what the branches taken so far say about the record is kept apart at joins
            st.tags['lt'] = self.mon.verdict(st)
        return super().goto(F, B, succ, st, out)


class Mon(Monitor):
    def __init__(self, item):
        self.item = item

    def mkey(self, st):
        return None

    def at_entry(self, st, item):
        e = self.eng
        st.tags['pr'], st.tags['lt'] = 0, ''
        st.gh['nx'] = C(0)
        self.loc = 'lineno' in e.slot_fields
        self.W = Where(e.m.functions[item.fn])
        self.visited = False

    def list(self, st):
        e = self.eng
        return st.cons.norm(e.gval(st, 'allocList'))

    def f(self, st, h, n):
        e = self.eng
        h, sl = e.find_slot(st, h, create=False)
        if sl is None:
            return None
        c = sl.cells.get(e.slot_fields[n][0])
        return None if c is None else st.cons.norm(c[1])

    def on_slot_load(self, st, h, off, size, inst):
        e = self.eng
        if e.fbyoff.get(off) != 'state':
            return
        if 'cur' in st.gh and e.holds(st, ceq(st.cons.norm(st.gh['cur']) - h)):
            return
        if 'cur' in st.gh:
            self.passed(st, inst)
        z = e.slot_size
        e.oblig('records-one-after-the-other', e.holds(st, ceq(h - self.list(st) - st.cons.norm(st.gh['nx']).mul(z))), inst,
                'the next record looked at is not the one following the last', st)
        st.gh['cur'] = h
        st.gh['nx'] = st.cons.norm(st.gh['nx'] + 1)
        self.visited = True

    def leak(self, st, h):
        """(must, may): the record is a leak to report on this path"""
        e = self.eng
        E = e.E
        s, al = self.f(st, h, 'state'), self.f(st, h, 'allocator')
        ra = st.cons.norm(e.gval(st, 'REPORT_ALL_LEAKS'))
        conds = [ceq(s - E['DUMAST_IN_USE']), cne(al - e.EFA['EFA_INT_ALLOC'])]
        if self.loc:
            ln = e.toS(st, self.f(st, h, 'lineno'), 32)
            conds.append(('or', cne(ra), cge(ln - 1)))
            if self.item.config == 'explicit':
                conds.append(cne(ln + 1))
        return conds

    def verdict(self, st):
        """y: a leak to report, n: not, ?: undecided on this path"""
        if st.tags.get('lt', '?') in 'yn' and st.tags.get('lt'):
            return st.tags['lt']
        h = st.cons.norm(st.gh['cur'])
        if self.f(st, h, 'state') is None:
            return '?'
        cs = self.leak(st, h)
        if any(self.eng.refute(st, c) for c in cs):
            return 'n'
        if all(self.eng.refute(st, self.neg(c)) for c in cs):
            return 'y'
        return '?'

    def neg(self, c):
        return ('and',) + tuple(cnot(x) for x in c[1:]) if c[0] == 'or' else cnot(c)

    def passed(self, st, inst):
        """the record at work is left behind"""
        e = self.eng
        h = st.gh.pop('cur')
        st.gh['cur'] = h
        v = self.verdict(st)
        st.gh.pop('cur')
        n, st.tags['pr'], st.tags['lt'] = st.tags['pr'], 0, ''
        if e.quiet:
            return
        e.oblig('leak-reported', n > 0 or v == 'n', inst, 'a live block of the program is passed over without a report', st)

    def on_call(self, st, name, a, I):
        e = self.eng
        if name != 'DUMA_Print' or st.cons.bot or 'cur' not in st.gh:
            return
        h = st.cons.norm(st.gh['cur'])
        uA = self.f(st, h, 'userAddress')
        if len(a) < 3:
            return
        st.tags['pr'] = min(st.tags['pr'] + 1, 2)
        e.oblig('reported-once', st.tags['pr'] == 1, I, 'a block is reported more than once', st)
        e.oblig('report-address', e.holds(st, ceq(a[1] - uA)), I, 'a leak report does not print the address of the block', st)
        e.oblig('report-size', e.holds(st, ceq(a[2] - self.f(st, h, 'userSize'))), I, 'a leak report does not print the size of the block', st)
        if self.loc and len(a) >= 6:
            e.oblig('report-location', e.holds(st, ceq(a[4] - self.f(st, h, 'filename'))) and
                    e.holds(st, ceq(e.toS(st, a[5], 32) - e.toS(st, self.f(st, h, 'lineno'), 32))), I,
                    'a leak report does not print the location recorded with the block', st)
        e.oblig('only-leaks-reported', self.verdict(st) == 'y', I, 'a record that is not a leak of the program is reported', st)

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if kind != 'ret' or st.cons.bot:
            return
        if 'cur' in st.gh:
            self.passed(st, self.W)
        n = st.cons.norm(st.gh['nx'])
        e.oblig('all-records-visited', e.holds(st, ceq(n - st.cons.norm(e.gval(st, 'slotCount')))), self.W,
                'returns without having looked at every record', st)


def check(ctx):
    configs = ['static', 'shared', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = []
    for c in configs:
        m = module(c)
        F = m.functions.get('DUMA_delFrame')
        if F is None or F.decl:
            if m.functions.get('DUMA_newFrame') is not None or c in ('static', 'shared'):
                raise Missing('function DUMA_delFrame')
            continue
        items.append(Item(c, 'DUMA_delFrame'))
        # the process exit reaches the report: destructor or atexit handler
        hs = set()
        G = m.globals.get('llvm.global_dtors')
        if G is not None:
            hs |= {v[1] for o, (z, v) in G.cells.items() if v[0] in ('g', 'f') and v[1] in m.functions}
        for X in m.functions.values():
            for B, I in calls(X) if X.blocks else ():
                if I.x.get('callee') in ('atexit', 'on_exit', '__cxa_atexit') and I.ops and I.ops[0][0] in ('g', 'f'):
                    hs.add(I.ops[0][1])
        nr = noreturn_set(m)
        good = hs & always(m, {'DUMA_delFrame'}, nr)
        ctx.ob('report-at-exit', bool(good), Where(F).loc(), 'no exit handler of the library always runs the leak report', 'DUMA_delFrame')
    ctx.items(run_items(items, Mon, Eng))
    wrap.run(ctx, {'location'}, configs)
    c16.run(ctx, {'location'}, configs)
    cs = configs[:1]
    alloc.run(ctx, {'file'}, alloc.tree_allocs(cs, sizes=('>0',), ctxs=('user',)) + [alloc.FreeItem(c, '_duma_deallocate', 'user', t) for c in cs for t in ('EFA_FREE', 'EFA_DEL_ARRAY')])
