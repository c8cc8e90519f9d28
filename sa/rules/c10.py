"""Detected errors: reported first, and the program does not continue."""
from lint import *
from wrap import Where
import alloc
from rules import c11, c16

RULE = ('(1) Fixpoint over the control-flow graphs: the error functions (abort, exit, failed assertion) have no path back to '
        'their caller, and every instruction that ends the process is reached only after a report was printed. (2) Abstract '
        'interpretation of the print function: with output on standard error enabled every path writes the formatted text, '
        'whole, to descriptor 2, whatever the other output settings are; the error functions hand their message to it. (3) '
        'Release and resize functions: no path on which a check failed returns to the caller.')
ENDS = ('_exit', '_Exit', 'exit', 'abort', 'quick_exit', 'raise', 'kill', 'tgkill', '__assert_fail', '_ZSt9terminatev')
PRINT = ('DUMA_Print', 'write')


class Eng(c11.Eng):
    def __init__(self, *a, **k):
        c11.Eng.__init__(self, *a, **k)
        self.fmt = None

    def external(self, st, n, a, I):
        if n == 'write' and self.item.fn == 'DUMA_Print':
            fd = st.cons.norm(a[0])
            if not fd.c and fd.k == 2:
                kind, base, off = self.region(st, st.cons.norm(a[1]))
                ln = self.toU(st, a[2], 64)
                o = st.gh.get(('nul', base)) if kind in ('stack', 'global') else None
                whole = o is not None and self.holds(st, ceq(off)) and self.holds(st, ceq(st.cons.norm(o) - ln))
                self.oblig('whole-text-written', whole, I, 'not exactly the formatted text is written to standard error', st)
                st.tags['w2'] = 1
            if not self.holds(st, cge(self.toU(st, a[2], 64))):
                pass
        return super().external(st, n, a, I)


class Mon(c11.Mon):
    def at_entry(self, st, item):
        c11.Mon.at_entry(self, st, item)
        e = self.eng
        self.W = Where(e.m.functions[item.fn])
        if item.fn == 'DUMA_Print':
            st.tags['w2'] = 0
            e.add(st, cne(e.gval(st, 'DUMA_OUTPUT_STDERR')))
        else:
            st.tags['pr'] = 0

    def on_call(self, st, name, a, I):
        e = self.eng
        if name == 'DUMA_Print' and self.item.fn != 'DUMA_Print' and len(e.fnstack) == 1:
            st.tags['pr'] = 1
        return c11.Mon.on_call(self, st, name, a, I)

    def at_exit(self, st, v, kind, item):
        if item.fn == 'DUMA_Print' and kind == 'ret' and not st.cons.bot:
            self.eng.oblig('written-to-stderr', st.tags['w2'] == 1, self.W, 'returns without having written to standard error although '
                           'that output is enabled', st)


def check(ctx):
    configs = ['static', 'so', 'gnumake'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = []
    for c in configs:
        m = module(c)
        nr = noreturn_set(m)
        for f in ('DUMA_Abort', 'DUMA_Exit', '_duma_assert'):
            F = m.functions.get(f)
            if F is None or F.decl:
                raise Missing('function %s' % f)
            ctx.ob('does-not-return', f in nr, Where(F).loc(), '%s has a path that returns to its caller' % f, f)
        # everything that ends the process has printed before
        fns = [F for F in m.functions.values() if not F.decl and F.blocks and not F.name.startswith('__clang')]
        prints, ends = set(PRINT), set(ENDS)
        more = True
        while more:         # functions that print on every path
            more = False
            for F in fns:
                if F.name in prints or F.name in nr:
                    continue
                if not must_before(F, lambda I: I.op == 'call' and I.x.get('callee') in prints, lambda I: I.op == 'ret', nr):
                    prints.add(F.name)
                    more = True
        at = addr_taken(m)
        more, fails = True, {}
        while more:         # helpers that end the process: their callers must have printed
            more, fails = False, {}
            for F in fns:
                bad = must_before(F, lambda I: I.op == 'call' and I.x.get('callee') in prints,
                                  lambda I: I.op == 'call' and I.x.get('callee') in ends, nr - ends)
                for I in bad:
                    fails[id(I)] = (F, I)
                used = F.name in at or not any(J.x.get('callee') == F.name for G in fns for _, J in calls(G))
                if bad and F.linkage in (8, 9) and not used and F.name not in ends:
                    ends.add(F.name)
                    more = True
            fails = {k: v for k, v in fails.items() if v[0].name not in ends}
        for F in fns:
            for B, I in calls(F):
                if I.x.get('callee') in ends:
                    ctx.ob('report-before-end', id(I) not in fails, I.loc(),
                           '%s ends the process without having printed a report' % F.name, F.name)
        ctx.analysed.setdefault('no_return', {})[c] = sorted(n for n in nr if n in m.functions and not m.functions[n].decl)
        items.append(Item(c, 'DUMA_Print'))
    ctx.items(run_items(items, Mon, Eng))
    cs = configs[:1] if not ctx.thorough else configs
    alloc.run(ctx, {'dealloc'}, alloc.tree_frees(cs))
    c16.run(ctx, {'live'}, cs)
    ctx.assumptions += ['write() to standard error succeeds', 'output on standard error is not switched off (DUMA_OUTPUT_STDERR)']
