"""Checked arrays, assertions, protected functions."""
from lint import *
from wrap import Where
from engine import V, C, newsym, SYMS, Lin
import witness

RULE = ('A witness program using the macros (read, write, address of an element, global, local, separately declared arrays, signed and '
        'unsigned index expressions, index expressions with calls) is compiled in C and C++ against the headers of the current tree '
        'and interpreted (never run) for arbitrary values: the assertion is reached exactly when the index is outside the '
        'array (the condition false), before any access, with the place and text of the expression; otherwise exactly the '
        'element addressed is used; index and condition are evaluated once. Every return of a protected function '
        'compares the return address of entry and exit. The assertion function never returns.')

ARR = {'garr': (10, 4), 'larr': (7, 1), 'earr': (20, 8)}
SRC = '''
#include "duma.h"
#ifdef __cplusplus
extern "C" {
#endif
long side(long);
extern void use(const void *);
CA_DEFINE(int, garr, 10);
extern double earr[20];
CA_DECLARE(earr, 20);
#line 101 "user.c"
int wit_get(long i) { return CA_REF(garr, i); }
#line 102 "user.c"
void wit_set(long i, int v) { CA_REF(garr, i) = v; }
#line 103 "user.c"
int *wit_addr(long i) { return &CA_REF(garr, i); }
#line 104 "user.c"
int *wit_side(long i) { return &CA_REF(garr, side(i)); }
#line 105 "user.c"
double *wit_ext(int i) { return &CA_REF(earr, i); }
#line 106 "user.c"
double *wit_prec(long i, long k) { return &CA_REF(earr, k ? i : 3); }
#line 107 "user.c"
const char *wit_local(long i) { CA_DEFINE(char, larr, 7); use(larr); return &CA_REF(larr, i); }
#line 108 "user.c"
void wit_two(long i, int v) { CA_REF(garr, i) = CA_REF(garr, i) + v; }
#line 201 "user.c"
void wit_assert(int c) { DUMA_ASSERT(c); }
#line 202 "user.c"
void wit_assert_side(int c) { DUMA_ASSERT(side(c)); }
#line 203 "user.c"
void wit_assert_or(int c, int k) { DUMA_ASSERT(c && k); }
#line 204 "user.c"
void wit_assert_if(int c) { if (c) DUMA_ASSERT(c == 1); else use(0); }
#line 301 "user.c"
int wit_prot(int c) { DUMA_FN_PROT_START
  if (c) DUMA_FN_PROT_RET(c + 1);
  c = 4;
  DUMA_FN_PROT_END
  return c; }
#line 311 "user.c"
void wit_prot_void(int c) { DUMA_FN_PROT_START
  if (c) { DUMA_FN_PROT_RET_VOID(); } else use(0);
  DUMA_FN_PROT_END
}
#ifdef __cplusplus
}
#endif
'''
# function: (array, index is argument, line) / ('assert', line)
REFS = {'wit_get': ('garr', 101), 'wit_set': ('garr', 102), 'wit_addr': ('garr', 103), 'wit_side': ('garr', 104),
        'wit_ext': ('earr', 105), 'wit_prec': ('earr', 106), 'wit_local': ('larr', 107), 'wit_two': ('garr', 108)}
ASSERTS = {'wit_assert': 201, 'wit_assert_side': 202, 'wit_assert_or': 203, 'wit_assert_if': 204}
PROT = ('wit_prot', 'wit_prot_void')
SIDE = {'wit_side': 1, 'wit_assert_side': 1}


class Eng(DumaEngine):
    def mkey(self, st):
        # zero and non-zero values of the arguments stay apart at joins
        if st.cons.bot:
            return None
        out = []
        for k in sorted(k for k in st.gh if k[0] == 'a'):
            v = st.cons.norm(st.gh[k])
            q = self.mon.argbits[k]
            w = self.toS(st, v, q)
            out.append('z' if self.holds(st, ceq(w)) else 'n' if self.holds(st, cne(w)) else '?')
        return tuple(out)


class Mon(Monitor):
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        e = self.eng
        F = e.m.functions[item.fn]
        self.W = Where(F)
        st.tags['side'] = st.tags['acc'] = 0
        self.argbits = {}
        for i in range(len(F.params)):
            st.gh['a%d' % i] = st.env[('a', i)]
            self.argbits['a%d' % i] = F.params[i][1] or 64
        self.loc = None

    def arg(self, st, i, bits):
        return self.eng.toS(st, st.cons.norm(st.gh['a%d' % i]), bits)

    def index(self, st):
        """the value of the index expression, as a mathematical integer; None while not evaluated"""
        fn = self.item.fn
        if fn == 'wit_side':
            return st.cons.norm(st.gh['side']) if 'side' in st.gh else None
        if fn == 'wit_ext':
            return self.arg(st, 0, 32)
        return self.arg(st, 0, 64)

    def text(self, a, st):
        e = self.eng
        kind, base, off = e.region(st, st.cons.norm(a))
        if kind != 'global' or off.c or off.k:
            return None
        s = e.m.globals[SYMS[base].origin].string
        s = s.decode('latin1') if isinstance(s, bytes) else s
        return None if s is None else s.split('\0')[0]

    def cases(self, st):
        """states in which the value of the index expression is one argument"""
        e = self.eng
        if self.item.fn != 'wit_prec':
            i = self.index(st)
            return [] if i is None else [(st, i)]
        k = self.arg(st, 1, 64)
        return [(s, self.arg(s, 0, 64)) for s in e.assume(st.copy(), cne(k), None) if not s.cons.bot] + \
               [(s, C(3)) for s in e.assume(st.copy(), ceq(k), None) if not s.cons.bot]

    def on_call(self, st, name, a, I):
        e = self.eng
        fn = self.item.fn
        if st.cons.bot:
            return None
        if name == 'side':
            st.tags['side'] = min(st.tags['side'] + 1, 3)
            y = V(newsym('side', -(1 << 63), (1 << 63) - 1))
            st.gh['side'] = y
            return [(st, y, 'ret')]
        if name == 'llvm.returnaddress':
            y = V(newsym('ra', 0x1000, (1 << 47) - 1))
            if 'ra' in st.gh:
                st.gh['ra2'] = y
            else:
                st.gh['ra'] = y
            return [(st, y, 'ret')]
        if name == 'use':
            self.loc = a[0] if fn == 'wit_local' else None
            return [(st, None, 'ret')]
        if name != '_duma_assert':
            return None
        if fn in PROT:
            ok = 'ra2' in st.gh and e.holds(st, cne(st.cons.norm(st.gh['ra']) - st.cons.norm(st.gh['ra2'])))
            e.oblig('protected-return', ok, I, 'the check of the return address fails although it has not changed', st)
            return None
        line = REFS[fn][1] if fn in REFS else ASSERTS[fn]
        e.oblig('place', len(a) >= 3 and self.text(a[1], st) == 'user.c' and e.holds(st, ceq(e.toS(st, a[2], 32) - line)) and bool(self.text(a[0], st)),
                I, 'a failed assertion does not name its place', st)
        e.oblig('evaluated-once', st.tags['side'] == SIDE.get(fn, 0), I, 'an argument of the macro is not evaluated exactly once', st)
        if fn in REFS:
            n = ARR[REFS[fn][0]][0]
            e.oblig('check-first', not st.tags['acc'], I, 'the element is used before the index is checked', st)
            for s, i in self.cases(st):
                e.oblig('no-valid-index-refused', e.refute(s, ('and', cge(i), cge(C(n - 1) - i))), I,
                        'an index inside the array fails the check', s)
        else:
            e.oblig('assert-exact', self.cond(st, True), I, 'an assertion fails although its condition holds', st)
        return None

    def cond(self, st, failed):
        """the condition of the assertion is false (failed) / true on this path"""
        e = self.eng
        fn = self.item.fn
        c = self.arg(st, 0, 32)
        if fn == 'wit_assert':
            t = cne(c)
        elif fn == 'wit_assert_side':
            if 'side' not in st.gh:
                return False
            t = cne(st.cons.norm(st.gh['side']))
        elif fn == 'wit_assert_or':
            t = ('and', cne(c), cne(self.arg(st, 1, 32)))
        else:
            t = ceq(c - 1)
            if not failed:
                t = ('or', t, ceq(c))
            return e.refute(st, ceq(c - 1)) and e.refute(st, ceq(c)) if failed else e.refute(st, ('and', cne(c - 1), cne(c)))
        neg = ('or',) + tuple(cnot(x) for x in t[1:]) if t[0] == 'and' else cnot(t)
        return e.refute(st, t if failed else neg)

    def used(self, st, addr, inst):
        """address of the element the program works with"""
        e = self.eng
        fn = self.item.fn
        nm = REFS[fn][0]
        n, z = ARR[nm]
        if nm == 'larr':
            base = self.loc
        else:
            base = e.gaddr(nm)
        cs = self.cases(st)
        e.oblig('element', bool(cs) and base is not None and all(e.holds(s, ceq(s.cons.norm(addr) - s.cons.norm(base) - s.cons.norm(i).mul(z))) for s, i in cs),
                inst, 'the element used is not the one addressed', st)
        for s, i in cs:
            e.oblig('index-checked', e.holds(s, cge(i)) and e.holds(s, cge(C(n - 1) - i)), inst,
                    'an element outside the array is used', s)

    def on_data_store(self, st, a, size, v, inst):
        if self.item.fn in ('wit_set', 'wit_two') and not st.cons.bot and size == 4:
            kind, base, off = self.eng.region(st, st.cons.norm(a))
            if kind == 'global' and SYMS[base].origin == 'garr':
                st.tags['acc'] = 1
                self.used(st, a, inst)

    def at_exit(self, st, v, kind, item):
        e = self.eng
        fn = item.fn
        if kind != 'ret' or st.cons.bot:
            return
        e.oblig('evaluated-once', st.tags['side'] == SIDE.get(fn, 0), self.W, 'an argument of the macro is not evaluated exactly once', st)
        if fn in PROT:
            ok = 'ra2' in st.gh and e.holds(st, ceq(st.cons.norm(st.gh['ra']) - st.cons.norm(st.gh['ra2'])))
            e.oblig('protected-return', ok, self.W, 'a protected function returns without the check of its return address', st)
        elif fn in ASSERTS:
            e.oblig('assert-exact', self.cond(st, False), self.W, 'an assertion passes although its condition is false', st)
        elif fn == 'wit_get':
            o = SYMS[list(v.c)[0]].origin if isinstance(v, Lin) and v.c else None
            vs = [SYMS[s].origin for s in v.c if isinstance(SYMS[s].origin, tuple) and SYMS[s].origin[0] == 'garr'] if isinstance(v, Lin) else []
            e.oblig('element', len(vs) == 1 and vs[0][1] == 'garr', self.W, 'no element of the array is read', st)
            if vs:
                self.used(st, e.gaddr('garr') + vs[0][2], self.W)
        elif fn in ('wit_set', 'wit_two'):
            e.oblig('element', st.tags['acc'] == 1, self.W, 'no element of the array is written', st)
        elif v is not None:
            self.used(st, v, self.W)


def check(ctx):
    items = []
    base = ['static', 'noleak'] if not ctx.thorough else ['static', 'noleak', 'shared', 'nothread', 'noglobal', 'explicit']
    for c in base:
        m = module(c)
        F = m.functions.get('_duma_assert')
        if F is None or F.decl:
            raise Missing('function _duma_assert')
        ctx.ob('assertion-never-returns', '_duma_assert' in noreturn_set(m), Where(F).loc(), 'the assertion function can return', '_duma_assert')
        for ext, stds in (('c', ['gnu89', 'gnu99'] + (['c11'] if ctx.thorough else [])), ('cpp', ['gnu++98'] + (['gnu++17'] if ctx.thorough else []))):
            for std in stds:
                key = '%s+array-%s' % (c, std)
                witness.module(key, 'arr_%s.%s' % (std.replace('+', 'x'), ext), SRC, c, std, ('-DDUMA_SKIP_SETUP',) if ext == 'cpp' else ())
                items += [Item(key, fn) for fn in list(REFS) + list(ASSERTS) + list(PROT)]
    ctx.items(run_items(items, Mon, Eng))
