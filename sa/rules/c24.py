"""Location bookkeeping of delete statements."""
from lint import *
from wrap import Where
from engine import V, C, newsym, SYMS, Lin
import witness

RULE = ('A witness program with every form of delete statement is compiled against the headers of the current tree, linked with the '
        'library\'s IR and interpreted (never run) for an arbitrary pointer and several nesting depths: the releasing function is '
        'called once for a block, with the kind of the statement, while the lock is held and with file and line of the statement '
        '(of the inner and the outer statement for deletes in destructors); afterwards lock depth, nesting depth and marker '
        'are as before.')

SRC = '''
#include "dumapp.h"
struct Inner { int *q; ~Inner(); };
#line 100 "user.cpp"
Inner::~Inner() { delete[] q; }
extern "C" {
#line 201 "user.cpp"
void wit_scalar(int *p) { delete p; }
#line 202 "user.cpp"
void wit_array(int *p) { delete[] p; }
#line 203 "user.cpp"
void wit_if(int *p, int c) { if (c) delete p; else delete[] p; }
#line 204 "user.cpp"
void wit_nested(Inner *p) { delete p; }
#line 205 "user.cpp"
void wit_null() { delete (int *)0; }
#line 206 "user.cpp"
void wit_twice(int *p) { delete p;
 delete[] p; }
#include "noduma.h"
#line 301 "user.cpp"
void wit_plain(int *p) { operator delete(p); }
#line 302 "user.cpp"
void wit_plain_array(int *p) { operator delete[](p); }
#line 303 "user.cpp"
void wit_located(int *p) { operator delete(p, "user.cpp", 303); }
#line 304 "user.cpp"
void wit_located_array(int *p) { operator delete[](p, "user.cpp", 304); }
#line 305 "user.cpp"
void wit_plain_nothrow(int *p) { operator delete(p, std::nothrow); }
#line 306 "user.cpp"
void wit_plain_array_nothrow(int *p) { operator delete[](p, std::nothrow); }
}
'''
OLD = '''
#include "dumapp.h"
extern "C" {
#line 401 "user.cpp"
void wit_scalar(int *p) { DEL_ELEM(p); }
#line 402 "user.cpp"
void wit_array(int *p) { DEL_ARRAY(p); }
#line 403 "user.cpp"
void wit_scalar_nothrow(int *p) { DEL_ELEM_NOTHROW(p); }
#line 404 "user.cpp"
void wit_array_nothrow(int *p) { DEL_ARRAY_NOTHROW(p); }
#line 405 "user.cpp"
void wit_if(int *p, int c) { if (c) DEL_ELEM(p); else DEL_ARRAY(p); }
}
'''
# function: what is to be released when the pointer is not null, in order: (kind, line or None)
WANT = {
    'new': {'wit_scalar': [('EFA_DEL_ELEM', 201)], 'wit_array': [('EFA_DEL_ARRAY', 202)],
            'wit_if': [(('EFA_DEL_ELEM', 'EFA_DEL_ARRAY'), 203)], 'wit_nested': [('EFA_DEL_ARRAY', 100), ('EFA_DEL_ELEM', 204)],
            'wit_null': [], 'wit_twice': [('EFA_DEL_ELEM', 206), ('EFA_DEL_ARRAY', 207)],
            'wit_plain': [('EFA_DEL_ELEM', None)], 'wit_plain_array': [('EFA_DEL_ARRAY', None)],
            'wit_plain_nothrow': [('EFA_DEL_ELEM', None)], 'wit_plain_array_nothrow': [('EFA_DEL_ARRAY', None)],
            'wit_located': [('EFA_DEL_ELEM', 303)], 'wit_located_array': [('EFA_DEL_ARRAY', 304)]},
    'old': {'wit_scalar': [('EFA_DEL_ELEM', 401)], 'wit_array': [('EFA_DEL_ARRAY', 402)],
            'wit_scalar_nothrow': [('EFA_DEL_ELEM', 403)], 'wit_array_nothrow': [('EFA_DEL_ARRAY', 404)],
            'wit_if': [(('EFA_DEL_ELEM', 'EFA_DEL_ARRAY'), 405)]},
}


class Eng(DumaEngine):
    EVENTS = DumaEngine.EVENTS | {'_duma_deallocate', '_duma_allocate'}


class DelItem(Item):
    def __init__(self, key, form, fn, depth, threads):
        super().__init__(key, fn, 'user')
        self.form, self.depth, self.threads = form, depth, threads

    def __repr__(self):
        return '%s:%s[depth %d]' % (self.config, self.fn, self.depth)


class Mon(Monitor):
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        e = self.eng
        self.W = Where(e.m.functions[item.fn])
        self.put(st, 'TLS.DelPtr', C(item.depth))
        st.gh['arg'] = st.env.get(('a', 0), C(0))
        st.tags['n'] = 0
        self.lk = st.tags['lk']

    def put(self, st, f, v):
        e = self.eng
        g, o, z, ty = e.gf(f)
        cells = dict(st.mem.get(e.gaddr(g), {}))
        cells[o] = (z, v)
        st.mem[e.gaddr(g)] = cells

    def text(self, a, st):
        e = self.eng
        kind, base, off = e.region(st, st.cons.norm(a))
        if kind != 'global' or off.c or off.k:
            return None
        s = e.m.globals[SYMS[base].origin].string
        s = s.decode('latin1') if isinstance(s, bytes) else s
        return None if s is None else s.split('\0')[0]

    def on_call(self, st, name, a, I):
        e = self.eng
        if name == '_duma_assert' and not st.cons.bot:
            e.oblig('depth-checked', self.item.depth >= 255 - 1, I, 'the depth check fails although the nesting is within its limit', st)
            return None
        if name != '_duma_deallocate' or st.cons.bot:
            return None
        want = WANT[self.item.form][self.item.fn]
        n = st.tags['n']
        st.tags['n'] = n + 1
        if self.item.fn == 'wit_nested' and n == 0 and e.holds(st, ceq(a[0] - st.cons.norm(st.gh['arg']))):
            n, st.tags['n'] = 1, 2      # the member was null: no inner release
        if n >= len(want):
            e.oblig('released-once', False, I, 'a delete statement releases more than once', st)
            return None
        k, line = want[n]
        ks = [e.EFA[x] for x in (k if isinstance(k, tuple) else (k,))]
        e.oblig('kind', any(e.holds(st, ceq(a[2] - x)) for x in ks), I, 'the block is released as another kind than the delete statement says', st)
        if line is None:
            if self.item.depth == 0 and len(a) > 4:
                # nothing recorded: the location is the unset entry of depth zero
                pass
        else:
            f = self.text(a[3], st)
            ln = e.toS(st, a[4], 32)
            e.oblig('location', f == 'user.cpp' and e.holds(st, ceq(ln - line)), I,
                    'the release is not given the location of its delete statement', st)
            if self.item.threads and self.item.form == 'new' and not self.item.fn.startswith('wit_located'):
                e.oblig('locked', st.tags['lk'] > self.lk, I, 'the recorded location is used without holding the lock', st)
        return None

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if st.cons.bot or kind not in ('ret', 'throw'):
            return
        want = WANT[item.form][item.fn]
        if want and e.holds(st, cne(st.cons.norm(st.gh['arg']))) and item.fn != 'wit_nested':
            e.oblig('released', st.tags['n'] == len(want), self.W, 'a delete statement of a block does not release it', st)
        e.oblig('lock-balanced', st.tags['lk'] == self.lk, self.W, 'a delete statement leaves the lock at another depth', st)
        e.oblig('depth-balanced', e.holds(st, ceq(e.gval(st, 'TLS.DelPtr') - item.depth)), self.W,
                'a delete statement leaves the nesting depth changed', st)
        if not item.fn.startswith(('wit_plain', 'wit_located')):
            e.oblig('marker-reset', e.holds(st, ceq(e.gval(st, 'TLS.Magic'))), self.W, 'the marker of a delete statement stays set', st)


class RelMon(Monitor):
    """the lock is released with the value of the loop condition: what is given comes back"""
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        st.gh['arg'] = st.env[('a', 0)]
        self.W = Where(self.eng.m.functions[item.fn])

    def at_exit(self, st, v, kind, item):
        if kind == 'ret' and not st.cons.bot:
            self.eng.oblig('release-value', isinstance(v, Lin) and self.eng.holds(st, ceq(st.cons.norm(v) - st.cons.norm(st.gh['arg']))), self.W,
                           'releasing the lock does not give the value of the marker back', st)


def check(ctx):
    base = ['static', 'nothread', 'oldmacro'] if not ctx.thorough else ['static', 'nothread', 'oldmacro', 'shared', 'explicit', 'prefer', 'noglobal']
    items = []
    for c in base:
        form, text = ('old', OLD) if c == 'oldmacro' else ('new', SRC)
        if True:
            for std in ['gnu++98'] + (['gnu++11'] if ctx.thorough else []):
                key = '%s+delete-%s-%s' % (c, form, std)
                witness.module(key, 'del_%s_%s.cpp' % (form, std.replace('+', 'x')), text, c, std)
                for fn in WANT[form]:
                    for depth in (0, 1, 253) + ((2, 7, 128, 252, 254, 255) if ctx.thorough else ()):
                        items.append(DelItem(key, form, fn, depth, c != 'nothread'))
    ctx.items(run_items(items, Mon, Eng))
    ctx.items(run_items([Item(c, 'DUMA_rel_sem') for c in base if 'DUMA_rel_sem' in module(c).functions], RelMon, DumaEngine))
