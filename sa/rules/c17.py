"""Copy and string functions: bytes written, bytes read, overlap reports, result."""
from common import *
from rules.c05 import Where
from engine import ADDR_MAX

RULE = ('Each copy or string function is interpreted for arbitrary arguments; a string argument p is modelled by its length: the bytes '
        'before p+len are not 0, the one at p+len is. Obligations: every byte written is the next one the standard function '
        'writes and has the value it has there (the source byte at the same position, or 0 for terminator and padding); a source '
        'byte is read before anything is written over it and lies in the part the standard function reads; on return all bytes '
        'up to the end are written and the first argument is the result; a report is made only if the two regions overlap, and '
        'the raw copy function returns only if they do not (or the user has allowed it).')

# name -> (destination is appended to, source is a string, has size argument)
FNS = {'_duma_memcpy': (0, 0, 1), '_duma_memmove': (0, 0, 1), '_duma_strcpy': (0, 1, 0), '_duma_strncpy': (0, 1, 1),
       '_duma_strcat': (1, 1, 0), '_duma_strncat': (1, 1, 1), '_duma_strdup': (0, 1, 0)}


def key(fn):
    return fn if fn.startswith('_duma_') else '_duma_' + fn


class Eng(DumaEngine):
    no_inline = frozenset(('_duma_allocate', '_duma_deallocate', '_duma_init', 'duma_init'))

    def mkey(self, st):
        return (super().mkey(st), self.mon.order(st) if not st.cons.bot and self.mon.s is not None else 0)

    def assume(self, st, c, *a, **k):
        # a byte and its sign extension (byte - 256 w) are zero together
        if c[0] == 'c' and c[1] in ('eq', 'ne'):
            x = c[-1]
            if isinstance(x, Lin) and x.k == 0 and len(x.c) == 2:
                b = [y for y, w in x.c.items() if abs(w) == 1]
                w = [y for y, w in x.c.items() if abs(w) == 256]
                if b and w and bounds(V(b[0])) == (0, 255):
                    c = c[:-1] + (V(b[0]),)
        return super().assume(st, c, *a, **k)


class Mon(Monitor):
    def __init__(self, item):
        self.item = item
        self.fn = key(item.fn)
        self.s = None

    def order(self, st):
        """how the regions and the sizes lie to each other, as far as decided"""
        T = st.gh.get(('T',))
        k = [0, 0, 0]
        ns = [x for x in ((self.at(st, 'L') + 1 if self.at(st, 'L') is not None else None), self.at(st, 'n')) if x is not None]
        if T is not None:
            k[0] = 1 if self.ge(st, self.at(st, 's'), T) else 2 if any(self.ge(st, T, self.at(st, 's') + x) for x in ns) else 3 if self.ge(st, T, self.at(st, 's') + 1) else 0
            if k[0] == 1 and self.at(st, 'n') is not None:
                k[1] = 1 if self.ge(st, self.at(st, 's'), T + self.at(st, 'n')) else 2 if self.eq(st, self.at(st, 's'), T) else 0
        if len(ns) == 2:
            k[2] = 1 if self.ge(st, self.at(st, 'n'), ns[0]) else 2 if self.ge(st, self.at(st, 'L'), self.at(st, 'n')) else 0
        return tuple(k)

    def at(self, st, k):
        return st.gh.get(('x', k), self.__dict__[k])

    def eq(self, st, x, y):
        d = st.cons.norm(x - y)
        return (not d.c and d.k == 0) or (bool(d.c) and st.cons.eq0(d))

    def ge(self, st, x, y):
        return st.cons.ge0(st.cons.norm(x - y))

    def ob(self, rule, ok, inst, msg, st):
        if not self.eng.quiet:
            self.eng.oblig(rule, ok, inst, '%s %s' % (self.fn[6:], msg), st)

    def at_entry(self, st, item):
        e = self.eng
        self.where = Where(e.m.functions[item.fn])
        app, string, sized = FNS[self.fn]
        dup = self.fn == '_duma_strdup'
        self.d = None if dup else st.env[('a', 0)]
        self.s = st.env[('a', 0 if dup else 1)]
        self.n = e.toU(st, st.env[('a', 2)], 64) if sized else None
        self.L = V(newsym('len', 0, ADDR_MAX)) if string else None
        self.D = V(newsym('dlen', 0, ADDR_MAX)) if app else C(0)
        lim = 1 << 46
        for x in (self.s,) + (() if dup else (self.d,)):
            e.add(st, cge(x - 1))
        if string:
            if sized and self.fn != '_duma_strcpy':
                e.add(st, cge(C(ADDR_MAX) - self.s - 1))
            if not sized:
                e.add(st, cge(C(ADDR_MAX) - self.s - self.L - 1))
            e.add(st, cge(C(lim) - self.L))
            e.add(st, cge(C(ADDR_MAX) - self.s - self.L - 1))
        if not dup:
            e.add(st, cge(C(ADDR_MAX) - self.d - self.D - 1))
        if sized and self.fn != '_duma_strncat':
            e.add(st, cge(C(ADDR_MAX) - self.d - self.n))
            if not string:
                e.add(st, cge(C(ADDR_MAX) - self.s - self.n))
        if app:
            e.add(st, cge(C(lim) - self.D))
        for k, v in (('s', self.s), ('d', self.d), ('n', self.n), ('L', self.L), ('D', self.D)):
            if v is not None:
                st.gh[('x', k)] = st.cons.norm(v)
        if not dup:
            self.begin(st, self.d + self.D)
        e.jtemplates = [x for x in (self.L, self.n, self.d, self.s, self.D, *(self.s + x for x in (self.L, self.n) if x is not None)) if x is not None and x.c] + [C(0)]
        st.tags['rd'] = 0
        st.tags['blk'] = 0

    def begin(self, st, T):
        st.gh[('T',)] = st.gh[('hi',)] = st.cons.norm(T)
        if self.fn in ('_duma_memcpy', '_duma_memmove'):
            st.gh[('lo',)] = st.cons.norm(T + self.at(st, 'n'))
        elif self.n is None:
            st.gh[('lo',)] = st.cons.norm(T + self.at(st, 'L') + 1)

    # ---- cases: (number of source bytes copied, number of bytes written)
    def cases(self, st):
        e = self.eng
        fn, n, L = self.fn, self.at(st, 'n'), self.at(st, 'L')
        if fn in ('_duma_memcpy', '_duma_memmove'):
            return [(st, n, n)]
        if fn in ('_duma_strcpy', '_duma_strcat', '_duma_strdup'):
            return [(st, L, L + 1)]
        out = []
        e.quiet += 1
        for c, m in ((cge(n - L - 1), L), (cge(L - n), n)):
            for t in e.assume(st.copy(), c, None):
                if not t.cons.bot:
                    if fn == '_duma_strncat':
                        z = [(u, C(0)) for u in e.assume(t.copy(), ceq(n), None)] + [(u, m + 1) for u in e.assume(t.copy(), cge(n - 1), None)]
                        out += [(u, m, w) for u, w in z if not u.cons.bot]
                    else:
                        out.append((t, m, n))
        e.quiet -= 1
        return out

    def on_data_load(self, st, addr, size, sym, inst):
        addr = st.cons.norm(addr)
        s, L, n, d, D = self.at(st, 's'), self.at(st, 'L'), self.at(st, 'n'), self.at(st, 'd'), self.at(st, 'D')
        st.gh[('cl',)], st.gh[('cv',)] = addr, V(sym)
        # a byte of the destination string (found by its distance from the start of it)
        j = st.cons.norm(addr - s)
        q = None if d is None or FNS[self.fn][0] == 0 else st.cons.norm(addr - d)
        e = self.eng
        if q is not None and self.ge(st, q, C(0)) and self.ge(st, D, q) and not self.inside(st, j):
            if self.eq(st, st.gh.get(('hi',), d), st.gh.get(('T',), d)):
                self.pend(st, sym, q, D)
            return
        ok = size == 1 and all(self.ge(t, j, C(0)) and (
            self.ge(t, m, j) if L is not None and self.eq(t, m, L) else self.ge(t, m, j + 1))
            for t, m, w in self.cases(st))
        self.ob('reads-in-bounds', ok, inst, 'reads a byte the standard function does not read', st)
        hi, lo, T = st.gh.get(('hi',)), st.gh.get(('lo',)), st.gh.get(('T',))
        if T is not None:
            if hi is None:
                un = False
            else:
                un = self.eq(st, hi, T) or self.ge(st, addr, hi) or self.ge(st, T, addr + 1)
                if lo is not None:
                    end = st.cons.norm(T + (self.at(st, 'n') if self.at(st, 'n') is not None else self.at(st, 'L') + 1))
                    un = un and (self.eq(st, lo, end) or self.ge(st, lo, addr + 1) or self.ge(st, addr, end))
            self.ob('read-before-overwritten', un, inst, 'reads a byte of the source after it may have been overwritten', st)
        if L is not None and ok:
            self.pend(st, sym, j, L)

    def inside(self, st, j):
        return self.at(st, 'L') is not None and self.ge(st, j, C(0)) and self.ge(st, self.at(st, 'L'), j)

    def pend(self, st, sym, j, L):
        e = self.eng
        v = V(sym)
        e.add_pend(st, ('imp', ceq(j - L), [ceq(v)]))
        e.add_pend(st, ('imp', cge(L - j - 1), [cge(v - 1)]))
        e.add_pend(st, ('imp', ceq(v), [ceq(j - L)]))
        e.add_pend(st, ('imp', cge(v - 1), [cge(L - j - 1)]))
        e.add_pend(st, ('imp', cne(v), [cge(L - j - 1)]))
        e.fire(st)

    def put(self, st, addr, n, kind, src, inst):
        """bytes [addr, addr+n) become zero, or a copy of those at src, or something else (kind)"""
        hi, lo, T = st.gh.get(('hi',)), st.gh.get(('lo',)), st.gh.get(('T',))
        addr, n = st.cons.norm(addr), st.cons.norm(n)
        if T is None:
            self.ob('writes-next-byte', False, inst, 'writes before the destination is known', st)
            return
        up = hi is not None and self.eq(st, addr, hi)
        down = not up and lo is not None and self.eq(st, addr + n, lo)
        ok = up or down
        if ok:
            j = st.cons.norm(addr - T)
            for t, m, w in self.cases(st):
                good = self.ge(t, w, j + n)
                if kind == 'zero':
                    # padding or terminator, or the terminator of the source itself
                    good = good and (self.ge(t, j, m))
                elif kind == 'copy':
                    good = good and self.eq(t, src - self.at(st, 's'), j) and (self.ge(t, m, j + n) or (
                        self.at(st, 'L') is not None and self.eq(t, m, self.at(st, 'L')) and self.ge(t, m + 1, j + n)))
                else:
                    good = False
                ok = ok and good
        self.ob('writes-right-byte', ok, inst, 'writes a byte that is not the next one of the result, or of another value', st)
        if up:
            st.gh[('hi',)] = st.cons.norm(addr + n)
        elif down:
            st.gh[('lo',)] = addr

    def on_data_store(self, st, addr, size, val, inst):
        if st.cons.bot:
            return
        v = st.cons.norm(val) if isinstance(val, Lin) else None
        cv, cl = st.gh.get(('cv',)), st.gh.get(('cl',))
        if size == 1 and v is not None and FNS[self.fn][1] and self.eq(st, v, C(0)):
            self.put(st, addr, C(1), 'zero', None, inst)
        elif size == 1 and v is not None and cv is not None and self.same(st, v, cv):
            self.put(st, addr, C(1), 'copy', cl, inst)
        else:
            self.put(st, addr, C(size), 'other', None, inst)

    def same(self, st, v, cv):
        e = self.eng
        return self.eq(st, v, cv) or self.eq(st, e.toU(st, v, 8), e.toU(st, cv, 8))

    def on_copy(self, st, dst, src, n, inst):
        hi, T = st.gh.get(('hi',)), st.gh.get(('T',))
        ov = True
        if 'memmove' not in str(inst.x.get('callee') if inst is not None and inst.op == 'call' else ''):
            ov = self.ge(st, src, dst + n) or self.ge(st, dst, src + n)
        if T is not None and hi is not None:
            ov = ov and (self.eq(st, hi, T) or self.ge(st, src, hi) or self.ge(st, T, src + n))
        self.ob('read-before-overwritten', ov, inst, 'copies a block with a function that may destroy bytes before they are read', st)
        self.put(st, dst, n, 'copy', src, inst)

    def on_fill(self, st, dst, val, n, inst):
        self.put(st, dst, n, 'zero' if isinstance(val, Lin) and self.eq(st, self.eng.toU(st, val, 8), C(0)) else 'other', None, inst)

    def on_call(self, st, name, a, I):
        e = self.eng
        if name == 'strlen':
            if self.at(st, 'L') is not None and self.eq(st, a[0], self.at(st, 's')):
                self.ob('reads-in-bounds', all(self.eq(t, m, self.at(t, 'L')) for t, m, w in self.cases(st)), I,
                        'looks for the end of the source beyond the bytes the standard function reads', st)
                return [(st, self.at(st, 'L'), 'ret')]
            if self.at(st, 'd') is not None and FNS[self.fn][0] and self.eq(st, a[0], self.at(st, 'd')):
                return [(st, self.at(st, 'D'), 'ret')]
        if name in ('strnlen', 'memchr', '__rawmemchr', 'rawmemchr') and self.L is not None and self.eq(st, a[0], self.at(st, 's')):
            n = e.toU(st, a[-1], 64) if 'raw' not in name else C(ADDR_MAX)
            if name == 'strnlen' or self.eq(st, e.toU(st, a[1], 32), C(0)):
                L, out = self.at(st, 'L'), []
                for c, near in ((cge(n - L - 1), True), (cge(L - n), False)):
                    for t in e.assume(st.copy(), c, None):
                        if not t.cons.bot:
                            out.append((t, (L if near else n) if name == 'strnlen' else (self.at(t, 's') + L if near else C(0)), 'ret'))
                return out
        if name in ('DUMA_Abort', 'DUMA_Exit', '_duma_assert'):
            self.report(st, I)
        if name == '_duma_allocate' and self.fn == '_duma_strdup':
            k = alloc_params(e.m, name)[0]
            self.ob('size-requested', self.eq(st, e.toU(st, a[k - 4], 64), self.at(st, 'L') + 1), I, 'does not request room for string and terminator', st)
            out = [(st.copy(), C(0), 'ret')]
            b = newsym('blk', 0x10000, ADDR_MAX)
            for c in (cge(V(b) - self.at(st, 's') - self.at(st, 'L') - 1), cge(self.at(st, 's') - V(b) - self.at(st, 'L') - 1)):
                for t in e.assume(st.copy(), c, None):
                    if not t.cons.bot:
                        e.add(t, cge(C(ADDR_MAX) - V(b) - self.at(st, 'L') - 1))
                        t.tags['blk'] = 1
                        self.begin(t, V(b))
                        out.append((t, V(b), 'ret'))
            return out
        return None

    def report(self, st, I):
        if self.at(st, 'd') is None or st.cons.bot:
            return
        s, d, D = self.at(st, 's'), self.at(st, 'd'), self.at(st, 'D')
        ok = self.fn != '_duma_memmove'
        for t, m, w in self.cases(st):
            r = m + 1 if self.at(st, 'L') is not None and self.eq(t, m, self.at(st, 'L')) else m      # bytes read of the source
            ok = ok and self.ge(t, r, C(1)) and self.ge(t, w, C(1)) and self.ge(t, s + r, d + 1) and self.ge(t, d + D + w, s + 1)
        self.ob('report-only-on-overlap', ok, I, 'reports an overlap although source and destination need not overlap', st)

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if kind != 'ret' or st.cons.bot:
            return
        W = self.where
        if self.fn == '_duma_strdup':
            if not st.tags['blk']:
                self.ob('result', self.eq(st, v, C(0)), W, 'does not return null when no memory is to be had', st)
                return
            self.ob('result', self.eq(st, v, st.gh.get(('T',), C(-1))), W, 'does not return the new block', st)
        else:
            self.ob('result', v is not None and self.eq(st, v, self.at(st, 'd')), W, 'does not return its first argument', st)
        hi, lo, T = st.gh.get(('hi',)), st.gh.get(('lo',)), st.gh.get(('T',))
        for t, m, w in self.cases(st):
            full = hi is not None and self.ge(t, hi, T + w) or (lo is not None and (self.ge(t, T, lo) or (hi is not None and self.ge(t, hi, lo))))
            # a region copied onto itself
            full = full or (self.eq(t, self.at(t, 's'), T) and (self.fn in ('_duma_memcpy', '_duma_memmove') or self.n is None))
            self.ob('all-bytes-written', full, W, 'returns before all bytes of the result are written', t)
        if self.at(st, 'L') is not None and self.d is not None:
            # the appended part starts inside what is read of the source
            e.quiet += 1
            bad = []
            for t, m, w in self.cases(st):
                s, T = self.at(t, 's'), t.gh[('T',)]
                r = m + 1 if self.eq(t, m, self.at(t, 'L')) else m
                cur = [t.copy()]
                for c in (cge(w - 1), cge(T - s - 1), cge(s + r - T - 1)):
                    cur = [u for x in cur for u in e.assume(x, c, None) if not u.cons.bot]
                bad += cur
            e.quiet -= 1
            self.ob('overlap-reported', not bad, W, 'writes over the source without a report', st)
        if self.fn == '_duma_memcpy':
            s, d, n = self.at(st, 's'), self.at(st, 'd'), self.at(st, 'n')
            mo = e.gval(st, 'MEMCPY_OVERLAP')
            for a, b, free in ((s, d, False), (d, s, True)):
                e.quiet += 1
                bad = [st.copy()]
                for c in [cge(b - a - 1), cge(a + n - b - 1)] + ([ceq(mo)] if free else []):
                    bad = [u for t in bad for u in e.assume(t, c, None) if not u.cons.bot]
                e.quiet -= 1
                self.ob('overlap-reported', not bad, W, 'copies overlapping regions without a report', st)


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = []
    for c in configs:
        m = module(c)
        for fn in FNS:
            F = m.functions.get(fn)
            if F is None or F.decl or not F.blocks:
                if fn == '_duma_strdup':
                    continue
                raise Missing('function %s' % fn)
            items.append(Item(c, fn))
            F = m.functions.get(fn[6:])
            if F is not None and not F.decl and F.blocks:
                items.append(Item(c, fn[6:]))
    ctx.items(run_items(items, Mon, Eng))
    ctx.assumptions += ['arguments are valid for the standard function (strings terminated, regions inside the address space)',
                        'a copy of a region onto itself is not counted as overlap']
