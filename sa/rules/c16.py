"""Resizing: data movement and the order of allocation, copy and release."""
from common import *
import wrap
from wrap import Where

RULE = ('_duma_realloc interpreted with the central allocation and release functions as events: on every path the events, the '
        'bytes copied and the value returned are those of the contract for the argument class (null / common zero block, new '
        'size zero, live block with success, live block with failure).')


class Eng(wrap.WrapEng):
    no_inline = wrap.WrapEng.no_inline


class Mon(Monitor):
    def __init__(self, item, groups):
        self.item, self.groups = item, groups

    def ob(self, g, rule, ok, inst, msg, st=None):
        if (g in self.groups if isinstance(g, str) else self.groups & set(g)):
            if callable(ok):
                ok = ok()
            self.eng.oblig(rule, ok, inst, msg, st)

    def at_entry(self, st, item):
        e = self.eng
        F = e.m.functions[item.fn]
        self.where = Where(F)
        self.old, self.new = st.env[('a', 0)], st.env[('a', 1)]
        self.file = st.env.get(('a', 2))
        self.line = st.env.get(('a', 3))
        st.tags.update(nok=0, last='', nfree=0, cp=0)
        for n, v in (('old', self.old), ('new', self.new)):
            st.gh[(n,)] = v

    def eq(self, st, x, y):
        d = st.cons.norm(x - y)
        return (not d.c and d.k == 0) or (bool(d.c) and st.cons.eq0(d))

    def on_call(self, st, name, a, I):
        e = self.eng
        if name == '_duma_allocate':
            r = self.oldrec(st)
            if r is not None:       # what is known of the old block stays true: the allocator changes no live record
                st.gh[('os',)] = st.cons.norm(r)
                st.tags['lv'] = int(self.live(st))
            k = alloc_params(e.m, name)[0]
            us, al = e.toU(st, a[k - 4], 64), e.toU(st, a[k - 5], 64)
            tag, fail = st.cons.norm(a[k]), st.cons.norm(a[k + 1])
            self.ob('family', 'family-tag', self.eq(st, tag, C(e.EFA['EFA_REALLOC'])), I,
                    'realloc allocates under another family', st)
            self.ob('size', 'size-requested', self.eq(st, us, self.new), I,
                    'realloc does not request the new size', st)
            self.ob('align', 'alignment-requested', self.eq(st, al, C(0)), I, 'realloc requests an alignment of its own', st)
            self.ob('resize', 'allocates-once', st.tags['nok'] == 0 and st.tags['last'] == '', I,
                    'realloc allocates more than once', st)
            self.ob('resize', 'allocate-before-release', st.tags['nfree'] == 0, I,
                    'realloc releases the old block before it has the new one', st)
            fe = e.m.di.enum('_DUMA_FailReturn') or {}
            self.ob('fail', 'failure-mode', self.eq(st, fail, C(fe.get('DUMA_FAIL_ENV', -1))), I,
                    'realloc selects a failure mode other than the one of its interface', st)
            self.ob('below', 'protection-side', lambda: self.eq(st, a[k - 3], wrap.WrapMon.tls(self, st, 'PROTECT_BELOW')),
                    I, 'realloc does not use the configured protection side', st)
            st.tags['fillneg'] = 1 if self.eq(st, a[k - 2], C(-1)) else 0
            isold = st.tags.get('none')
            if isold:
                self.ob('fill', 'fill-configured', lambda: self.eq(st, a[k - 2], wrap.WrapMon.tls(self, st, 'FILL')), I,
                        'resizing nothing does not fill the new block with the configured value', st)
            if len(a) > k + 3 and self.file is not None:
                self.ob('location', 'location-forwarded', self.eq(st, a[k + 2], self.file) and self.eq(st, a[k + 3], self.line),
                        I, 'realloc does not hand the caller\'s file and line on', st)
        elif name == '_duma_deallocate':
            k = alloc_params(e.m, name)[0]
            tag = st.cons.norm(a[k])
            self.ob('family', 'family-tag', self.eq(st, tag, C(e.EFA['EFA_REALLOC'])), I,
                    'realloc releases under another family', st)
            self.ob('resize', 'releases-old-once', st.tags['nfree'] == 0 and self.eq(st, a[k - 2], self.old), I,
                    'realloc releases something other than the old block, or releases it twice', st)
            if st.tags['nok']:
                self.ob('resize', 'copy-before-release', st.tags['cp'] == 1, I,
                        'the old block is released before its contents were copied completely', st)
            else:
                self.ob('resize', 'release-only-when-shrunk-to-nothing', st.tags['last'] == '' and
                        e.holds(st, ceq(self.new)), I, 'the old block is released although nothing replaces it', st)
            if len(a) > k + 2 and self.file is not None:
                self.ob('location', 'location-forwarded', self.eq(st, a[k + 1], self.file) and self.eq(st, a[k + 2], self.line),
                        I, 'realloc does not hand the caller\'s file and line on', st)
            st.tags['nfree'] = min(st.tags['nfree'] + 1, 3)
        return None

    def isnull(self, st, v):
        e = self.eng
        g, o, z, ty = e.gf('null_addr')
        return self.eq(st, v, e.gload(st, g, o, z, True))

    def oldsize(self, st):
        r = self.oldrec(st)
        return st.gh.get(('os',)) if r is None else r

    def oldrec(self, st):
        """userSize of the record whose user address is the old block"""
        e = self.eng
        ua, us = e.slot_fields['userAddress'], e.slot_fields['userSize']
        for h, sl in st.slots.items():
            c = sl.cells.get(ua[0])
            if c and self.eq(st, c[1], self.old):
                return sl.cells[us[0]][1]
        return None

    def minimum(self, st, n, x, y):
        e = self.eng
        if not (e.holds(st, cge(x - n)) and e.holds(st, cge(y - n))):
            return False
        if self.eq(st, n, x) or self.eq(st, n, y):
            return True
        # n is one of the two: neither may exceed it at the same time
        s = st.copy()
        r = [t for t in e.assume(s, cge(x - n - 1), None) for t in e.assume(t, cge(y - n - 1), None)]
        return r == []

    def on_copy(self, st, dst, src, n, inst):
        e = self.eng
        blk = st.gh.get(('blk',))
        os_ = self.oldsize(st)
        self.ob('resize', 'copies-old-to-new', blk is not None and self.eq(st, dst, blk) and self.eq(st, src, self.old), inst,
                'copies something other than the start of the old block to the start of the new one', st)
        self.ob(('resize', 'live'), 'record-of-old-block', os_ is not None, inst,
                'copies before the size of the old block was taken from its record', st)
        if os_ is not None:
            self.ob('resize', 'copy-length', self.minimum(st, n, os_, self.new), inst,
                    'copies a number of bytes other than the smaller of old and new size', st)
            self.ob(('resize', 'live'), 'copy-live-only', self.live(st), inst,
                    'copies from a block that may have been freed already', st)
            st.gh[('ncopy',)] = n
        st.tags['cp'] = min(st.tags['cp'] + 1, 3)

    def live(self, st):
        e = self.eng
        if st.tags.get('lv'):
            return True
        ua, so = e.slot_fields['userAddress'], e.slot_fields['state']
        for h, sl in st.slots.items():
            c = sl.cells.get(ua[0])
            if c and self.eq(st, c[1], self.old):
                s = sl.cells[so[0]][1]
                return all(e.holds(st, cne(s - e.E[n])) for n in ('DUMAST_ALL_PROTECTED', 'DUMAST_BEGIN_PROTECTED'))
        return False

    def on_fill(self, st, dst, val, n, inst):
        e = self.eng
        blk = st.gh.get(('blk',))
        ok = False
        if blk is not None:
            off = st.cons.norm(dst - blk)
            keep = st.gh.get(('ncopy',))
            ok = e.holds(st, cge(off)) and e.holds(st, cge(self.new - off - n))
            if ok and keep is not None:
                ok = e.holds(st, cge(off - keep))
        self.ob('resize', 'fill-inside-new', ok, inst, 'overwrites bytes outside the new part of the new block', st)

    def on_data_store(self, st, addr, size, val, inst):
        self.ob('resize', 'no-other-write', False, inst, 'writes to memory of the program outside a block copy', st)

    def at_exit(self, st, v, kind, item):
        e, W = self.eng, self.where
        t = st.tags
        isnull = st.tags.get('none')
        if t['nok'] == 0:
            self.ob('resize', 'null-when-nothing-allocated', self.eq(st, v, C(0)), W,
                    'realloc returns a non-null address without a new block', st)
            if t['last'] == 'null':
                self.ob('live', 'invalid-resize-does-not-return', bool(isnull or t.get('lv')), W,
                        'realloc returns although the address was not found to be that of a live block', st)
                self.ob('resize', 'failed-keeps-old', t['nfree'] == 0 and t['cp'] == 0, W,
                        'a failed realloc touches the old block', st)
            elif not isnull:
                self.ob('resize', 'shrink-to-zero-releases', t['nfree'] == 1 and e.holds(st, ceq(self.new)), W,
                        'realloc returns without a new block and without releasing the old one', st)
            else:
                self.ob('resize', 'null-allocates', False, W, 'resizing a null pointer does not allocate', st)
            return
        self.ob('resize', 'returns-new', lambda: self.eq(st, v, st.gh[('blk',)]), W,
                'realloc does not return the new block', st)
        if t['nfree'] == 0:
            ok = isnull
            self.ob('resize', 'old-released', ok, W, 'realloc returns a new block without releasing the old one', st)

    def on_assume(self, st, cond, inst):
        """remember that nothing is being resized (null pointer or the common block of size zero)"""
        if 'none' not in st.tags and ('old',) in st.gh:
            if self.eq(st, self.old, C(0)) or self.isnull(st, self.old):
                st.tags['none'] = 1


def run(ctx, groups, configs):
    items = []
    for c in configs:
        m = module(c)
        if '_duma_realloc' not in m.functions:
            raise Missing('function _duma_realloc')
        items.append(Item(c, '_duma_realloc'))
    ctx.items(run_items(items, lambda it: Mon(it, groups), Eng))


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    run(ctx, {'resize', 'size'}, configs)
    wrap.run(ctx, {'std'}, configs, only=lambda f: False, fwd=True)
    ctx.assumptions += ['the central functions keep their own contract (C01-C04, C07, C09, C15, C22)',
                        'memcpy of the C library copies exactly']
