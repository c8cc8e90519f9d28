"""Interface layer: every public entry point is interpreted with the central functions (_duma_allocate, _duma_deallocate,
the checked memory/string functions) as events; what the entry point hands to them and what it makes of their result is
compared with the contract of the interface."""
from common import *

# name -> (family tag, size expression, alignment, fill)   sizes/alignments by parameter position
CFAM = {
    'malloc':         dict(tag='EFA_MALLOC', size=('arg', 0), align=0, fill='cfg', nargs=1),
    'calloc':         dict(tag='EFA_CALLOC', size=('prod', 0, 1), align=0, fill=0, nargs=2),
    'memalign':       dict(tag='EFA_MEMALIGN', size=('arg', 1), align=('arg', 0), fill='cfg', nargs=2),
    'posix_memalign': dict(tag='EFA_POSIX_MEMALIGN', size=('arg', 2), align=('arg', 1), fill='cfg', nargs=3, out=0),
    'valloc':         dict(tag='EFA_VALLOC', size=('arg', 0), align=PAGE, fill='cfg', nargs=1),
    'strdup':         dict(tag='EFA_STRDUP', size=None, align=0, fill=None, nargs=1),
}
CFREE = {'free': 'EFA_FREE'}
STDFWD = ('memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'realloc', 'malloc_usable_size')
NEWS = {'_Znwm': ('EFA_NEW_ELEM', True), '_Znam': ('EFA_NEW_ARRAY', True)}
DELS = {'_ZdlPv': 'EFA_DEL_ELEM', '_ZdaPv': 'EFA_DEL_ARRAY'}
NT = 'RKSt9nothrow_t'
FL = 'PKci'
FAMILY = {'EFA_INT_ALLOC': 'INTERNAL', 'EFA_INT_DEALLOC': 'INTERNAL'}


class Spec:
    pass


def spec(name, nparams):
    """contract of a public allocation or release function, None for other functions"""
    s = Spec()
    s.name, s.file, s.line, s.out, s.fill, s.align = name, None, None, None, None, 0
    base = name[6:] if name.startswith('_duma_') else name
    s.std = base == name
    s.cpp = s.throwing = False
    if base in CFAM:
        d = CFAM[base]
        s.kind, s.tag, s.size, s.align, s.fill = 'alloc', d['tag'], d['size'], d['align'], d['fill']
        s.out = d.get('out')
        n = d['nargs']
    elif base in CFREE:
        s.kind, s.tag = 'free', CFREE[base]
        n = 1
    elif name[:5] in NEWS:
        s.kind, s.cpp = 'alloc', True
        s.tag, _ = NEWS[name[:5]]
        rest = name[5:]
        s.throwing = not rest.startswith(NT)
        n = 1 if s.throwing else 2
        rest = rest[len(NT):] if not s.throwing else rest
        if rest not in ('', FL):
            return None
        s.size, s.fill = ('arg', 0), 'cfg'
    elif name[:6] in DELS:
        s.kind, s.cpp, s.tag = 'free', True, DELS[name[:6]]
        rest = name[6:]
        n = 2 if rest.startswith(NT) else 1
        rest = rest[len(NT):] if rest.startswith(NT) else rest
        if rest not in ('', FL):
            return None
    else:
        return None
    s.nargs = n
    if nparams >= n + 2:
        s.file, s.line = n, n + 1
    return s


class WrapEng(DumaEngine):
    EVENT = ('_duma_allocate', '_duma_deallocate')
    no_inline = frozenset(INITS) | frozenset(EVENT)

    def forget(self, st):
        """the central functions may have changed the table and the statistics"""
        if st.tags['lk'] > 0:
            d = st.tags['lk']
            st.tags['lk'] = 0
            self.acquire(st, None)
            st.tags['lk'] = d

    def external(self, st, n, a, I):
        if n == '_duma_allocate':
            self.forget(st)
            s2 = st.copy()
            p = newsym('blk', 0x10000, ADDR_MAX)
            SYMS[p].origin = ('block', I.loc())
            st.tags['nok'] = min(st.tags.get('nok', 0) + 1, 3)
            st.tags['last'] = 'ok'
            st.gh[('blk',)] = V(p)
            s2.tags['last'] = 'null'
            return [(st, V(p), 'ret'), (s2, C(0), 'ret')]
        if n == '_duma_deallocate':
            self.forget(st)
            return [(st, None, 'ret')]
        if 'new_handler' in n:
            cur = st.gh.get(('hnd',))
            if cur is None:
                cur = st.gh[('hnd',)] = V(newsym('handler', 0, ADDR_MAX))
                st.gh[('hnd0',)] = cur
            if 'set_' in n:
                st.gh[('hnd',)] = a[0]
            return [(st, cur, 'ret')]
        if n == '<indirect>':
            st.tags['called'] = 1
            r = super().external(st, n, a, I)
            h = ('hnd',)
            for s, _, k in r:
                if h in s.gh:
                    s.gh[h] = s.gh[('hnd0',)] = V(newsym('handler', 0, ADDR_MAX))
            return r
        return super().external(st, n, a, I)

    def copy_mem(self, st, dst, src, n, inst):
        super().copy_mem(st, dst, src, n, inst)


class FwdEng(WrapEng):
    """standard names of functions whose checked implementation is analysed by other rules"""
    no_inline = WrapEng.no_inline | frozenset('_duma_' + n for n in STDFWD)

    def external(self, st, n, a, I):
        if n.startswith('_duma_') and n[6:] in STDFWD:
            r = None
            if not I.void:
                b = I.bits or 64
                r = V(newsym('fwd', 0, ADDR_MAX if I.isptr else (1 << b) - 1))
                st.gh[('fwd',)] = r
            st.tags['nfwd'] = min(st.tags.get('nfwd', 0) + 1, 3)
            return [(st, r, 'ret')]
        return super().external(st, n, a, I)


class WrapMon(Monitor):
    def __init__(self, item, groups):
        self.item, self.groups = item, groups

    def ob(self, grp, rule, ok, inst, msg, st=None):
        if grp in self.groups:
            if callable(ok):
                ok = ok()
            self.eng.oblig(rule, ok, inst, msg, st)

    # ------------------------------------------------------------------
    def at_entry(self, st, item):
        e = self.eng
        F = e.m.functions[item.fn]
        self.F = F
        self.args = [st.env[('a', i)] for i in range(len(F.params))]
        self.spec = spec(item.fn, len(F.params))
        self.where = Where(F)
        st.tags['nok'] = 0
        st.tags['last'] = ''
        for i, v in enumerate(self.args):
            st.gh[('arg', i)] = v
        # block sizes are at most what fits an address space for strings
        self.kp = {f: alloc_params(e.m, f)[0] for f in WrapEng.EVENT if f in e.m.functions}
        if any(k is None for k in self.kp.values()) or len(self.kp) < 2:
            raise Missing('allocator family parameter of the central functions')

    def eq(self, st, x, y):
        d = st.cons.norm(x - y)
        return (not d.c and d.k == 0) or st.cons.eq0(d)

    def on_call(self, st, name, a, I):
        s = self.spec
        if name == '__cxa_begin_catch':
            st.tags['caught'] = 1
        if name == '_duma_allocate':
            st.tags.pop('caught', None)
            self.alloc(st, a, I)
        elif name == '_duma_deallocate':
            self.dealloc(st, a, I)
        elif s is None and self.item.fn in STDFWD and name == '_duma_' + self.item.fn:
            n = len([1 for i in range(len(self.args))])
            for i in range(n):
                self.ob('std', 'argument-forwarded', lambda: i < len(a) and self.eq(st, a[i], self.args[i]), I,
                        '%s does not hand its argument %d on to %s in its place' % (self.item.fn, i + 1, name), st)
        elif name == '__cxa_throw' and s is not None and s.cpp and s.kind == 'alloc':
            ti = self.eng.gaddr('_ZTISt9bad_alloc') if '_ZTISt9bad_alloc' in self.eng.m.globals else None
            self.ob('fail', 'throws-bad-alloc', ti is not None and self.eq(st, a[1], ti), I,
                    '%s throws something other than std::bad_alloc' % s.name, st)
            self.ob('fail', 'throw-after-failure', st.tags['last'] == 'null', I,
                    '%s throws although the last allocation attempt did not fail' % s.name, st)
            h = st.gh.get(('hnd0',))
            self.ob('fail', 'handler-tried-first', h is not None and self.eq(st, h, C(0)), I,
                    '%s throws bad_alloc although a new-handler is installed (or without looking)' % s.name, st)
        elif name == '<indirect>' and s is not None and s.cpp and ('hnd',) in st.gh:
            self.ob('fail', 'handler-restored', self.eq(st, st.gh[('hnd',)], st.gh[('hnd0',)]), I,
                    '%s calls the new-handler while a different handler is installed' % s.name, st)
        return None

    def tagname(self, v):
        for n, x in self.eng.EFA.items():
            if not v.c and v.k == x:
                return n
        return str(v)

    def pos(self, f):
        return self.kp[f]

    def location(self, st, fa, la, I, what):
        s = self.spec
        if s.file is not None:
            self.ob('location', 'location-forwarded', lambda: self.eq(st, fa, self.args[s.file]) and
                    self.eq(st, la, self.args[s.line]), I,
                    '%s does not hand the caller\'s file and line on to %s' % (s.name, what), st)
        elif s.kind == 'alloc' or not s.cpp:
            self.ob('location', 'no-location-invented', lambda: self.eq(st, la, C(0)) and not self.eq(st, fa, C(0)), I,
                    '%s names a source line although its caller gave none' % s.name, st)

    def alloc(self, st, a, I):
        e, s = self.eng, self.spec
        if s is None:
            return
        k = self.pos('_duma_allocate')
        al, us, pb, fb, tag, fail = a[k - 5], a[k - 4], a[k - 3], a[k - 2], st.cons.norm(a[k]), st.cons.norm(a[k + 1])
        us = e.toU(st, us, 64)
        al = e.toU(st, al, 64)
        self.ob('family', 'family-tag', not tag.c and tag.k == e.EFA.get(s.tag), I,
                '%s allocates under the family %s instead of %s' % (s.name, self.tagname(tag), s.tag), st)
        self.ob('once', 'allocates-once', st.tags['nok'] == 0, I, '%s allocates a second block' % s.name, st)
        self.ob('kind', 'releases-nothing', s.kind == 'alloc', I, '%s allocates memory' % s.name, st)
        if s.kind != 'alloc':
            return
        if s.size is not None and s.size[0] == 'arg':
            w = e.toU(st, self.args[s.size[1]], 64)
            self.ob('size', 'size-requested', lambda: self.eq(st, us, w), I,
                    '%s does not request the number of bytes it was asked for' % s.name, st)
        elif s.size is not None:
            x, y = (e.toU(st, self.args[i], 64) for i in s.size[1:])

            def ok():
                if self.eq(st, us, C(M64 - 1)):
                    return True
                p = e.mul(st, x, y, 64)
                if e.holds(st, cge(us - p)) and self.nowrap(st, x, y):
                    return True
                return self.eq(st, x, C(0)) or self.eq(st, y, C(0))
            self.ob('size', 'product-requested', ok, I,
                    '%s may request fewer bytes than the number of elements times their size' % s.name, st)
        if s.name.endswith('strdup'):
            pass
        wa = s.align
        if isinstance(wa, tuple):
            wa = e.toU(st, self.args[wa[1]], 64)
        else:
            wa = C(wa)
        self.ob('align', 'alignment-requested', lambda: self.eq(st, al, wa), I,
                '%s does not request the alignment it was asked for' % s.name, st)
        self.ob('below', 'protection-side', lambda: self.eq(st, pb, self.tls(st, 'PROTECT_BELOW')), I,
                '%s does not use the configured protection side' % s.name, st)
        if s.fill == 'cfg':
            self.ob('fill', 'fill-configured', lambda: self.eq(st, fb, self.tls(st, 'FILL')), I,
                    '%s does not use the configured fill value' % s.name, st)
        elif s.fill is not None:
            self.ob('fill', 'fill-zero', lambda: self.eq(st, fb, C(s.fill)), I,
                    '%s does not ask for zeroed memory' % s.name, st)
        fe = e.m.di.enum('_DUMA_FailReturn') or {}
        want = [fe.get('DUMA_FAIL_NULL')] if s.cpp else [fe.get('DUMA_FAIL_ENV')]
        self.ob('fail', 'failure-mode', not fail.c and fail.k in want, I,
                '%s selects a failure mode other than the one of its interface' % s.name, st)
        if len(a) > k + 3:
            self.location(st, a[k + 2], a[k + 3], I, '_duma_allocate')

    def nowrap(self, st, x, y):
        """the product x*y is known to be representable"""
        e = self.eng
        return e.holds(st, cge(C(M64 - 1) - e.mul(st.copy(), x, y, 200)))

    def tls(self, st, n):
        e = self.eng
        for k in (n, 'TLS.' + n):
            if k in e.g2:
                return e.gval(st, k)
        raise Missing('setting %s' % n)

    def dealloc(self, st, a, I):
        e, s = self.eng, self.spec
        if s is None:
            return
        k = self.pos('_duma_deallocate')
        adr, tag = a[k - 2], st.cons.norm(a[k])
        self.ob('family', 'family-tag', not tag.c and tag.k == e.EFA.get(s.tag), I,
                '%s releases under the family %s instead of %s' % (s.name, self.tagname(tag), s.tag), st)
        self.ob('kind', 'allocates-nothing', s.kind == 'free', I, '%s releases memory' % s.name, st)
        if s.kind != 'free':
            return
        self.ob('once', 'releases-once', st.tags.get('nfree', 0) == 0, I, '%s releases twice' % s.name, st)
        st.tags['nfree'] = min(st.tags.get('nfree', 0) + 1, 3)
        self.ob('size', 'address-forwarded', lambda: self.eq(st, adr, self.args[0]), I,
                '%s does not release the address it was given' % s.name, st)
        if len(a) > k + 2:
            self.location(st, a[k + 1], a[k + 2], I, '_duma_deallocate')

    # ------------------------------------------------------------------
    def at_exit(self, st, v, kind, item):
        e, s, W = self.eng, self.spec, self.where
        if item.fn in STDFWD and s is None:
            self.ob('std', 'forwarded-once', kind != 'ret' or st.tags.get('nfwd') == 1, W,
                    '%s returns without having called the checked function exactly once' % item.fn, st)
            if ('fwd',) in st.gh and v is not None:
                self.ob('std', 'result-forwarded', lambda: self.eq(st, v, st.gh[('fwd',)]), W,
                        '%s does not return the result of the checked function' % item.fn, st)
            return
        if s is None:
            return
        if s.kind == 'free':
            self.ob('once', 'release-reaches-core', st.tags.get('nfree', 0) == 1, W,
                    '%s returns without handing the address to the release function' % s.name, st)
            self.ob('fail', 'no-exception', kind == 'ret', W, '%s leaves by an exception' % s.name, st)
            return
        if kind == 'throw':
            self.ob('fail', 'no-exception', s.cpp and s.throwing, W, '%s leaves by an exception' % s.name, st)
            self.ob('once', 'nothing-lost', st.tags['nok'] == 0, W,
                    '%s leaves by an exception although the block was allocated' % s.name, st)
            return
        if s.cpp and ('hnd',) in st.gh:
            self.ob('fail', 'handler-restored', self.eq(st, st.gh[('hnd',)], st.gh[('hnd0',)]), W,
                    '%s returns with another new-handler installed' % s.name, st)
        if s.cpp and s.kind == 'alloc' and st.tags['last'] == 'null' and st.tags['nok'] == 0:
            h = st.gh.get(('hnd0',))
            self.ob('fail', 'handler-tried-first', bool(st.tags.get('caught')) or (h is not None and self.eq(st, h, C(0))), W,
                    '%s gives up although a new-handler is installed that has not failed (or without looking)' % s.name, st)
        ok = st.tags['nok']
        if s.out is not None:
            out = st.gh.get(('stored',))
            r = st.cons.norm(v)
            succ = self.eq(st, v, C(0))
            if ok == 0:
                einval = self.eq(st, v, C(22))
                self.ob('fail', 'failure-code', (st.tags['last'] == 'null' and self.eq(st, v, C(12))) or
                        (st.tags['last'] == '' and einval), W,
                        '%s reports a failed allocation with a code other than ENOMEM (no memory) or EINVAL (alignment)'
                        % s.name, st)
                if st.tags['last'] == '':
                    A = e.toU(st, self.args[s.align[1]], 64)
                    self.ob('align', 'refused-only-if-invalid', not (
                        e.is_pow2(st, A) and e.holds(st, cge(A - 8))), W,
                        '%s refuses an alignment that is a power of two multiple of the pointer size' % s.name, st)
            else:
                self.ob('fail', 'success-code', succ, W, '%s returns non-zero on success' % s.name, st)
                self.ob('result', 'result-stored', out is not None and self.eq(st, out, st.gh[('blk',)]), W,
                        '%s does not store the address of the block through its result pointer' % s.name, st)
            return
        if ok == 0:
            self.ob('fail', 'null-on-failure', (not s.throwing) and self.eq(st, v, C(0)) and st.tags['last'] == 'null', W,
                    '%s returns %s' % (s.name, 'although nothing was allocated' if s.throwing or st.tags['last'] == 'null'
                                       else 'without having tried to allocate'), st)
        else:
            self.ob('result', 'result-returned', lambda: self.eq(st, v, st.gh[('blk',)]), W,
                    '%s does not return the address of the block it allocated' % s.name, st)

    def on_data_store(self, st, addr, size, val, inst):
        s = self.spec
        if s is not None and s.out is not None:
            if self.eq(st, addr, self.args[s.out]):
                if val is not None and not isinstance(val, tuple):
                    st.gh[('stored',)] = val


class Where:
    def __init__(self, F):
        class B: pass
        self.block = B()
        self.block.fn = F

    def loc(self):
        d = self.block.fn.di or {}
        return '%s:%s' % (d.get('file'), d.get('line'))


def wrappers(mod):
    out = []
    for n in public(mod):
        F = mod.functions[n]
        if spec(n, len(F.params)) is not None:
            out.append(n)
    return out


def forwarders(mod):
    return [n for n in public(mod) if n in STDFWD]


def run(ctx, groups, configs, only=None, fwd=False):
    """run the interface rules of the given groups over all wrappers of the configurations"""
    items, fitems = [], []
    for c in configs:
        m = module(c)
        for f in wrappers(m):
            if only is None or only(f):
                items.append(Item(c, f))
        if fwd:
            for f in forwarders(m):
                fitems.append(Item(c, f))
    ctx.items(run_items(items, lambda it: WrapMon(it, groups), WrapEng))
    if fitems:
        ctx.items(run_items(fitems, lambda it: WrapMon(it, groups), FwdEng))
    ctx.assumptions += ['entry points run after initialisation (C23)',
                        'the central functions keep their own contract (C01-C04, C07, C09, C15, C22)']
