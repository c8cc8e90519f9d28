"""Environment settings: name, effect, range, default."""
from lint import *
from wrap import Where
from engine import V, C, newsym, SYMS, Lin

RULE = ('The innermost function that reads all DUMA_* variables is interpreted, starting from the static initial values, once per documented '
        'variable with that variable set to an arbitrary string (value: an arbitrary result of atoi/atol/strtol) and all others unset, and '
        'once with none set: at every return the setting of the variable has the documented function of the value (outside the '
        'documented range: the default), and every other setting its documented default. Each documented variable is read, and '
        'each setting is used somewhere else. The replacement of getenv returns only what follows "NAME=" with the whole name equal.')

# variable: (setting, kind of effect, default)
BOOL, POS, LONG = 'bool', 'pos', 'long'
SPEC = {
    'DUMA_ALIGNMENT': ('TLS.ALIGNMENT', 'align', None),
    'DUMA_PROTECT_BELOW': ('TLS.PROTECT_BELOW', BOOL, 0),
    'DUMA_REPORT_ALL_LEAKS': ('REPORT_ALL_LEAKS', BOOL, 0),
    'DUMA_PROTECT_FREE': ('PROTECT_FREE', LONG, -1),
    'DUMA_MAX_ALLOC': ('MAX_ALLOC', LONG, -1),
    'DUMA_MALLOC_0_STRATEGY': ('MALLOC_0_STRATEGY', (0, 3), 3),
    'DUMA_NEW_0_STRATEGY': ('NEW_0_STRATEGY', (2, 3), 3),
    'DUMA_MALLOC_FAILEXIT': ('MALLOC_FAILEXIT', BOOL, 1),
    'DUMA_FREE_ACCESS': ('FREE_ACCESS', BOOL, 0),
    'DUMA_FILL': ('TLS.FILL', 'fill', 255),
    'DUMA_SLACKFILL': ('SLACKFILL', 'byte', 0xAA),
    'DUMA_SHOW_ALLOC': ('SHOW_ALLOC', BOOL, 0),
    'DUMA_SUPPRESS_ATEXIT': ('SUPPRESS_ATEXIT', BOOL, 0),
    'DUMA_MEMCPY_OVERLAP': ('MEMCPY_OVERLAP', BOOL, 0),
    'DUMA_OUTPUT_STDOUT': ('DUMA_OUTPUT_STDOUT', BOOL, 0),
    'DUMA_OUTPUT_STDERR': ('DUMA_OUTPUT_STDERR', BOOL, 1),
    'DUMA_OUTPUT_FILE': ('DUMA_OUTPUT_FILE', 'text', 0),
    'DUMA_CHECK_FREQ': ('CHECK_FREQ', POS, 0),
    'DUMA_DISABLE_BANNER': ('DISABLE_BANNER', BOOL, 0),
    'DUMA_SKIPCOUNT_INIT': ('SKIPCOUNT_INIT', None, 0),
}
# effect only on Windows: have to be read, not checked further
OTHER = ('DUMA_OUTPUT_DEBUG', 'DUMA_OUTPUT_STACKTRACE', 'DUMA_OUTPUT_STACKTRACE_MAPFILE')
# documented, never read (known_findings.txt)
UNREAD = ('DUMA_ALLOW_MALLOC_0',)


def const_name(mod, g, off=0):
    """the constant string at g+off, if it looks like the name of a variable"""
    G = mod.globals.get(g)
    s = G.string if G is not None and not off else None
    if s is None:
        return None
    s = s.decode('latin1') if isinstance(s, bytes) else s
    s = s.split('\0')[0]
    if not s.startswith('DUMA_') or not s.replace('_', '').isalnum() or s.upper() != s:
        return None
    return s


def base_getters(mod):
    """getenv, and functions of the library in its place: they walk the environment"""
    out = {'getenv', 'secure_getenv'}
    for F in mod.functions.values():
        if F.decl or not F.blocks or len(F.params) != 1:
            continue
        for B in F.blocks:
            for I in B.insts:
                if I.op == 'load' and I.ops[0][0] == 'g' and I.ops[0][1] in ('environ', '__environ'):
                    out.add(F.name)
    return out


def env_calls(mod):
    """[(function, callee, name)]: calls that hand the name of a variable to something that reads the environment"""
    base = base_getters(mod)
    get = set(base)
    for F in mod.functions.values():
        if not F.decl and F.blocks:
            d, x = reach(mod, [F.name])
            if base & (d | set(x)):
                get.add(F.name)
    out = []
    for F in mod.functions.values():
        if F.decl or not F.blocks:
            continue
        for B, I in calls(F):
            if I.x.get('callee') not in get:
                continue
            for o in I.ops:
                n = const_name(mod, o[1], o[2] if len(o) > 2 else 0) if o[0] == 'g' else None
                if n:
                    out.append((F.name, I.x['callee'], n))
    return out


def settings_root(mod, ec):
    """innermost function from which all reads are reached"""
    fs = {f for f, *_ in ec}
    best = None
    for F in mod.functions.values():
        if F.decl or not F.blocks:
            continue
        r = reach(mod, [F.name])[0]
        if fs <= r and (best is None or len(r) < len(best[1])):
            best = (F.name, r)
    if best is None:
        raise Missing('function that reads the environment')
    return best[0]


class Eng(DumaEngine):
    # the allocation of the kept copy of a string is a matter of other rules
    EVENTS = DumaEngine.EVENTS | {'_duma_allocate', '_duma_deallocate'}
    max_depth = 12
    CUTS = (-1, 0, 1, 2, 3, 4)

    def mkey(self, st):
        # paths on which the value lies on different sides of a limit stay apart
        if st.cons.bot or not self.mon.numeric:
            return None
        v = st.cons.norm(self.mon.val[max(self.mon.numeric)])
        return tuple('l' if st.cons.ge0(C(c - 1) - v) else 'g' if st.cons.ge0(v - c) else '?' for c in self.CUTS)


class EnvItem(Item):
    def __init__(self, config, fn, var, getters, banner=False):
        super().__init__(config, fn, 'init')
        self.var, self.getters, self.banner = var, getters, banner

    def __repr__(self):
        return '%s:%s[%s]' % (self.config, self.fn, self.var or 'none set')


class Mon(Monitor):
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        e = self.eng
        m = e.m
        self.W = Where(m.functions[item.fn])
        self.str = newsym('env', 0x10000, (1 << 47) - 1)
        self.val = {32: V(newsym('int', -(1 << 31), (1 << 31) - 1)), 64: V(newsym('long', -(1 << 63), (1 << 63) - 1))}
        self.numeric = set()
        st.gh['int'], st.gh['long'] = self.val[32], self.val[64]
        for i, n in e.argnames(m.functions[item.fn]).items():
            a = (m.functions[item.fn].di or {}).get('args', {}).get(i + 1)
            nm = m.di.pointee(a[1]) if a and hasattr(m.di, 'pointee') else None
            if m.functions[item.fn].params[i][1]:
                g, o, z, ty = e.gf('TLS.ALIGNMENT')
                lo = min(e.gf(k)[1] for k in e.g2 if k.startswith('TLS.'))
                st.env[('a', i)] = e.gaddr(g) + lo
        self.default = {}
        for v, (f, k, d) in SPEC.items():
            try:
                g, o, z, ty = e.gf(f)
            except Missing:
                if k is None:
                    continue
                raise
            G = m.globals[g]
            c = G.cells.get(o)
            iv = c[1] if c else ('c', 0, 8 * z)
            if iv[0] != 'c':
                raise Missing('initial value of %s' % f)
            x = iv[1]
            if z < 8 and x >= 1 << (8 * z - 1):
                x -= 1 << 8 * z
            if z == 8 and x >= 1 << 63:
                x -= 1 << 64
            self.default[f] = x
            cells = dict(st.mem.get(e.gaddr(g), {}))
            cells[o] = (z, C(x))
            st.mem[e.gaddr(g)] = cells
        if item.var is None:
            for f, x in self.default.items():
                d = [b for v, (a, k, b) in SPEC.items() if a == f][0]
                if d is not None:
                    self.eng.oblig('documented-default', x == d, self.W, 'the initial value of %s is %d, documented is %d' % (f, x, d), st)
                else:
                    self.eng.oblig('documented-default', x > 0 and x & (x - 1) == 0, self.W, 'the initial alignment %d is not a power of two' % x, st)

    def on_call(self, st, name, a, I):
        e = self.eng
        if name in self.item.getters:
            kind, base, off = e.region(st, st.cons.norm(a[0]))
            v = const_name(e.m, SYMS[base].origin, 0) if kind == 'global' and not off.c and not off.k else None
            if v is None:
                raise GiveUp('environment read under a name that is not constant')
            return [(st, V(self.str) if v == self.item.var else C(0), 'ret')]
        if name == 'DUMA_Print':
            st.tags['bp'] = True
            return None
        if name in ('atoi', 'atol', 'strtol', 'atoll', 'strtoll', 'strtoul', 'strtoull', '__isoc23_strtol'):
            if not e.holds(st, ceq(a[0] - V(self.str))):
                return None
            if len(a) > 2:
                e.oblig('decimal', e.holds(st, ceq(a[2] - 10)) or e.holds(st, ceq(a[2])), I, 'the value is not read as a decimal number', st)
            b = 32 if name == 'atoi' else 64
            self.numeric.add(b)
            return [(st, self.val[b], 'ret')]
        if name == '_duma_allocate':
            y = newsym('kept', 0x10000, (1 << 47) - 1)
            st.gh['kept'] = V(y)
            s2 = st.copy()
            s2.gh['kept'] = C(0)
            st.tags['kp'], s2.tags['kp'] = 'some', 'none'
            return [(st, V(y), 'ret'), (s2, C(0), 'ret')]
        if (name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove', 'strcpy', '_duma_memcpy', '_duma_strcpy', '_duma_memmove')) and 'kept' in st.gh:
            if e.holds(st, ceq(a[0] - st.gh['kept'])) and e.holds(st, ceq(a[1] - V(self.str))):
                ok = True
                if len(a) > 2:
                    y = [list(x.c)[0] for x in [a[2] - 1] if len(x.c) == 1 and not x.k]
                    o = SYMS[y[0]].origin if y else None
                    ok = o is not None and o[0] == 'strlen' and e.holds(st, ceq(o[1] - V(self.str)))
                st.tags['cp'] = bool(ok)
            return [(st, a[0], 'ret')] if not I.void else [(st, None, 'ret')]
        return None

    def field(self, st, f):
        e = self.eng
        g, o, z, ty = e.gf(f)
        return e.gval(st, f), 8 * z

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if kind != 'ret' or st.cons.bot:
            return
        if item.banner and item.var in (None, 'DUMA_DISABLE_BANNER'):
            # the setting is used here: a banner is printed exactly when it is not disabled
            if item.var is None or e.refute(st, cne(self.val[max(self.numeric)] if self.numeric else C(0))):
                e.oblig('banner', st.tags.get('bp'), self.W, 'no banner although it is not disabled', st)
            elif st.tags.get('bp'):
                e.oblig('banner', False, self.W, 'a banner is printed although it is disabled', st)
        for var, (f, k, d) in SPEC.items():
            if f not in self.default:
                continue
            x, b = self.field(st, f)
            d = self.default[f]
            if var != item.var:
                e.oblig('other-settings-unchanged', e.holds(st, ceq(e.toS(st, x, b) - d)), self.W,
                        'with %s set, %s does not keep its default' % (item.var or 'no variable', f), st)
                continue
            if k is None:
                continue
            self.effect(st, var, f, k, d, x, b)

    def effect(self, st, var, f, k, d, x, b):
        e = self.eng
        if k == 'text':
            if st.tags.get('kp') == 'some':
                ok = st.tags.get('cp') and e.holds(st, ceq(x - st.gh['kept']))
            else:
                ok = st.tags.get('kp') == 'none' and e.holds(st, ceq(x))
            e.oblig('effect', ok, self.W, '%s does not keep a copy of the text of %s' % (f, var), st)
            return
        if not self.numeric:
            e.oblig('effect', False, self.W, '%s is not given the value of %s' % (f, var), st)
            return
        n = max(self.numeric)
        v = self.val[n]
        if k == LONG:
            # kB numbers: full range
            e.oblig('effect', n == 64 and e.holds(st, ceq(e.toS(st, x, b) - v)), self.W, '%s is not the value of %s' % (f, var), st)
            return
        xs = e.toS(st, x, b)

        def sub(cond):
            return [s for s in e.assume(st.copy(), cond, None) if not s.cons.bot]

        def must(states, want, what):
            for s in states:
                xx = e.toS(s, s.cons.norm(x), b)
                e.oblig('effect', e.holds(s, want(s, xx)), self.W, what, s)
        if k == BOOL:
            must(sub(ceq(v)), lambda s, y: ceq(y), '%s=0 does not switch %s off' % (var, f))
            must(sub(cne(v)), lambda s, y: ceq(y - 1), '%s different from 0 does not switch %s on' % (var, f))
        elif k == 'align':
            must(sub(ceq(v)), lambda s, y: ceq(y - 1), '%s=0 does not mean alignment 1' % var)
            must(sub(cge(v - 1)), lambda s, y: ceq(y - s.cons.norm(v)), '%s is not the value of %s' % (f, var))
        elif k == POS:
            must(sub(cge(v - 1)), lambda s, y: ceq(y - e.toS(s, s.cons.norm(v), b)), '%s is not the value of %s' % (f, var))
            must(sub(cge(C(0) - v)), lambda s, y: ceq(y - d), 'a value of %s outside its range takes effect' % var)
        elif isinstance(k, tuple):
            lo, hi = k
            must([t for s in sub(cge(v - lo)) for t in e.assume(s, cge(C(hi) - v), None) if not t.cons.bot],
                 lambda s, y: ceq(y - s.cons.norm(v)), '%s is not the value of %s' % (f, var))
            must(sub(cge(C(lo - 1) - v)) + sub(cge(v - hi - 1)), lambda s, y: ceq(y - d),
                 'a value of %s outside its range takes effect' % var)
        elif k in ('byte', 'fill'):
            ss = [st.copy()]
            if k == 'fill':
                must(sub(ceq(v + 1)), lambda s, y: ceq(y + 1), '%s=-1 does not switch filling off' % var)
                ss = sub(cne(v + 1))
            must(ss, lambda s, y: ceq(y - e.toU(s, s.cons.norm(v), 8)), '%s is not the value of %s as a byte' % (f, var))


def resolve(defs, o):
    """(base, constant offset) of a pointer operand: base a global name, ('a', i) or None"""
    off = 0
    for _ in range(20):
        if o[0] == 'g':
            return o[1], off + (o[2] if len(o) > 2 else 0)
        if o[0] == 'a':
            return ('a', o[1]), off
        if o[0] != 'v':
            return None
        I = defs.get(o[1])
        if I is None:
            return None
        if I.op == 'gep' and all(t[0] == 'c' for t in I.x):
            off += sum(t[1] for t in I.x)
            o = I.ops[0]
        elif I.op == 'phi':
            o = I.x[0][1]
        else:
            return None
    return None


def settings(e):
    out = {}
    tls = min(e.g2[k][1] for k in e.g2 if k.startswith('TLS.'))
    for var, (f, k, d) in SPEC.items():
        try:
            g, o, z, ty = e.gf(f)
        except Missing:
            continue
        out[var] = (f, g, o, o - tls if f.startswith('TLS.') else None)
    return out


def loaded(mod, where):
    """positions loaded in the functions `where`"""
    out = set()
    for F in mod.functions.values():
        if F.decl or not F.blocks or not where(F.name):
            continue
        defs = {I.id: I for B in F.blocks for I in B.insts}
        for B in F.blocks:
            for I in B.insts:
                if I.op == 'load':
                    r = resolve(defs, I.ops[0])
                    if r:
                        out.add(r if isinstance(r[0], str) else ('arg', r[1]))
    return out


def used(ctx, mod, root, readers):
    """settings are of use outside the functions that set them"""
    e = Eng(mod, Monitor())
    L = loaded(mod, lambda n: n != root and n not in readers)
    miss = set()
    for var, (f, g, o, to) in settings(e).items():
        ok = (g, o) in L or (to is not None and ('arg', to) in L)
        if var == 'DUMA_DISABLE_BANNER':
            if not ok:
                miss.add(var)
            continue
        if var == 'DUMA_SUPPRESS_ATEXIT' and not any(I.x.get('callee') == 'atexit' for F in mod.functions.values() if F.blocks for B, I in calls(F)):
            continue        # nothing to suppress in this build
        if var == 'DUMA_REPORT_ALL_LEAKS' and 'lineno' not in e.slot_fields:
            continue        # leak detection compiled out
        ctx.ob('setting-used', ok, Where(mod.functions[root]).loc(), '%s is set by %s but never used' % (f, var), root)
    return miss


class GetEng(DumaEngine):
    narrow = True

    def goto(self, F, B, succ, st, out):
        if F.rpo.index(succ) <= F.rpo.index(B.idx) and not st.cons.bot:
            self.mon.settle(st)
        return super().goto(F, B, succ, st, out)


class GetMon(Monitor):
    """the replacement of getenv: what is returned follows "NAME=", the whole name equal. Ghost m: length of the part of the
    name found equal at the start of the current entry v."""
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        e = self.eng
        self.F = e.m.functions[item.fn]
        self.W = Where(self.F)
        self.name = st.env[('a', 0)]
        st.gh['name'] = self.name
        self.other = False

    def on_call(self, st, name, a, I):
        if not name.startswith('llvm.') and name not in ('strlen',):
            self.other = True

    def on_data_load(self, st, addr, size, sym, inst):
        e = self.eng
        a = st.cons.norm(addr)
        if size == 8:
            # an entry of the environment (or the environment itself)
            st.gh['v'], st.gh['m'] = V(sym), C(0)
            for k in ('nk', 'nv', 'vk', 'vv'):
                st.gh.pop(k, None)
            return
        if size != 1:
            return
        n = a - st.cons.norm(st.gh['name'])
        d = (a - st.cons.norm(st.gh['v'])) if 'v' in st.gh else None
        nm = list(st.cons.norm(st.gh['name']).c)[0]
        if nm in a.c:
            e.add(st, cge(C(1 << 20) - n))      # names are short
            st.gh['nk'], st.gh['nv'] = n, V(sym)
        elif d is not None and list(st.cons.norm(st.gh['v']).c)[0] in a.c:
            st.gh['vk'], st.gh['vv'] = d, V(sym)

    def settle(self, st):
        e = self.eng
        if all(k in st.gh for k in ('m', 'nk', 'nv', 'vk', 'vv')):
            m, nk, vk = (st.cons.norm(st.gh[k]) for k in ('m', 'nk', 'vk'))
            if e.holds(st, ceq(nk - m)) and e.holds(st, ceq(vk - m)) and e.holds(st, ceq(st.cons.norm(st.gh['nv']) - st.cons.norm(st.gh['vv']))):
                st.gh['m'] = m + 1
        for k in ('nk', 'nv', 'vk', 'vv'):
            st.gh.pop(k, None)

    def at_exit(self, st, v, kind, item):
        e = self.eng
        if kind != 'ret' or st.cons.bot or v is None or self.other:
            return
        for s in [s for s in e.assume(st.copy(), cne(v), None) if not s.cons.bot]:
            ok = all(k in s.gh for k in ('v', 'm', 'nk', 'nv', 'vk', 'vv'))
            if ok:
                g = {k: s.cons.norm(x) for k, x in s.gh.items() if isinstance(x, Lin)}
                idx = g['vk']
                ok = (e.holds(s, ceq(s.cons.norm(v) - g['v'] - idx - 1)) and e.holds(s, ceq(g['vv'] - 61)) and
                      e.holds(s, ceq(g['nk'] - idx)) and e.holds(s, ceq(g['nv'])) and e.holds(s, ceq(g['m'] - idx)))
            e.oblig('name-matched', ok, self.W, 'may return the value of a variable with another name', s)


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'explicit', 'prefer', 'nothread', 'noglobal', 'noleak']
    items, gets = [], []
    for c in configs:
        m = module(c)
        ec = env_calls(m)
        if not ec:
            raise Missing('calls that read the environment')
        root = settings_root(m, ec)
        W = Where(m.functions[root])
        rd = {n for *_, n in ec}
        for v in list(SPEC) + list(OTHER) + list(UNREAD):
            ctx.ob('variable-read', v in rd, W.loc(), '%s is documented but not read' % v, root)
        for n in sorted(rd):
            ctx.ob('variable-documented', n in SPEC or n in OTHER, W.loc(), '%s is read but not documented' % n, root)
        getters = base_getters(m)
        for g in sorted(getters):
            G = m.functions.get(g)
            if G is not None and not G.decl and G.blocks and len(G.params) == 1:
                gets.append(Item(c, g))
        banner = bool(used(ctx, m, root, {f for f, *_ in ec}))
        for v in [None] + list(SPEC):
            items.append(EnvItem(c, root, v, getters, banner))
    ctx.items(run_items(items, Mon, Eng))
    ctx.items(run_items(gets, GetMon, GetEng))
