"""Lock implementation: inductive verification of owner/recursion bookkeeping over an abstract mutex."""
from common import *
from wrap import Where
import lin

RULE = ('The state of the lock implementation is described per nesting depth by an affine template inferred from the '
        'code (values after 0, 1, 2, 3 acquisitions) and then verified inductively for every depth d >= 1: acquiring '
        'from free / owned-by-self / owned-by-another and releasing lead to exactly the template state, the mutex is '
        'locked before the first acquisition returns, never locked again by its owner, unlocked exactly by the last '
        'release, and the bookkeeping is written only while the mutex is held.')
GET, REL, INI = 'DUMA_get_sem', 'DUMA_rel_sem', 'DUMA_init_sem'
LOCKS = {'pthread_mutex_lock': 'lock', 'pthread_mutex_trylock': 'try', 'pthread_mutex_unlock': 'unlock'}
SELF, OTHER = [], []


class Eng(DumaEngine):
    no_inline = frozenset()

    def external(self, st, n, a, I):
        held = st.tags['held']
        if n == 'pthread_self':
            return [(st, self.self_, 'ret')]
        if n == 'pthread_equal':
            d = a[0] - a[1]
            s2 = st.copy()
            return [(s, C(1), 'ret') for s in self.assume(st, ceq(d), I)] + \
                   [(s, C(0), 'ret') for s in self.assume(s2, cne(d), I)]
        if n in LOCKS:
            k = LOCKS[n]
            if k == 'unlock':
                self.oblig('unlock-by-owner', held == 'self', I, 'unlocks the mutex without holding it', st)
                self.mon.released(st, I)
                st.tags['held'] = 'free'
                st.tags['nun'] = st.tags.get('nun', 0) + 1
                return [(st, C(0), 'ret')]
            if k == 'try':
                if held == 'self' or held == 'other':
                    # the other thread may release in between
                    r = [(st, C(16), 'ret')]
                    if held == 'other':
                        s2 = st.copy()
                        self.mon.acquired(s2)
                        r.append((s2, C(0), 'ret'))
                    return r
                # free: another thread may take it first
                s2 = st.copy()
                s2.tags['held'] = 'other'
                self.mon.acquired(st)
                return [(st, C(0), 'ret'), (s2, C(16), 'ret')]
            self.oblig('no-self-deadlock', held != 'self', I, 'locks the mutex again while its own thread holds it', st)
            if held == 'self':
                return []
            self.mon.acquired(st)
            return [(st, C(0), 'ret')]
        if n.startswith('pthread_mutex'):
            self.oblig('no-reinitialisation', False, I, 'reinitialises the mutex in use', st)
            return [(st, C(0), 'ret')]
        return super().external(st, n, a, I)

    # the public lock functions themselves are analysed, not treated as events
    def call(self, F, B, I, st, out):
        if I.x['callee'] in (GET, REL, INI):
            args = [self.ival(st, o, b) for o, (b, p, z) in zip(I.ops, I.x['argt'])]
            rs = self.inline(self.m.functions[I.x['callee']], st, args, I, F, B)
            cont = []
            for s, ret, kind in rs:
                if not I.void and ret is not None:
                    self.setv(s, I, ret)
                cont.append(s)
            return cont or None
        return super().call(F, B, I, st, out)


class Mon(Monitor):
    """tmpl: {(g,off): (kind, base, step)} value at depth d>=1 ; free: value at depth 0"""
    def __init__(self, vars_, free, tmpl):
        self.vars, self.free, self.tmpl = vars_, free, tmpl
        self.want = {}

    def value(self, v, d, who):
        """template value of variable v at depth d (Lin) owned by `who`"""
        k = self.tmpl.get(v)
        if k is None:
            return None
        if k[0] == 'self':
            return who
        return C(k[1]) + d.mul(k[2]) if k[2] else C(k[1])

    def put(self, st, d, who):
        e = self.eng
        for v in self.vars:
            x = C(self.free[v]) if d is None else self.value(v, d, who)
            if x is None:
                x = V(newsym('lockvar', 0, M64 - 1))
            b = e.gaddr(v[0])
            cells = dict(st.mem.get(b, {}))
            cells[v[1]] = (self.vars[v], x)
            st.mem[b] = cells

    def get(self, st, v):
        e = self.eng
        return st.cons.norm(e.gload(st, v[0], v[1], self.vars[v], False))

    def acquired(self, st):
        st.tags['held'] = 'self'
        self.put(st, None, None)

    def released(self, st, I):
        e = self.eng
        for v in self.vars:
            e.oblig('free-state-at-unlock', self.same(st, self.get(st, v), C(self.free[v])), I,
                    'unlocks the mutex while %s still holds the value of an owned lock' % v[0], st)

    def same(self, st, x, y):
        d = st.cons.norm(x - y)
        return (not d.c and d.k == 0) or (bool(d.c) and st.cons.eq0(d))

    def on_global_load(self, st, g, off, size, inst):
        v = (g, off)
        if v not in self.vars or st.tags['held'] == 'self':
            return
        # another thread may own or change it at any time: any of the values the template allows it
        e = self.eng
        k = self.tmpl.get(v)
        fr = self.free[v]
        if k is not None and k[0] == 'aff' and k[2] == 0 and k[1] == fr:
            x = C(fr)
        else:
            s = newsym('racy', 0, M64 - 1)
            x = V(s)
            if k is not None and k[0] == 'self':
                e.add(st, cne(x - e.self_))
        b = e.gaddr(g)
        cells = dict(st.mem.get(b, {}))
        cells[off] = (size, x)
        st.mem[b] = cells

    def on_global_store(self, st, g, off, size, val, old, inst):
        if (g, off) in self.vars:
            self.eng.oblig('bookkeeping-under-lock', st.tags['held'] == 'self', inst,
                           'changes %s while the mutex is not held' % g, st)


def lockvars(mod):
    """mutable globals read or written by the lock functions and their callees"""
    todo, seen, out = [GET, REL], set(), {}
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.functions or mod.functions[f].decl:
            continue
        seen.add(f)
        for B in mod.functions[f].blocks:
            for I in B.insts:
                if I.op in ('call', 'invoke') and I.x.get('callee') and I.x['callee'] not in (
                        'DUMA_Abort', 'DUMA_Print', 'DUMA_Exit', INI):
                    todo.append(I.x['callee'])
                if I.op in ('load', 'store'):
                    p = I.ops[0] if I.op == 'load' else I.ops[1]
                    if p[0] == 'g':
                        G = mod.globals.get(p[1])
                        if G is not None and not G.const and not G.decl:
                            out[(p[1], p[2] if len(p) > 2 else 0)] = (I.bits // 8) if I.op == 'load' else None
    for k, z in out.items():
        if z is None:
            out[k] = mod.globals[k[0]].size
    return out, seen


def fresh(e, depth_tag, fn):
    F = e.m.functions[fn]
    st = e.entry(0, 'C')
    for i, n in e.argnames(F).items():
        e.set_sym_arg(st, F, i, n)
    st.tags['held'] = depth_tag
    if F.params:
        st.gh[('rv',)] = st.env[('a', 0)]
    return F, st


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer']
    for c in configs:
        run_config(ctx, c)
    ctx.assumptions += ['the mutex of the threads library is a correct non-recursive mutex; thread identities are non-zero',
                        'bookkeeping words are read and written as single words']


def run_config(ctx, config):
    m = module(config)
    for f in (GET, REL):
        if f not in m.functions or m.functions[f].decl:
            raise Missing('lock function %s' % f)
    vs, fns = lockvars(m)
    # the library's own settings are no lock bookkeeping
    free = {}
    for v in vs:
        G = m.globals[v[0]]
        cell = G.cells.get(v[1])
        free[v] = cell[1][1] if cell and cell[1][0] == 'c' else 0
    errs = []

    def engine(tm):
        mon = Mon(vs, free, tm)
        e = Eng(m, mon)
        e.self_ = V(newsym('self', 1, M64 - 1))
        e.config = config
        mon.eng = e
        return e, mon
    # --- inference: values after 1, 2, 3 acquisitions (unchecked)
    e, mon = engine({})
    e.quiet = 1
    obs = []
    F, st = fresh(e, 'free', GET)
    mon.put(st, None, None)
    for d in (1, 2, 3):
        rs = [s for s, v, k in e.run(F, [st]) if k == 'ret' and s.tags['held'] == 'self']
        if not rs:
            break
        st = rs[0].copy()
        st.env = {}
        st.segs = []
        obs.append({v: mon.get(st, v) for v in vs})
    tm = {}
    if len(obs) == 3:
        for v in vs:
            x, y, z = (o[v] for o in obs)
            if all(not w.c for w in (x, y, z)) and z.k - y.k == y.k - x.k:
                tm[v] = ('aff', x.k - (y.k - x.k), y.k - x.k)
            elif all(mon.same(st, w, e.self_) for w in (x, y, z)):
                tm[v] = ('self',)
    ctx.analysed.setdefault('templates', {})[config] = {v[0]: str(t) for v, t in tm.items()}
    # --- verification
    cases = []
    for held in ('free', 'other', 'self'):
        cases.append((GET, held))
    cases += [(REL, 'first'), (REL, 'deep')]
    allrep = []
    n = ok = 0
    pts = {}
    for fn, held in cases:
        e, mon = engine(tm)
        F, st = fresh(e, 'self' if held in ('first', 'deep') else held, fn)
        d = V(newsym('depth', 2 if held == 'deep' else 1, 1 << 30))
        if held in ('first',):
            d = C(1)
        if held == 'free':
            mon.put(st, None, None)
        elif held == 'other':
            mon.put(st, None, None)
        else:
            mon.put(st, d, e.self_)
        rs = e.run(F, [st])
        W = Where(F)
        e.oblig('returns', bool(rs), W, '%s never returns when the lock is %s' % (fn, held))
        for s, v, k in rs:
            h = s.tags['held']
            if fn == GET:
                e.oblig('held-on-return', h == 'self', W, '%s returns without holding the lock (lock %s at entry)' % (
                    fn, {'self': 'owned', 'other': 'owned by another thread'}.get(held, held)), s)
                nd = d + 1 if held == 'self' else C(1)
            else:
                if held == 'first':
                    e.oblig('released-by-last', h == 'free' and s.tags.get('nun', 0) == 1, W,
                            '%s does not unlock the mutex at the last release' % fn, s)
                    nd = None
                else:
                    e.oblig('kept-while-nested', h == 'self', W,
                            '%s gives the lock away although it was taken more often than released' % fn, s)
                    nd = d - 1
                e.oblig('value-passed-through', v is not None and mon.same(s, v, s.gh[('rv',)]), W,
                        '%s does not return the value it was given' % fn, s)
            if nd is not None and h == 'self':
                for x in vs:
                    w = mon.value(x, nd, e.self_)
                    if w is None:
                        w2 = False
                    else:
                        w2 = mon.same(s, mon.get(s, x), w)
                    e.oblig('bookkeeping-exact', w2, W,
                            '%s leaves %s with a value that does not fit the number of acquisitions' % (fn, x[0]), s)
        n += e.stats['obligations']
        ok += e.stats['discharged']
        for r, dd in e.events.items():
            pts.setdefault(r, set()).update('%s @ %s' % k for k in dd)
        allrep += list(e.reports.values())
    ctx.obligations += n
    ctx.discharged += ok
    a = ctx.analysed
    a.setdefault('entries', []).append(dict(config=config, functions=sorted(fns), variables=[v[0] for v in vs],
                                            cases=['%s[%s]' % c for c in cases], obligations=n))
    for r, p in pts.items():
        a.setdefault('program_points', {}).setdefault(r, [])
        a['program_points'][r] = sorted(set(a['program_points'][r]) | p)
    for rep in allrep:
        if not any(x['rule'] == rep['rule'] and x['message'] == rep['message'] for x in ctx.violations):
            rep['entry'] = config
            ctx.violations.append(rep)
