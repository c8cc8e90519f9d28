"""Abstract interpreter over LLVM IR.

Abstract state = conjunction of linear integer constraints (lin.Cons) over symbols + symbolic
environment/memory + typestate tags + ghost registers + ghost byte-range segments.  States are
partitioned by a small key (typestate, nullness of live pointers, small constants) and joined at
every control-flow merge (affine hull + mutually entailed inequalities); loops are solved to a
fixpoint with widening.  Nothing is executed and no path is enumerated or handed to a solver."""
from math import gcd
from fractions import Fraction
import lin
from lin import Lin, C, V, SYMS, newsym, term, Cons, bounds, tighten

PAGE = 4096
M64 = 1 << 64
ADDR_MAX = 1 << 47


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------ conditions
TRUE = ('k', True)
FALSE = ('k', False)


def cge(e):
    return ('c', 'ge', e)


def ceq(e):
    return ('c', 'eq', e)


def cne(e):
    return ('c', 'ne', e)


def cnot(c):
    t = c[0]
    if t == 'k':
        return FALSE if c[1] else TRUE
    if t == 'c':
        if c[1] == 'ge':
            return ('c', 'ge', -c[2] - 1)
        return ('c', 'ne' if c[1] == 'eq' else 'eq', c[2])
    if t == 'and':
        return ('or', cnot(c[1]), cnot(c[2]))
    if t == 'or':
        return ('and', cnot(c[1]), cnot(c[2]))
    if t == 'p2':
        return ('np2', c[1])
    if t == 'np2':
        return ('p2', c[1])
    raise ValueError(c)


def cand(a, b):
    if a[0] == 'k':
        return b if a[1] else FALSE
    if b[0] == 'k':
        return a if b[1] else FALSE
    return ('and', a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def ispow2(n):
    return n > 0 and n & (n - 1) == 0


class Seg:
    """ghost byte range [lo,hi) with a discrete label and a tuple of Lin payloads"""
    __slots__ = ('label', 'lo', 'hi', 'pay')

    def __init__(self, label, lo, hi, pay=()):
        self.label, self.lo, self.hi, self.pay = label, lo, hi, pay

    def map(self, f):
        return Seg(self.label, f(self.lo), f(self.hi), tuple(f(p) for p in self.pay))

    def __repr__(self):
        return '%s[%s,%s)%s' % (self.label, self.lo, self.hi, self.pay)


class St:
    __slots__ = ('cons', 'env', 'stack', 'mem', 'slots', 'gh', 'segs', 'tags', 'pow2', 'al', 'hb', 'pend', 'trail')

    def copy(self):
        n = St.__new__(St)
        n.cons = self.cons.copy()
        n.env = dict(self.env)
        n.stack = self.stack
        n.mem = dict(self.mem)
        n.slots = dict(self.slots)
        n.gh = dict(self.gh)
        n.segs = list(self.segs)
        n.tags = dict(self.tags)
        n.pow2 = set(self.pow2)
        n.al = list(self.al)
        n.hb = list(self.hb)
        n.pend = list(self.pend)
        n.trail = self.trail
        return n


def new_state():
    s = St.__new__(St)
    s.cons = Cons()
    s.env = {}
    s.stack = ()
    s.mem = {}      # base Lin (no constant) -> {off: (size, Lin)}
    s.slots = {}    # slot address Lin -> {off: (size, Lin)}  ('dirty' -> True when written)
    s.gh = {}
    s.segs = []
    s.tags = {}
    s.pow2 = set()
    s.al = []       # (value Lin, alignment Lin)
    s.hb = []       # (x, s): x has the highest bit of s and no bit that s has not
    s.pend = []     # (trigger cond, [cond...])  invariants waiting for their guard to become known
    s.trail = ()
    return s


class Slot:
    """materialised record: cells {off:(size,Lin)}, init {off: Lin} (values when first seen), dirty flag"""
    __slots__ = ('cells', 'init', 'dirty', 'fresh')

    def __init__(self, cells, init, dirty=False, fresh=False):
        self.cells, self.init, self.dirty, self.fresh = cells, init, dirty, fresh


class Monitor:
    """rule hooks; every hook may edit the state's tags/ghosts/segments and file reports"""
    def start(self, eng): self.eng = eng
    def on_global_load(self, st, g, off, size, inst): pass
    def on_global_store(self, st, g, off, size, val, old, inst): pass
    def on_slot_new(self, st, h, slot): pass
    def on_slot_load(self, st, h, off, size, inst): pass
    def on_slot_store(self, st, h, off, size, val, old, inst): pass
    def on_slot_drop(self, st, h, slot, inst): pass
    def on_data_load(self, st, addr, size, sym, inst): pass
    def on_data_store(self, st, addr, size, val, inst): pass
    def on_fill(self, st, dst, val, n, inst): pass
    def on_copy(self, st, dst, src, n, inst): pass
    def on_call(self, st, name, args, inst): return None
    def after_call(self, st, name, args, ret, inst): pass
    def on_assume(self, st, cond, inst): pass
    def on_return(self, st, fname, ret, inst): pass
    def on_div(self, st, inst): pass
    def on_block_end(self, st): pass


class Engine:
    jtemplates = ()         # further bounds tried for each joined value
    def __init__(self, mod, monitor=None, cfg=None):
        lin.PREFER = lambda s, rep: self._isslot(rep.mul(self.scale.get(s, 1)))
        self.scale = {}       # record-table symbols that stand for a multiple of their value
        self.m = mod
        self.mon = monitor or Monitor()
        self.mon.start(self)
        self.reports = {}
        self.quiet = 0
        self.gsym = {}
        self.ginit = {}
        self.initval = {}
        self.depth = 0
        self.max_depth = 24
        self.fnstack = []
        self.stats = dict(blocks=0, insts=0, joins=0, states=0, calls=0, loops=0, loopiters=0, funcs=set(),
                          slots=0, obligations=0, discharged=0)
        self.events = {}
        self.havoc_gen = 0
        self.state_cap = 96
        di = mod.di
        t = di.struct_by_name('_DUMA_Slot')
        self.slot_fields = {}
        self.slot_size = 0
        if t is not None:
            f = di.n[di.strip(t)][1]
            self.slot_size = int(f.get('size', 0)) // 8
            for n, (o, s, ty) in di.struct_members(t).items():
                k, ff = di.n[ty] if ty in di.n else (None, {})
                self.slot_fields[n] = (o, s, ty)
            # bit-fields: offsets come from member 'offset' in bits; ir.DI already divides by 8
            self._fix_bitfields(t)
        self.gfields = {}
        for v in mod.globals:
            ty = di.var.get(v)
            if ty is None:
                continue
            k = di.kind(ty)
            if k[0] == 'struct':
                self.gfields[v] = di.struct_members(k[1])
            else:
                self.gfields[v] = {'': (0, mod.globals[v].size, ty)}
        self.goff = {}
        for g, ms in self.gfields.items():
            for n, (o, s, ty) in ms.items():
                if di.kind(ty)[0] not in ('struct',):
                    self.goff[(g, o)] = (n, s, ty)
        self.fbyoff = {o: n for n, (o, s, ty) in self.slot_fields.items()}

    def _fix_bitfields(self, t):
        di = self.m.di
        k, f = di.n[di.strip(t)]
        for m in di.t.get(di.ref(f.get('elements')), []):
            if m in di.n:
                mf = di.n[m][1]
                n = mf.get('name')
                if n in self.slot_fields:
                    bits = int(mf.get('size', 0))
                    off = int(mf.get('offset', 0))
                    if 'DIFlagBitField' in mf.get('flags', ''):
                        self.slot_fields[n] = (off // 8, (bits + 7) // 8, self.slot_fields[n][2])

    # ---------------------------------------------------------------- reporting
    def report(self, rule, inst, msg, st=None, extra=None):
        if self.quiet:
            return
        fn = inst.block.fn.name if inst is not None and inst.block is not None else (
            self.fnstack[-1] if self.fnstack else '?')
        loc = inst.loc() if inst is not None else '?'
        key = (rule, fn, loc, msg.split(' :: ')[0])
        if key not in self.reports:
            self.reports[key] = dict(rule=rule, function=fn, where=loc, message=msg, path=list(self.fnstack),
                                     extra=extra)

    def resolve_tables(self, st):
        """values read from constant tables, where the state restricts the index"""
        syms = set(st.cons.syms()) | set(st.cons.sub)
        for x in sorted(syms):
            d = SYMS[x].defn
            if not d or d[0] != 'tbl':
                continue
            g, off, size = d[1:]
            off = st.cons.norm(off)
            G = self.m.globals.get(g)
            cand = set()
            if not off.c:
                c = G.cells.get(off.k)
                if not c or c[1][0] != 'c':
                    continue
                cand.add(c[1][1])
            elif len(off.c) == 1:
                (y, w), = off.c.items()
                for o, (z, v) in G.cells.items():
                    if z == size and (o - off.k) % w == 0:
                        if v[0] != 'c':
                            cand = None
                            break
                        i = (o - off.k) // w
                        if not st.cons.ne0(V(y) - i):
                            cand.add(v[1])
                if not cand:
                    continue
            else:
                continue
            st.cons.add_ge(V(x) - min(cand))
            st.cons.add_ge(C(max(cand)) - V(x))

    def index_from_table(self, st, l):
        """a condition on a value read from a constant table restricts the index"""
        for x in list(l.c):
            d = SYMS[x].defn
            if not d or d[0] != 'tbl' or st.cons.bot:
                continue
            g, off, size = d[1:]
            off = st.cons.norm(off)
            if len(off.c) != 1:
                continue
            (y, w), = off.c.items()
            val = st.cons.norm(V(x))
            ok, no = [], []
            for o, (z, v) in self.m.globals[g].cells.items():
                if z == size and (o - off.k) % w == 0:
                    i = (o - off.k) // w
                    if v[0] != 'c':
                        return
                    (no if st.cons.ne0(val - v[1]) else ok).append(i)
            if not ok or len(ok) + len(no) > 64:
                continue
            if st.cons.ge0(V(y) - min(ok + no)) and st.cons.ge0(C(max(ok + no)) - V(y)):
                st.cons.add_ge(V(y) - min(ok))
                st.cons.add_ge(C(max(ok)) - V(y))
                for i in no:
                    if min(ok) < i < max(ok):
                        st.cons.add_ne(V(y) - i)

    def refute(self, st, c):
        """the condition is impossible in the state, invariants and constant tables taken into account"""
        for s in self.assume(st.copy(), c):
            self.fire(s, True)
            if not s.cons.bot:
                self.resolve_tables(s)
            if s.cons.bot or self.infeasible(s) or any(s.cons.eq0(d) for d in s.cons.dis):
                continue
            return False
        return True

    def infeasible(self, st):
        """the constraints of the state contradict each other (asked before something is reported)"""
        if st.cons.bot:
            return True
        for c in list(st.cons.ineq.values()):
            if len(c.c) > 1 and st.cons.ge0(-c - 1):
                return True
        return False

    def oblig(self, rule, ok, inst, msg, st=None):
        """record a proof obligation"""
        if self.quiet:
            return ok
        if not ok and st is not None and self.infeasible(st):
            ok = True
        self.stats['obligations'] += 1
        d = self.events.setdefault(rule, {})
        k = (inst.block.fn.name if inst is not None else '?', inst.loc() if inst is not None else '?')
        d[k] = d.get(k, 0) + 1
        if ok:
            self.stats['discharged'] += 1
        else:
            self.report(rule, inst, msg, st)
        return ok

    # ---------------------------------------------------------------- globals
    def gaddr(self, name):
        s = self.gsym.get(name)
        if s is None:
            s = newsym('&' + name, 0x10000, ADDR_MAX, kind='global')
            SYMS[s].origin = name
            self.gsym[name] = s
        return V(s)

    def region(self, st, a):
        """classify a normalised address -> (kind, name/base, offset Lin)"""
        w, b = 0, None
        for s, v in a.c.items():
            k = SYMS[s].kind
            if k is None:
                continue
            if k in ('global', 'stack') and v == 1:
                return k, s, a - V(s)
            if k in ('list', 'slotptr'):
                w += Fraction(v, self.scale.get(s, 1))
                b = s
        if w == 1:
            return 'slot', b, None
        return 'data', None, None

    def typed(self, ty, size, name, isptr):
        """fresh symbol of a declared type"""
        k = self.m.di.kind(ty) if ty is not None else ('?',)
        if isptr or k[0] == 'ptr':
            return newsym(name, 0, ADDR_MAX)
        bits = size * 8
        if k[0] == 'int' and k[2]:
            return newsym(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        return newsym(name, 0, (1 << bits) - 1)

    def init_global(self, st, g, off, size, isptr):
        key = (g, off, size, st.tags.get('gen', 0) if self.shared(g, off) else 0)
        r = self.initval.get(key)
        if r is None:
            f = self.goff.get((g, off))
            nm = '%s.%s' % (g, f[0]) if f else '%s+%d' % (g, off)
            s = self.typed(f[2] if f else None, size, nm, isptr)
            SYMS[s].kind = None
            SYMS[s].defn = ('init', key)
            SYMS[s].origin = ('global', g, off, key[3])
            r = V(s)
            conds = []
            r2 = self.mon_init_global(g, off, size, s, f[0] if f else None, key[3])
            if r2 is not None:
                r, conds = r2
            self.initval[key] = (r, conds)
        else:
            r, conds = r
        for c in conds:
            self.add(st, c)
        return r

    def shared(self, g, off):
        return False

    def mon_init_global(self, g, off, size, s, field, gen):
        return None

    # ---------------------------------------------------------------- assumptions
    def add(self, st, c):
        """add a condition known to hold; False when contradictory"""
        t = c[0]
        if t == 'k':
            if not c[1]:
                st.cons.bot = True
            return c[1]
        if t == 'c':
            if c[1] == 'ge':
                r = st.cons.add_ge(c[2])
            elif c[1] == 'eq':
                r = st.cons.add_eq(c[2])
            else:
                r = st.cons.add_ne(c[2])
            if r:
                self._al_facts(st)
            return r
        if t == 'and':
            return self.add(st, c[1]) and self.add(st, c[2])
        if t == 'p2':
            x = st.cons.norm(c[1])
            st.pow2.add(x)
            for a, b in list(st.hb):
                if st.cons.norm(a) == x:
                    st.cons.add_ge(x.mul(2) - b - 1)
                    st.cons.add_ge(b - x)
            self._al_facts(st)
            return not st.cons.bot
        if t == 'np2':
            e = st.cons.norm(c[1])
            if e.isconst() and ispow2(e.k):
                st.cons.bot = True
                return False
            if self.is_pow2(st, e):
                st.cons.bot = True
                return False
            for z in (c[1], e):
                # without its lowest bit it is not zero
                k = lin._TERMS.get(('clearlow', z.key()))
                if k is not None and (st.cons.ge0(e - 1) or st.cons.ne0(e)):
                    st.cons.add_ge(V(k) - 1)
                    for f in [(V(k), e)] + [(V(k), b) for a, b in st.hb if st.cons.norm(a) == e]:
                        if f not in st.hb:
                            st.hb.append(f)
            return not st.cons.bot
        if t == 'or':
            a = self.holds(st, cnot(c[1]))
            if a:
                return self.add(st, c[2])
            if self.holds(st, cnot(c[2])):
                return self.add(st, c[1])
            return True
        raise ValueError(c)

    def _al_facts(self, st):
        if not st.pow2:
            return
        for f in list(st.pow2):
            g = st.cons.norm(f)
            if g is not f and g != f:
                st.pow2.discard(f)
                if not g.isconst():
                    st.pow2.add(g)
                f = g
            if g.isconst():
                if not ispow2(g.k):
                    st.cons.bot = True
                continue
            if len(g.c) == 1 and g.k == 0 and list(g.c.values())[0] == 1:
                if self.quick_ge(st, g - PAGE):
                    q = newsym('alq', 1, 1 << 51)
                    st.pow2.discard(g)
                    st.cons.add_eq(g - V(q).mul(PAGE))
                    st.pow2.add(st.cons.norm(g))
        for i, (v, a) in enumerate(st.al):
            v2, a2 = st.cons.norm(v), st.cons.norm(a)
            if v2 is not v or a2 is not a:
                st.al[i] = (v2, a2)
            g = a2.content()
            if a2.k == 0 and g >= PAGE and g % PAGE == 0 and not v2.divisible(PAGE):
                if len(v2.c) > 0:
                    q = newsym('alv', None, None)
                    st.cons.add_eq(v2 - V(q).mul(PAGE))
                    st.al[i] = (st.cons.norm(v2), a2)

    def is_pow2(self, st, e):
        e = st.cons.norm(e)
        if e.isconst():
            return ispow2(e.k)
        for f in st.pow2:
            if f == e or st.cons.norm(f) == e:
                return True
        return False

    def quick_ge(self, st, e):
        e = tighten(st.cons.norm(e))
        if not e.c:
            return e.k >= 0
        lo, hi = bounds(e)
        if lo is not None and lo >= 0:
            return True
        o = st.cons.ineq.get(tuple(sorted(e.c.items())))
        return o is not None and o.k <= e.k

    def holds(self, st, c):
        """is the condition entailed?"""
        t = c[0]
        if st.cons.bot:
            return True
        if t == 'k':
            return c[1]
        if t == 'c':
            if c[1] == 'ge':
                return st.cons.ge0(c[2])
            if c[1] == 'eq':
                return st.cons.eq0(c[2])
            return st.cons.ne0(c[2])
        if t == 'and':
            return self.holds(st, c[1]) and self.holds(st, c[2])
        if t == 'or':
            return self.holds(st, c[1]) or self.holds(st, c[2])
        if t == 'p2':
            return self.is_pow2(st, c[1])
        return False

    def quick_holds(self, st, c):
        t = c[0]
        if t == 'c':
            if c[1] == 'ge':
                return self.quick_ge(st, c[2])
            e = st.cons.norm(c[2])
            if c[1] == 'eq':
                return not e.c and e.k == 0
            if not e.c:
                return e.k != 0
            return e in st.cons.dis or (-e) in st.cons.dis or self.quick_ge(st, e - 1) or self.quick_ge(st, -e - 1)
        if t == 'and':
            return self.quick_holds(st, c[1]) and self.quick_holds(st, c[2])
        if t == 'or':
            return self.quick_holds(st, c[1]) or self.quick_holds(st, c[2])
        return t == 'k' and c[1]

    def fire(self, st, full=False):
        quick = self.holds if full else self.quick_holds
        ch = True
        while ch and not st.cons.bot:
            ch = False
            for i, (trig, cs) in enumerate(st.pend):
                if quick(st, trig):
                    st.pend = st.pend[:i] + st.pend[i + 1:]
                    for c in cs:
                        self.add_pend(st, c)
                    ch = True
                    break
                if quick(st, cnot(trig)):
                    st.pend = st.pend[:i] + st.pend[i + 1:]
                    ch = True
                    break
                if trig[0] == 'c' and any(c[0] == 'c' and self.quick_holds(st, cnot(c)) for c in cs):
                    # a consequence is known to be false: so is the guard
                    st.pend = st.pend[:i] + st.pend[i + 1:]
                    self.add_pend(st, cnot(trig))
                    ch = True
                    break

    def add_pend(self, st, c):
        """add an invariant; ('imp', trigger, [conds]) waits for its guard"""
        if c[0] == 'imp':
            if self.quick_holds(st, c[1]):
                for d in c[2]:
                    self.add_pend(st, d)
            else:
                st.pend.append((c[1], c[2]))
        else:
            self.add(st, c)

    def assume(self, st, c, inst=None):
        """refine st (consumed) by c; returns the list of feasible refinements"""
        t = c[0]
        if t == 'k':
            return [st] if c[1] else []
        if t == 'and':
            out = []
            for s in self.assume(st, c[1], inst):
                out += self.assume(s, c[2], inst)
            return out
        if t == 'or':
            s2 = st.copy()
            out = self.assume(st, c[1], inst)
            for s in self.assume(s2, cnot(c[1]), inst):
                out += self.assume(s, c[2], inst)
            return out
        if t == 'c' and c[1] == 'ne':
            # small finite ranges: nothing special; keep as disequality
            pass
        if not self.add(st, c):
            return []
        if st.cons.bot:
            return []
        if t == 'c':
            self.index_from_table(st, c[2])
        self.fire(st)
        if st.cons.bot:
            return []
        self.mon.on_assume(st, c, inst)
        return [st]

    # ---------------------------------------------------------------- integer canonicalisation
    def toU(self, st, x, w):
        x = st.cons.norm(x)
        if not x.c:
            return C(x.k % (1 << w))
        m = 1 << w
        lo, hi = bounds(x)
        if lo is not None and lo >= 0 and hi is not None and hi < m:
            return x
        a = (lo is not None and lo >= 0) or st.cons.ge0(x)
        b = (hi is not None and hi < m) or st.cons.ge0(C(m - 1) - x)
        if not b:
            b = self.mul_lemma(st, x, m)
        if a and b:
            return x
        if b and ((lo is not None and lo >= -m) or st.cons.ge0(x + m)) and ((hi is not None and hi < 0) or st.cons.ge0(-x - 1)):
            return st.cons.norm(x + m)
        # reduce coefficients mod 2^w first
        c = {s: self._cen(v, m) for s, v in x.c.items()}
        x = Lin({s: v for s, v in c.items() if v}, self._cen(x.k, m))
        k, new = term('wrap', (x, w), 'wrapU%d' % w)
        lo, hi = bounds(x)
        if new:
            SYMS[k].lo = None if lo is None else lo // m
            SYMS[k].hi = None if hi is None else hi // m
        y = x - V(k).mul(m)
        st.cons.add_ge(y)
        st.cons.add_ge(C(m - 1) - y)
        if a:
            st.cons.add_ge(V(k))
        if b:
            st.cons.add_ge(-V(k))
        return st.cons.norm(y)

    @staticmethod
    def _cen(v, m):
        r = v % m
        return r - m if r > m // 2 else r

    def toS(self, st, x, w):
        x = st.cons.norm(x)
        h = 1 << (w - 1)
        if not x.c:
            r = x.k % (2 * h)
            return C(r - 2 * h if r >= h else r)
        lo, hi = bounds(x)
        if lo is not None and lo >= -h and hi is not None and hi < h:
            return x
        if st.cons.ge0(x + h) and st.cons.ge0(C(h - 1) - x):
            return x
        c = {s: self._cen(v, 2 * h) for s, v in x.c.items()}
        x = Lin({s: v for s, v in c.items() if v}, self._cen(x.k, 2 * h))
        k, new = term('wrapS', (x, w), 'wrapS%d' % w)
        lo, hi = bounds(x)
        if new:
            SYMS[k].lo = None if lo is None else (lo + h) // (2 * h)
            SYMS[k].hi = None if hi is None else (hi + h) // (2 * h)
        y = x - V(k).mul(2 * h)
        st.cons.add_ge(y + h)
        st.cons.add_ge(C(h - 1) - y)
        return st.cons.norm(y)

    def mul_lemma(self, st, x, m):
        """x = mul(a,c): bounded when a <= N udiv c was established"""
        if len(x.c) != 1 or x.k != 0:
            return False
        (s, v), = x.c.items()
        d = SYMS[s].defn
        if v != 1 or not d or d[0] != 'mul':
            return False
        for a, c in ((d[1], d[2]), (d[2], d[1])):
            for key, q in list(lin._TERMS.items()):
                if key[0] == 'udiv':
                    n, c2 = SYMS[q].defn[1], SYMS[q].defn[2]
                    if st.cons.norm(c2) == st.cons.norm(c) and st.cons.ge0(V(q) - a):
                        nlo, nhi = bounds(n)
                        if nhi is not None and nhi < m:
                            st.cons.add_ge(n - x)
                            return True
            # zero factor
            if st.cons.eq0(c):
                st.cons.add_eq(x)
                return True
        return False

    def floordiv(self, st, x, c):
        """floor(x/c) for constant c>0, canonical non-negative x"""
        x = st.cons.norm(x)
        if not x.c:
            return C(x.k // c)
        if c == 1:
            return x
        # exact part
        div = Lin({s: v for s, v in x.c.items() if v % c == 0}, 0)
        rest = Lin({s: v for s, v in x.c.items() if v % c}, x.k)
        q0, r0 = divmod(rest.k, c)
        rest = Lin(rest.c, r0)
        q = div.div(c) + q0
        if not rest.c:
            return q
        # try to decide floor(rest/c) for small constant values
        lo, hi = bounds(rest)
        if lo is not None and hi is not None and lo // c == hi // c:
            return q + lo // c
        f, new = term('floor', (rest, c), 'fl%d' % c)
        if new and lo is not None:
            SYMS[f].lo = lo // c
        if new and hi is not None:
            SYMS[f].hi = hi // c
        st.cons.add_ge(rest - V(f).mul(c))
        st.cons.add_ge(V(f).mul(c) + (c - 1) - rest)
        return st.cons.norm(q + V(f))

    def mul(self, st, a, b, w):
        a, b = st.cons.norm(a), st.cons.norm(b)
        if not a.c:
            return b.mul(a.k)
        if not b.c:
            return a.mul(b.k)
        a, b = self.toU(st, a, w), self.toU(st, b, w)
        for x, y in ((a, b), (b, a)):
            for n in (0, 1, 2):
                if self.quick_ge(st, x - n) and st.cons.eq0(x - n):
                    return y.mul(n)
        ga, gb = a.content(), b.content()
        ga = gcd(ga, a.k) if a.k else ga
        gb = gcd(gb, b.k) if b.k else gb
        a1, b1 = a.div(ga), b.div(gb)
        if (b1.key() < a1.key()):
            a1, b1 = b1, a1
        s, new = term('mul', (a1, b1), 'mul', 0, None)
        return V(s).mul(ga * gb)

    # ---------------------------------------------------------------- values
    def val(self, st, op, bits=64):
        t = op[0]
        if t == 'c':
            return C(op[1])
        if t in 'va' and len(op) == 2:
            v = st.env.get(op)
            if v is None:
                v = V(newsym('undef', 0, (1 << (bits or 64)) - 1))
                st.env[op] = v
            return v
        if t == 'g':
            return self.gaddr(op[1]) + op[2]
        if t == 'undef':
            return V(newsym('undef', 0, (1 << (bits or 64)) - 1))
        raise GiveUp('operand %r' % (op,))

    def ival(self, st, op, bits=64):
        v = self.val(st, op, bits)
        if isinstance(v, tuple):      # condition used as integer
            if v[0] == 'k':
                return C(1 if v[1] else 0)
            s = newsym('b', 0, 1)
            # keep the link lazily by recording an implication pair
            st.pend.append((v, [ceq(V(s) - 1)]))
            st.pend.append((cnot(v), [ceq(V(s))]))
            return V(s)
        return v

    def cond(self, st, op):
        if op[0] == 'c':
            return TRUE if op[1] & 1 else FALSE
        v = self.val(st, op, 1)
        if isinstance(v, tuple):
            return v
        v = st.cons.norm(v)
        if not v.c:
            return TRUE if v.k & 1 else FALSE
        return cne(v)

    # ---------------------------------------------------------------- slots
    def slot_key(self, st, a):
        """record address and field offset for an address inside the record table"""
        k = a.k % self.slot_size
        return a - k, k

    def find_slot(self, st, h, create=True, inst=None):
        h = st.cons.norm(h)
        s = st.slots.get(h)
        if s is not None:
            return h, s
        # renormalise keys
        for k in list(st.slots):
            k2 = st.cons.norm(k)
            if k2 != k:
                v = st.slots.pop(k)
                if k2 not in st.slots:
                    st.slots[k2] = v
        s = st.slots.get(h)
        if s is not None:
            return h, s
        for k in list(st.slots):
            d = k - h
            if d.c and any(SYMS[x].kind in ('list',) for x in d.c):
                continue
            if d.c and st.cons.eq0(d):
                return k, st.slots[k]
        if not create:
            return h, None
        self.write_back(st, h, inst, True)
        s = self.make_slot(st, h)
        st.slots[h] = s
        self.fire(st)
        self.mon.on_slot_new(st, h, s)
        return h, s

    def distinct(self, st, h, k):
        """two record addresses are known to be different"""
        d = st.cons.norm(h - k)
        if not d.c:
            return d.k != 0
        if st.cons.ne0(d):
            return True
        a, b = st.slots.get(h), st.slots.get(k)
        if a is None or b is None:
            return False
        for n in self.DISTINCT:
            f = self.slot_fields.get(n)
            if f is None:
                continue
            x, y = a.cells.get(f[0]), b.cells.get(f[0])
            if x is None or y is None:
                continue
            v = st.cons.norm(x[1] - y[1])
            if (not v.c and v.k) or (v.c and st.cons.ne0(v)):
                st.cons.add_ne(d)
                return True
        return False

    DISTINCT = ('state', 'internalSize')

    def write_back(self, st, h, inst, dirty_only):
        """forget what is known about records that may be the one at h: with dirty_only before h is read (a modified record
        is checked and becomes part of the summarised table), otherwise because h is written"""
        for k in list(st.slots):
            if k == h:
                continue
            sl = st.slots[k]
            if dirty_only and not sl.dirty:
                continue
            if self.distinct(st, h, k):
                continue
            if sl.dirty:
                self.mon.on_slot_drop(st, k, sl, inst)
            sl = st.slots.pop(k, None)
            if dirty_only and sl is not None:
                # its contents stay known until a record that may be the same one is written
                st.slots[k] = Slot(sl.cells, {o: v for o, (z, v) in sl.cells.items()}, False)

    def make_slot(self, st, h, fresh=False):
        self.stats['slots'] += 1
        cells = {}
        f = {}
        for n, (o, sz, ty) in self.slot_fields.items():
            f[n] = self.typed(ty, sz, 'slot.' + n, False)
            cells[o] = (sz, V(f[n]))
        self.slot_invariants(st, {n: V(x) for n, x in f.items()}, h)
        for o in list(cells):
            cells[o] = (cells[o][0], st.cons.norm(cells[o][1]))
        return Slot(cells, {o: v for o, (z, v) in cells.items()})

    def slot_invariants(self, st, f, h):
        pass

    def sf(self, st, h, name):
        h, s = self.find_slot(st, h)
        o = self.slot_fields[name][0]
        return st.cons.norm(s.cells[o][1])

    # ---------------------------------------------------------------- memory
    def load(self, st, a, size, isptr, inst, bits):
        a = st.cons.norm(a)
        kind, base, off = self.region(st, a)
        if kind == 'global':
            g = SYMS[base].origin
            G = self.m.globals.get(g)
            if not off.c:
                self.mon.on_global_load(st, g, off.k, size, inst)
                return self.gload(st, g, off.k, size, isptr)
            return self.table_load(st, g, off, size, isptr, inst)
        if kind == 'stack':
            if not off.c:
                cells = st.mem.get(V(base), {})
                c = cells.get(off.k)
                if c and c[0] == size:
                    return c[1]
            s = newsym('stk', 0, ADDR_MAX if isptr else (1 << (size * 8)) - 1)
            SYMS[s].origin = ('data', a, size)
            if not off.c:
                cells = dict(st.mem.get(V(base), {}))
                if not any(o < off.k + size and off.k < o + z for o, (z, v) in cells.items()):
                    cells[off.k] = (size, V(s))
                    st.mem[V(base)] = cells
            return V(s)
        if kind == 'slot':
            h, fo = self.slot_key(st, a)
            h, sl = self.find_slot(st, h)
            self.mon.on_slot_load(st, h, fo, size, inst)
            c = sl.cells.get(fo)
            if c and c[0] == size:
                return st.cons.norm(c[1])
            return V(newsym('slot?', 0, ADDR_MAX if isptr else (1 << (size * 8)) - 1))
        s = newsym('ld', 0, ADDR_MAX if isptr else (1 << (size * 8)) - 1)
        SYMS[s].origin = ('data', a, size)
        self.mon.on_data_load(st, a, size, s, inst)
        return V(s)

    def gload(self, st, g, off, size, isptr):
        G = self.m.globals.get(g)
        base = self.gaddr(g)
        cells = st.mem.get(base)
        if cells:
            c = cells.get(off)
            if c and c[0] == size:
                return st.cons.norm(c[1])
        if G and G.const:
            c = G.cells.get(off)
            if c:
                if c[1][0] == 'c' and c[0] == size:
                    return C(c[1][1])
                if c[1][0] == 'g':
                    return self.gaddr(c[1][1]) + c[1][2]
            for o, (z, v) in G.cells.items():
                if v[0] == 's' and o <= off < o + z and size == 1:
                    return C(v[1][off - o])
            if not any(o <= off < o + z for o, (z, v) in G.cells.items()):
                return C(0)
        v = self.init_global(st, g, off, size, isptr)
        if cells is None or not any(o < off + size and off < o + z for o, (z, _) in cells.items()):
            # partial overlaps keep the write history; otherwise remember the value just read
            cells = dict(cells or {})
            cells[off] = (size, v)
            st.mem[base] = cells
        return st.cons.norm(v)

    def table_load(self, st, g, off, size, isptr, inst):
        G = self.m.globals.get(g)
        off = st.cons.norm(off)
        if G and G.const and not G.string:
            st_, co = off.content(), off.k
            vals = {o: v for o, (z, v) in G.cells.items() if z == size and (o - co) % max(st_, 1) == 0}
            consts = [v[1] for v in vals.values() if v[0] == 'c']
            nm = 'tbl.%s+%d' % (g, co % max(st_, 1))
            if vals and len(consts) == len(vals):
                s, new = term('tbl', (g, off, size), nm, min(consts), max(consts))
            else:
                s, new = term('tbl', (g, off, size), nm, 0x10000 if isptr else 0,
                              ADDR_MAX if isptr else (1 << (size * 8)) - 1)
            return V(s)
        s = newsym('arr.%s' % g, 0, ADDR_MAX if isptr else (1 << (size * 8)) - 1)
        SYMS[s].origin = ('garr', g, off, size)
        if size == 1:
            SYMS[s].origin = ('data', self.gaddr(g) + off, 1)
            self.mon.on_data_load(st, self.gaddr(g) + off, 1, s, inst)
        else:
            f = self.goff.get((g, off.k))
            if f:
                k = self.m.di.kind(f[2])
                if k[0] == 'array':
                    k2 = self.m.di.kind(k[1])
                    if k2[0] == 'int' and k2[2]:
                        SYMS[s].lo, SYMS[s].hi = -(1 << (size * 8 - 1)), (1 << (size * 8 - 1)) - 1
        return V(s)

    def store(self, st, a, v, size, inst):
        a = st.cons.norm(a)
        kind, base, off = self.region(st, a)
        if kind in ('global', 'stack'):
            key = V(base)
            if kind == 'global':
                g = SYMS[base].origin
                if not off.c:
                    old = self.gload(st, g, off.k, size, False)
                    self.mon.on_global_store(st, g, off.k, size, v, old, inst)
            if off.c:
                cells = dict(st.mem.get(key, {}))
                lo, hi = bounds(off)
                for o in list(cells):
                    if (hi is None or o <= hi + size) and (lo is None or o + cells[o][0] > lo):
                        if kind == 'global' and (g, o) in self.goff and self._arr_member(g, off.k, o):
                            continue
                        cells[o] = (cells[o][0], V(newsym('weak', None if False else 0, (1 << (8 * cells[o][0])) - 1)))
                st.mem[key] = cells
                self.mon.on_data_store(st, a, size, v, inst)
                return
            cells = dict(st.mem.get(key, {}))
            k = off.k
            for o in list(cells):
                if o < k + size and k < o + cells[o][0] and o != k:
                    del cells[o]
            cells[k] = (size, v)
            st.mem[key] = cells
            return
        if kind == 'slot':
            h, fo = self.slot_key(st, a)
            h, sl = self.find_slot(st, h)
            old = sl.cells.get(fo, (0, None))[1]
            self.mon.on_slot_store(st, h, fo, size, v, old, inst)
            h, sl = self.find_slot(st, h)
            self.write_back(st, h, inst, False)
            cells = dict(sl.cells)
            for o in list(cells):
                if o < fo + size and fo < o + cells[o][0] and o != fo:
                    del cells[o]
            cells[fo] = (size, v)
            st.slots[h] = Slot(cells, sl.init, True, sl.fresh)
            return
        self.mon.on_data_store(st, a, size, v, inst)

    def _arr_member(self, g, koff, o):
        """an indexed store through an array member does not touch the other members"""
        for n, (mo, ms, ty) in self.gfields.get(g, {}).items():
            if self.m.di.kind(ty)[0] == 'array' and mo <= koff < mo + max(ms, 1):
                return not (mo <= o < mo + ms)
        return False

    def copy_mem(self, st, dst, src, n, inst):
        dst, src, n = st.cons.norm(dst), st.cons.norm(src), st.cons.norm(n)
        kd, bd, od = self.region(st, dst)
        ks, bs, os_ = self.region(st, src)
        if kd == 'slot' and ks == 'slot' and not n.c and n.k == self.slot_size:
            hs, s = self.find_slot(st, src)
            hd, d = self.find_slot(st, dst)
            for o, (z, v) in sorted(s.cells.items()):
                if o >= 0:
                    self.mon.on_slot_load(st, hs, o, z, inst)
            for o, (z, v) in sorted(s.cells.items()):
                if o >= 0:
                    self.store(st, dst + o, v, z, inst)
            return
        if kd == 'stack' and not od.c and not n.c:
            cells = {o: c for o, c in st.mem.get(V(bd), {}).items() if o + c[0] <= od.k or o >= od.k + n.k}
            srcc = {}
            if ks == 'slot':
                hs, s = self.find_slot(st, src)
                srcc = {o: c for o, c in s.cells.items() if o >= 0}
                sb = 0
            elif ks == 'stack' and not os_.c:
                srcc = st.mem.get(V(bs), {})
                sb = os_.k
            for o, c in srcc.items():
                if sb <= o and o + c[0] <= sb + n.k:
                    cells[od.k + o - sb] = c
            st.mem[V(bd)] = cells
            return
        if kd == 'slot' and ks == 'stack' and not n.c and n.k == self.slot_size and not os_.c:
            for o, c in sorted(st.mem.get(V(bs), {}).items()):
                if os_.k <= o < os_.k + n.k:
                    self.store(st, dst + (o - os_.k), c[1], c[0], inst)
            return
        if kd == 'stack':
            st.mem.pop(V(bd), None)
        self.mon.on_copy(st, dst, src, n, inst)

    def fill_mem(self, st, dst, v, n, inst):
        dst, n = st.cons.norm(dst), st.cons.norm(n)
        kd, bd, od = self.region(st, dst)
        if kd == 'stack':
            st.mem.pop(V(bd), None)
            return
        if kd == 'slot' and not n.c and n.k % self.slot_size == 0 and n.k <= 4 * self.slot_size and not v.c and v.k == 0:
            for i in range(0, n.k, self.slot_size):
                for nme, (o, z, ty) in self.slot_fields.items():
                    self.store(st, dst + i + o, C(0), z, inst)
            return
        self.mon.on_fill(st, dst, v, n, inst)

    # ---------------------------------------------------------------- instructions
    def exec_block(self, F, b, st):
        """returns list of (succ index | None, state, ret, kind)"""
        B = F.blocks[b]
        self.stats['blocks'] += 1
        work = [(st, 0)]
        out = []
        while work:
            st, i = work.pop()
            n = len(B.insts)
            while i < n:
                I = B.insts[i]
                i += 1
                if I.op == 'phi':
                    continue
                self.stats['insts'] += 1
                r = self.step(F, B, I, st, out)
                if r is None:
                    st = None
                    break
                if r is not True:
                    # several successor states
                    if self.trace_branch and len(r) > 1 and I.op not in ('call', 'invoke') and self.depth <= self.trace_depth \
                            and B.idx not in self.loop_blocks(F):
                        for j, s in enumerate(r):
                            s.tags[('b', self.depth, B.idx, I.id)] = j
                    for s in r[1:]:
                        work.append((s, i))
                    if not r:
                        st = None
                        break
                    st = r[0]
                if st.cons.bot:
                    st = None
                    break
        return out

    _uids = {}

    def unsigned_ids(self, F):
        """values that are compared, divided or shifted as unsigned numbers and never as signed ones"""
        r = self._uids.get(F.name)
        if r is None:
            u, g = set(), set()
            for B in F.blocks:
                for I in B.insts:
                    d = None
                    if I.op == 'icmp':
                        d = {'u': u, 's': g}.get(I.x[0][0])
                    elif I.op in ('udiv', 'urem', 'lshr'):
                        d = u
                    elif I.op in ('sdiv', 'srem', 'ashr'):
                        d = g
                    if d is not None:
                        d.update(o[1] for o in I.ops if o[0] == 'v')
            ch = True
            while ch:
                ch = False
                for B in F.blocks:
                    for I in B.insts:
                        if I.op == 'phi':
                            for d in (u, g):
                                if I.id in d:
                                    n = {o[1] for _, o in I.x if o[0] == 'v'} - d
                                    if n:
                                        d |= n
                                        ch = True
            r = self._uids[F.name] = u - g
        return r

    def goto(self, F, B, succ, st, out):
        T = F.blocks[succ]
        phis = []
        for I in T.insts:
            if I.op != 'phi':
                break
            for p, o in I.x:
                if p == B.idx:
                    if I.bits == 1 and not I.isptr:
                        v = self.cond(st, o)
                    else:
                        v = self.val(st, o, I.bits)
                        if isinstance(v, tuple):
                            v = self.ival(st, o, I.bits)
                        if o[0] == 'c' and not I.isptr and isinstance(v, Lin) and not v.c and v.k < 0 and I.id in self.unsigned_ids(F):
                            v = C(v.k % (1 << I.bits))
                    phis.append((('v', I.id), v))
                    break
        live = F.live_in[succ]
        env = st.env
        st.env = {k: v for k, v in env.items() if k in live}
        for k, v in phis:
            if k in live:
                st.env[k] = v
        self.mon.on_block_end(st)
        out.append((succ, st, None, 'goto'))

    def setv(self, st, I, v):
        st.env[('v', I.id)] = v

    def step(self, F, B, I, st, out):
        op = I.op
        e = st.env
        if op == 'load':
            a = self.val(st, I.ops[0])
            self.setv(st, I, self.load(st, a, I.size, I.isptr, I, I.bits))
            return True
        if op == 'store':
            a = self.val(st, I.ops[1])
            v = self.ival(st, I.ops[0], I.bits)
            if I.bits and not I.isptr and I.bits < I.size * 8:
                v = self.toU(st, v, I.bits)
            self.store(st, a, v, I.size, I)
            return True
        if op == 'alloca':
            s = newsym('&stk.' + (I.name or str(I.id)), 0x10000, ADDR_MAX, kind='stack')
            SYMS[s].origin = (F.name, I.name)
            self.setv(st, I, V(s))
            return True
        if op == 'gep':
            a = self.val(st, I.ops[0])
            for s in I.x:
                if s[0] == 'c':
                    a = a + s[1]
                else:
                    ix = self.ival(st, s[1], s[3])
                    ix = self.toS(st, ix, s[3]) if s[3] < 64 else self.idx64(st, ix)
                    a = a + ix.mul(s[2])
            self.setv(st, I, st.cons.norm(a))
            return True
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            v = self.val(st, I.ops[0])
            if op == 'inttoptr' and not isinstance(v, tuple):
                v = self.toU(st, v, 64)
            self.setv(st, I, v)
            return True
        if op == 'icmp':
            self.setv(st, I, self.icmp(st, I))
            return True
        if op in ('add', 'sub'):
            if I.bits == 1:
                return self.havoc_inst(st, I)
            x, y = self.ival(st, I.ops[0], I.bits), self.ival(st, I.ops[1], I.bits)
            self.setv(st, I, st.cons.norm(x + y if op == 'add' else x - y))
            return True
        if op == 'mul':
            x, y = self.ival(st, I.ops[0], I.bits), self.ival(st, I.ops[1], I.bits)
            self.setv(st, I, self.mul(st, x, y, I.bits))
            return True
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return self.division(st, I)
        if op in ('shl', 'lshr', 'ashr'):
            x, y = self.ival(st, I.ops[0], I.bits), st.cons.norm(self.ival(st, I.ops[1], I.bits))
            if y.c:
                return self.havoc_inst(st, I)
            if op == 'shl':
                v = x.mul(1 << y.k)
            elif op == 'lshr':
                v = self.floordiv(st, self.toU(st, x, I.bits), 1 << y.k)
            else:
                v = self.floordiv(st, self.toS(st, x, I.bits), 1 << y.k)
            self.setv(st, I, v)
            return True
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, I)
        if op == 'trunc':
            v = self.ival(st, I.ops[0], I.x)
            if I.bits == 1:
                # low bit
                u = self.toU(st, v, I.x)
                r = u - self.floordiv(st, u, 2).mul(2)
                self.setv(st, I, cne(r) if r.c else (TRUE if r.k else FALSE))
            else:
                self.setv(st, I, v)
            return True
        if op == 'zext':
            if I.x == 1:
                c = self.cond(st, I.ops[0])
                return self.split_bool(st, I, c, 1)
            v = self.ival(st, I.ops[0], I.x)
            self.setv(st, I, self.toU(st, v, I.x))
            return True
        if op == 'sext':
            if I.x == 1:
                c = self.cond(st, I.ops[0])
                return self.split_bool(st, I, c, -1)
            v = self.ival(st, I.ops[0], I.x)
            v = self.toS(st, v, I.x)
            if self.trace_branch and v.c and not self.quick_ge(st, v) and not self.quick_ge(st, C(-1) - v):
                # the sign decides what the wider value is
                L = []
                for j, c in enumerate((cge(v), cge(C(-1) - v))):
                    for s in self.assume(st.copy(), c, I):
                        self.setv(s, I, s.cons.norm(v if j == 0 else v + (1 << I.bits)))
                        L.append(s)
                return L
            self.setv(st, I, v)
            return True
        if op == 'select':
            c = self.cond(st, I.ops[0])
            res = []
            s2 = st.copy()
            for s in self.assume(st, c, I):
                self.setv(s, I, self.cond(s, I.ops[1]) if I.bits == 1 else self.val(s, I.ops[1], I.bits))
                res.append(s)
            for s in self.assume(s2, cnot(c), I):
                self.setv(s, I, self.cond(s, I.ops[2]) if I.bits == 1 else self.val(s, I.ops[2], I.bits))
                res.append(s)
            return res
        if op == 'br':
            if len(I.x) == 1:
                self.goto(F, B, I.x[0], st, out)
                return None
            c = self.cond(st, I.ops[0])
            s2 = st.copy()
            L0, L1 = self.assume(st, c, I), self.assume(s2, cnot(c), I)
            if self.trace_branch and L0 and L1 and self.depth <= self.trace_depth and B.idx not in self.loop_blocks(F):
                for j, L in enumerate((L0, L1)):
                    for s in L:
                        s.tags[('b', self.depth, B.idx)] = j
            for s in L0:
                self.goto(F, B, I.x[0], s, out)
            for s in L1:
                self.goto(F, B, I.x[1], s, out)
            return None
        if op == 'switch':
            d, cases, w = I.x
            v = self.ival(st, I.ops[0], w)
            v = self.toS(st, v, w) if any(c < 0 for c, _ in cases) else self.toU(st, v, w)
            rest = [st]
            for c, t in cases:
                nr = []
                for s in rest:
                    s2 = s.copy()
                    for s3 in self.assume(s2, ceq(v - c), I):
                        self.goto(F, B, t, s3, out)
                    nr += self.assume(s, cne(v - c), I)
                rest = nr
            for s in rest:
                self.goto(F, B, d, s, out)
            return None
        if op == 'ret':
            v = None
            if I.ops:
                v = self.cond(st, I.ops[0]) if F.retbits == 1 else self.val(st, I.ops[0], F.retbits)
                if isinstance(v, Lin):
                    v = st.cons.norm(v)
            self.mon.on_return(st, F.name, v, I)
            out.append((None, st, v, 'ret'))
            return None
        if op == 'unreachable':
            return None
        if op in ('call', 'invoke'):
            return self.call(F, B, I, st, out)
        if op == 'resume':
            out.append((None, st, None, 'throw'))
            return None
        if op in ('landingpad', 'extractvalue', 'insertvalue', 'va_arg'):
            if op == 'extractvalue':
                agg = st.env.get(I.ops[0]) if I.ops[0][0] in 'va' else None
                if isinstance(agg, list):
                    self.setv(st, I, agg[I.x[0]])
                    return True
            return self.havoc_inst(st, I)
        if op in ('cmpxchg', 'atomicrmw'):
            return self.atomic(st, I)
        if op == 'fence':
            return True
        return self.havoc_inst(st, I)

    def atomic(self, st, I):
        a = self.val(st, I.ops[0])
        self.store(st, a, V(newsym('atomic', 0, (1 << 64) - 1)), 8, I)
        return self.havoc_inst(st, I)

    def idx64(self, st, ix):
        ix = st.cons.norm(ix)
        lo, hi = bounds(ix)
        if not ix.c:
            return C(ix.k - M64 if ix.k >= M64 // 2 else ix.k)
        return ix

    def havoc_inst(self, st, I):
        if I.void:
            return True
        if I.bits == 1 and not I.isptr:
            self.setv(st, I, cne(V(newsym('h', 0, 1))))
        else:
            self.setv(st, I, V(newsym('h.%s' % I.op, 0, ADDR_MAX if I.isptr else (1 << (I.bits or 64)) - 1)))
        return True

    def split_bool(self, st, I, c, one):
        if c[0] == 'k':
            self.setv(st, I, C(one if c[1] else 0))
            return True
        s2 = st.copy()
        res = []
        for s in self.assume(st, c, I):
            self.setv(s, I, C(one))
            res.append(s)
        for s in self.assume(s2, cnot(c), I):
            self.setv(s, I, C(0))
            res.append(s)
        return res

    def icmp(self, st, I):
        pred, w = I.x
        a, b = I.ops
        if w == 1:
            ca, cb = self.cond(st, a), self.cond(st, b)
            if cb[0] != 'k':
                ca, cb = cb, ca
            if cb[0] == 'k':
                same = ca if cb[1] else cnot(ca)
                return same if pred == 'eq' else cnot(same)
            return cne(V(newsym('h', 0, 1)))
        x, y = self.ival(st, a, w), self.ival(st, b, w)
        return self.cmp(st, pred, x, y, w)

    def inrange(self, st, x, lo, hi):
        l, h = bounds(x)
        return (l is not None and l >= lo or st.cons.ge0(x - lo)) and (h is not None and h <= hi or st.cons.ge0(C(hi) - x))

    def cmp(self, st, pred, x, y, w):
        x, y = st.cons.norm(x), st.cons.norm(y)
        m = 1 << w
        if pred in ('eq', 'ne'):
            r = self.pow2_pattern(st, x, y)
            if r is not None:
                return r if pred == 'eq' else cnot(r)
            d = x - y
            if not d.c:
                c = TRUE if d.k % m == 0 else FALSE
                return c if pred == 'eq' else cnot(c)
            if self.inrange(st, x, 0, m - 1) and self.inrange(st, y, 0, m - 1):
                pass
            elif self.inrange(st, x, -(m >> 1), (m >> 1) - 1) and self.inrange(st, self.toS(st, y, w), -(m >> 1), (m >> 1) - 1):
                y = self.toS(st, y, w)
            else:
                x, y = self.toU(st, x, w), self.toU(st, y, w)
            d = st.cons.norm(x - y)
            if not d.c:
                c = TRUE if d.k == 0 else FALSE
            else:
                c = ceq(d)
            return c if pred == 'eq' else cnot(c)
        if pred[0] == 'u':
            x, y = self.toU(st, x, w), self.toU(st, y, w)
        else:
            x, y = self.toS(st, x, w), self.toS(st, y, w)
        p = pred[1:]
        d = {'gt': x - y - 1, 'ge': x - y, 'lt': y - x - 1, 'le': y - x}[p]
        d = st.cons.norm(d)
        if not d.c:
            return TRUE if d.k >= 0 else FALSE
        return cge(d)

    def pow2_pattern(self, st, x, y):
        """x & -x == x   /   x & (x-1) == 0   /  popcount(x) == 1"""
        for p, q in ((x, y), (y, x)):
            if len(p.c) == 1 and p.k == 0:
                (s, v), = p.c.items()
                d = SYMS[s].defn
                if v == 1 and d and d[0] == 'lowbit' and st.cons.norm(d[1]) == q:
                    z = d[1]
                    return ('or', ceq(z), ('p2', z)) if not st.cons.ge0(z - 1) else ('p2', z)
                if v == 1 and d and d[0] == 'clearlow' and not q.c and q.k == 0:
                    z = d[1]
                    return ('or', ceq(z), ('p2', z)) if not st.cons.ge0(z - 1) else ('p2', z)
                if v == 1 and d and d[0] == 'popcount' and not q.c and q.k == 1:
                    return ('p2', d[1])
        return None

    def division(self, st, I):
        w = I.bits
        x, y = self.ival(st, I.ops[0], w), self.ival(st, I.ops[1], w)
        if I.op[0] == 's':
            x, y = self.toS(st, x, w), self.toS(st, y, w)
            if not y.c and y.k > 0 and not st.cons.ge0(x):
                # truncating division of a possibly negative value
                s2 = st.copy()
                res = []
                for s in self.assume(st, cge(x), I):
                    q = self.floordiv(s, x, y.k)
                    self.setv(s, I, q if I.op == 'sdiv' else x - q.mul(y.k))
                    res.append(s)
                for s in self.assume(s2, cge(-x - 1), I):
                    q = self.floordiv(s, -x, y.k)
                    self.setv(s, I, -q if I.op == 'sdiv' else x + q.mul(y.k))
                    res.append(s)
                return res
            if y.c and not (st.cons.ge0(x) and st.cons.ge0(y - 1)):
                return self.havoc_inst(st, I)
        else:
            x, y = self.toU(st, x, w), self.toU(st, y, w)
        if not y.c:
            if y.k == 0:
                return None
            q = self.floordiv(st, x, abs(y.k))
            if y.k < 0:
                q = -q
            self.setv(st, I, q if I.op in ('udiv', 'sdiv') else st.cons.norm(x - q.mul(y.k)))
            return True
        q = None
        for n in (0, 1, 2, 3):
            if st.cons.ge0(x - y.mul(n)) and st.cons.ge0(y.mul(n + 1) - x - 1):
                q = C(n)
                break
        if q is None:
            s, new = term('udiv', (x, y), 'udiv', 0, None)
            q = V(s)
            lo, hi = bounds(x)
            if new:
                SYMS[s].hi = hi
            st.cons.add_ge(x - q)
        if I.op in ('udiv', 'sdiv'):
            self.setv(st, I, q)
        else:
            if not q.c:
                self.setv(st, I, st.cons.norm(x - y.mul(q.k)))
            else:
                s, new = term('urem', (x, y), 'urem', 0, None)
                st.cons.add_ge(x - V(s))
                st.cons.add_ge(y - V(s) - 1)
                self.setv(st, I, V(s))
        return True

    def bitop(self, st, I):
        w = I.bits
        op = I.op
        if w == 1:
            a, b = self.cond(st, I.ops[0]), self.cond(st, I.ops[1])
            if op == 'and':
                v = cand(a, b)
            elif op == 'or':
                v = cor(a, b)
            else:
                if a[0] == 'k':
                    a, b = b, a
                if b[0] == 'k':
                    v = cnot(a) if b[1] else a
                else:
                    v = cor(cand(a, cnot(b)), cand(cnot(a), b))
            self.setv(st, I, v)
            return True
        x, y = self.ival(st, I.ops[0], w), self.ival(st, I.ops[1], w)
        x, y = st.cons.norm(x), st.cons.norm(y)
        if op == 'xor':
            for p, q in ((x, y), (y, x)):
                if not q.c and (q.k + 1) % (1 << w) == 0:
                    self.setv(st, I, -p - 1)
                    return True
                if not q.c and q.k == 0:
                    self.setv(st, I, p)
                    return True
            return self.havoc_inst(st, I)
        if op == 'or':
            for p, q in ((x, y), (y, x)):
                if not q.c and q.k == 0:
                    self.setv(st, I, p)
                    return True
            xu, yu = self.toU(st, x, w), self.toU(st, y, w)
            s, new = term('or', tuple(sorted((xu, yu), key=lambda z: z.key())), 'or', 0, (1 << w) - 1)
            st.cons.add_ge(V(s) - xu)
            st.cons.add_ge(V(s) - yu)
            st.cons.add_ge(xu + yu - V(s))
            self.setv(st, I, V(s))
            return True
        # and
        for p, q in ((x, y), (y, x)):
            if q.c:
                continue
            mask = q.k % (1 << w)
            if mask == (1 << w) - 1:
                self.setv(st, I, p)
                return True
            if mask == 0:
                self.setv(st, I, C(0))
                return True
            if mask & (mask + 1) == 0:
                n = mask + 1
                if all(v % n == 0 for v in p.c.values()):
                    self.setv(st, I, C(p.k % n))
                    return True
                lo, hi = bounds(p)
                if lo is not None and lo >= 0 and hi is not None and hi < n:
                    self.setv(st, I, p)
                    return True
                u = self.toU(st, p, w)
                self.setv(st, I, st.cons.norm(u - self.floordiv(st, u, n).mul(n)))
                return True
            inv = ((1 << w) - mask)
            if ispow2(inv):
                u = self.toU(st, p, w)
                self.setv(st, I, self.floordiv(st, u, inv).mul(inv))
                return True
            if ispow2(mask):
                u = self.toU(st, p, w)
                f = self.floordiv(st, u, mask)
                g = self.floordiv(st, u, mask * 2)
                self.setv(st, I, st.cons.norm((f - g.mul(2)).mul(mask)))
                return True
            s, new = term('and', (p, C(mask)), 'and', 0, mask)
            self.setv(st, I, V(s))
            return True
        # symbolic masks
        cands = list(st.pow2)
        for p, q in ((x, y), (y, x)):
            for f in cands:
                f = st.cons.norm(f)
                if (q + f).isconst() and (q + f).k % (1 << w) == 0:      # q == -f : round down
                    return self.rounddown(st, I, p, f, w)
                d = q - f + 1
                if d.isconst() and d.k % (1 << w) == 0:                 # q == f-1 : remainder
                    return self.rounddown(st, I, p, f, w, rem=True)
        for p, q in ((x, y), (y, x)):
            d = p + q
            if d.isconst() and d.k % (1 << w) == 0:
                z = p if self._possible(p) else q
                z = self.toU(st, z, w)
                s, new = term('lowbit', (z,), 'lowbit', 0, None)
                st.cons.add_ge(z - V(s))
                self.setv(st, I, V(s))
                return True
            d = p - q
            if d.isconst() and d.k % (1 << w) == 1:
                z = self.toU(st, p, w)
                s, new = term('clearlow', (z,), 'clearlow', 0, None)
                st.cons.add_ge(z - V(s))
                if st.cons.ge0(z - 1):
                    st.cons.add_ge(z - V(s) - 1)
                self.setv(st, I, V(s))
                return True
        xu, yu = self.toU(st, x, w), self.toU(st, y, w)
        s, new = term('and', tuple(sorted((xu, yu), key=lambda z: z.key())), 'and', 0, None)
        st.cons.add_ge(xu - V(s))
        st.cons.add_ge(yu - V(s))
        self.setv(st, I, V(s))
        return True

    @staticmethod
    def _possible(p):
        return all(v > 0 for v in p.c.values())

    def rounddown(self, st, I, p, f, w, rem=False):
        u = self.toU(st, p, w)
        # decide the alignment against the page size
        if st.cons.ge0(f - PAGE) or st.cons.ge0(C(PAGE) - f):
            states = [st]
        else:
            s2 = st.copy()
            states = self.assume(st, cge(C(PAGE) - f), I) + self.assume(s2, cge(f - PAGE - 1), I)
        res = []
        for s in states:
            fn = s.cons.norm(f)
            un = s.cons.norm(u)
            if not fn.c:
                t = self.floordiv(s, un, fn.k).mul(fn.k)
                self.setv(s, I, s.cons.norm(un - t) if rem else t)
                res.append(s)
                continue
            r, new = term('modal', (un, fn), 'mod', 0, None)
            R = V(r)
            s.cons.add_ge(R)
            s.cons.add_ge(fn - R - 1)
            s.cons.add_ge(un - R)
            if self.trace_branch and s.cons.ge0(C(PAGE) - fn):
                # the alignment divides the page size: not below the start of the page
                s.cons.add_ge(un - R - self.floordiv(s, un, PAGE).mul(PAGE))
                for lo in self.page_bounds(s, un):
                    s.cons.add_ge(un - R - lo)
            v = s.cons.norm(un - R)
            s.al.append((v, fn))
            self._al_facts(s)
            # already aligned to a multiple of the page and alignment <= page: no remainder
            if un.divisible(PAGE) and s.cons.ge0(C(PAGE) - fn):
                s.cons.add_eq(R)
            elif s.cons.ge0(C(PAGE) - fn) and s.cons.norm(un - fn + 1).divisible(PAGE):
                s.cons.add_eq(R - fn + 1)
            else:
                for (v2, a2) in list(s.al[:-1]):
                    if a2 == fn and v2 == un:
                        s.cons.add_eq(R)
                        break
            if s.cons.bot:
                continue
            v = s.cons.norm(un - R)
            self.setv(s, I, s.cons.norm(R) if rem else v)
            res.append(s)
        return res

    def page_bounds(self, st, u):
        """multiples of the page size that are not above u, from single known inequalities"""
        rest = {s: c for s, c in u.c.items() if c % PAGE}
        if not rest:
            return []
        res = []
        for c in list(st.cons.ineq.values()):
            d = u - c
            if all(k % PAGE == 0 for k in d.c.values()):
                res.append(d - C(d.k % PAGE) if d.k % PAGE else d)
        return res[:8]

    # ---------------------------------------------------------------- calls
    NORET = {'abort', '_exit', 'exit', '__assert_fail', '_Exit', 'DUMA_Abort', 'DUMA_Exit', '_duma_assert',
             '__clang_call_terminate', '_ZSt9terminatev', '__cxa_call_unexpected', 'quick_exit', 'llvm.trap',
             '__stack_chk_fail'}
    THROW = {'__cxa_throw', '__cxa_rethrow', '_Unwind_Resume', '_ZSt17__throw_bad_allocv'}
    EVENTS = {'DUMA_get_sem', 'DUMA_rel_sem', 'DUMA_init_sem', 'DUMA_Print', 'DUMA_Abort', 'DUMA_Exit',
              'DUMA_sprintf', 'DUMA_strerror', '_duma_assert', 'memcpy', 'memmove', 'memset', 'strlen', 'strcpy',
              'strcat', 'strncpy', 'strncat', 'strdup'}
    inline_only = None
    trace_loops = False
    why = None
    no_inline = frozenset()

    def call(self, F, B, I, st, out):
        name = I.x['callee']
        args = []
        for o, (b, p, z) in zip(I.ops, I.x['argt']):
            v = self.val(st, o, b)
            if isinstance(v, tuple):
                v = self.ival(st, o, b)
            args.append(v if isinstance(v, list) else st.cons.norm(v))
        self.stats['calls'] += 1
        fnm = name or '<indirect>'
        G = self.m.functions.get(name) if name else None
        defined = G is not None and not G.decl
        results = None
        r = self.mon.on_call(st, fnm, args, I)
        if r is not None:
            results = r
        elif fnm.startswith('llvm.') or not defined or fnm in self.EVENTS or fnm in self.no_inline:
            results = self.external(st, fnm, args, I)
        elif defined and not I.x['noreturn']:
            results = self.inline(G, st, args, I, F, B)
        elif defined:
            results = self.inline(G, st, args, I, F, B)
        cont = []
        for (s, ret, kind) in results:
            if s.cons.bot:
                continue
            if kind == 'throw':
                if I.op == 'invoke':
                    self.goto(F, B, I.x['unwind'], s, out)
                else:
                    out.append((None, s, None, 'throw'))
                continue
            if kind == 'stop':
                continue
            if not I.void:
                if ret is None:
                    if I.bits == 1 and not I.isptr:
                        ret = cne(V(newsym('r.' + fnm, 0, 1)))
                    else:
                        ret = V(newsym('r.' + fnm, 0, ADDR_MAX if I.isptr else (1 << (I.bits or 64)) - 1))
                self.setv(s, I, ret)
            self.mon.after_call(s, fnm, args, ret, I)
            if s.cons.bot:
                continue
            if I.op == 'invoke':
                self.goto(F, B, I.x['normal'], s, out)
            else:
                cont.append(s)
        if I.op == 'invoke':
            return None
        if not cont:
            return None
        return cont

    def inline(self, G, st, args, I, F, B):
        if self.depth >= self.max_depth or self.fnstack.count(G.name) >= 3:
            raise GiveUp('recursion too deep at %s' % G.name)
        # values of the caller that are still needed after the call
        need = self.live_after(F, B, I)
        callerenv = {k: v for k, v in st.env.items() if k in need}
        st.stack = st.stack + (callerenv,)
        st.env = {}
        for i, a in enumerate(args):
            st.env[('a', i)] = a
        rs = self.run(G, [st])
        res = []
        for (s, ret, kind) in rs:
            s.env = dict(s.stack[-1])
            s.stack = s.stack[:-1]
            res.append((s, ret, kind))
        return res

    _la = None

    def live_after(self, F, B, I):
        if self._la is None:
            self._la = {}
        key = (F.name, I.id)
        r = self._la.get(key)
        if r is not None:
            return r
        live = set()
        for s in B.succs:
            T = F.blocks[s]
            for J in T.insts:
                if J.op != 'phi':
                    break
                for p, o in J.x:
                    if p == B.idx and o[0] in 'va' and len(o) == 2:
                        live.add(o)
            live |= F.live_in[s]
        for J in reversed(B.insts):
            if J is I:
                break
            for o in J.ops:
                if o[0] in 'va' and len(o) == 2:
                    live.add(o)
            if J.op in ('call', 'invoke') and J.x['fp']:
                live.add(J.x['fp'])
        self._la[key] = live
        return live

    def external(self, st, n, a, I):
        """library and intrinsic models"""
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.copy_mem(st, a[0], a[1], self.toU(st, a[2], 64), I)
            return [(st, a[0], 'ret')]
        if n.startswith('llvm.memset') or n == 'memset':
            self.fill_mem(st, a[0], a[1], self.toU(st, a[2], 64), I)
            return [(st, a[0], 'ret')]
        if n.startswith('llvm.ctpop'):
            s, new = term('popcount', (a[0],), 'popcnt', 0, 64)
            return [(st, V(s), 'ret')]
        if n.startswith('llvm.umul.with.overflow'):
            w = 64
            p = self.mul(st, a[0], a[1], w)
            s2 = st.copy()
            res = []
            for s in self.assume(st, cge(C(M64 - 1) - p), I):
                res.append((s, [p, FALSE], 'ret'))
            for s in self.assume(s2, cge(p - M64), I):
                res.append((s, [V(newsym('ovf', 0, M64 - 1)), TRUE], 'ret'))
            return res
        if n.startswith('llvm.uadd.with.overflow'):
            p = self.toU(st, a[0], 64) + self.toU(st, a[1], 64)
            s2 = st.copy()
            res = []
            for s in self.assume(st, cge(C(M64 - 1) - p), I):
                res.append((s, [p, FALSE], 'ret'))
            for s in self.assume(s2, cge(p - M64), I):
                res.append((s, [p - M64, TRUE], 'ret'))
            return res
        if n.startswith('llvm.expect'):
            return [(st, a[0], 'ret')]
        if n.startswith('llvm.umax') or n.startswith('llvm.umin') or n.startswith('llvm.smax') or n.startswith('llvm.smin'):
            w = I.bits
            cv = self.toU if n[5] == 'u' else self.toS
            x, y = cv(st, a[0], w), cv(st, a[1], w)
            big = n[6:9] == 'max'
            s2 = st.copy()
            res = [(s, x if big else y, 'ret') for s in self.assume(st, cge(x - y), I)]
            res += [(s, y if big else x, 'ret') for s in self.assume(s2, cge(y - x - 1), I)]
            return res
        if n == 'llvm.returnaddress':
            return [(st, None, 'ret')]
        if n in self.THROW:
            return [(st, None, 'throw')]
        if n in self.NORET or I.x['noreturn']:
            return []
        if n == 'mmap':
            return self.m_mmap(st, a, I)
        if n in ('mprotect', 'munmap'):
            s2 = st.copy()
            s2.tags.pop('', None)
            return [(st, C(0), 'ret'), (s2, C(-1), 'ret')]
        if n in ('strlen',):
            s = newsym('strlen', 0, ADDR_MAX)
            SYMS[s].origin = ('strlen', a[0])
            return [(st, V(s), 'ret')]
        if n == 'sysconf' or n == 'getpagesize':
            return [(st, None, 'ret')]
        if n in ('strcpy', 'strcat', 'strncpy', 'strncat'):
            return [(st, a[0], 'ret')]
        if n in ('strerror', 'DUMA_strerror', '__errno_location'):
            return [(st, V(newsym('r.' + n, 0x10000, ADDR_MAX)), 'ret')]
        if n == 'DUMA_rel_sem':
            return [(st, a[0] if a else None, 'ret')]
        if n == '<indirect>':
            res = [(st, None, 'ret')]
            if I.op == 'invoke' or True:
                s2 = st.copy()
                res.append((s2, None, 'throw'))
            return res
        ret = None
        if not I.void and not I.isptr and I.bits and I.bits > 1:
            # signed libc results
            ret = V(newsym('r.' + n, -(1 << (I.bits - 1)), (1 << (I.bits - 1)) - 1))
        return [(st, ret, 'ret')]

    def m_mmap(self, st, a, I):
        n = self.toU(st, a[1], 64)
        s2 = st.copy()
        q = newsym('map', 16, 1 << 35)
        SYMS[q].origin = ('map', I.loc())
        base = V(q).mul(PAGE)
        st.cons.add_ge(C(ADDR_MAX) - base - n)
        st.cons.add_ge(n - 1)
        res = []
        if not st.cons.bot:
            res.append((st, base, 'ret'))
        res.append((s2, C(-1), 'ret'))
        return res

    # ---------------------------------------------------------------- function / CFG driver
    trace_branch = False    # keep the outcomes of branches outside loops apart (down to trace_depth calls)
    trace_depth = 1
    _lbs = {}

    def loop_blocks(self, F):
        r = self._lbs.get(F.name)
        if r is None:
            r = set()

            def walk(part, inl):
                for c in part:
                    if isinstance(c, int):
                        if inl:
                            r.add(c)
                    else:
                        r.add(c[1])
                        walk(c[2], True)
            walk(F.wto, False)
            self._lbs[F.name] = r
        return r

    def untrace(self, s, depth):
        for k in [k for k in s.tags if isinstance(k, tuple) and k[0] == 'b' and k[1] >= depth]:
            del s.tags[k]

    def run(self, F, states):
        self.depth += 1
        self.fnstack.append(F.name)
        self.stats['funcs'].add(F.name)
        try:
            bufs = {0: list(states)}
            rets = []
            self.run_part(F, F.wto, bufs, rets)
        finally:
            self.depth -= 1
            self.fnstack.pop()
        # merge returns
        groups = {}
        order = []
        for (s, v, kind) in rets:
            if s.cons.bot:
                continue
            if self.trace_branch:
                self.untrace(s, self.depth + 1)
            key = (kind, self.key(F, None, s), self.vkey(s, v) if v is not None else None)
            if key in groups:
                groups[key].append((s, v))
            else:
                groups[key] = [(s, v)]
                order.append(key)
        out = []
        for key in order:
            L = groups[key]
            s, v = L[0]
            if len(L) > 1:
                if isinstance(v, Lin):
                    s.env = {('r', 0): v}
                elif v is not None:
                    s.env = {('r', 0): v}
                else:
                    s.env = {}
                for (s2, v2) in L[1:]:
                    s2.env = {('r', 0): v2} if v2 is not None else {}
                    s = self.join(s, s2)
                v = s.env.get(('r', 0))
            s.env = {}
            out.append((s, v, key[0]))
        return out

    def run_part(self, F, part, bufs, rets):
        for c in part:
            if isinstance(c, int):
                sts = bufs.pop(c, None)
                if not sts:
                    continue
                self.run_block(F, c, sts, bufs, rets)
            else:
                self.run_loop(F, c[1], c[2], bufs, rets)

    def signature(self, s):
        """what the state knows about local values, records and ghosts (not about globals that are not linked to them)"""
        out = []
        syms = set()

        def lv(v):
            if isinstance(v, Lin):
                v = s.cons.norm(v)
                syms.update(v.c)
                return v.key()
            return str(v)
        for i, e in enumerate(s.stack + (s.env,)):
            for k in sorted(e, key=str):
                v = e[k]
                out.append((i, str(k), lv(v) if not isinstance(v, list) else str([lv(x) for x in v])))
        for h, sl in s.slots.items():
            out.append((str(h), tuple((o, lv(c[1])) for o, c in sorted(sl.cells.items()))))
        for k, v in s.gh.items():
            out.append((str(k), lv(v)))
        for g in s.segs:
            out.append((str(g.label), lv(g.lo), lv(g.hi)))
        # constraints linked to these symbols
        rows = [(set(r.c), r) for r in s.cons.ineq.values()]
        glob = {b for b in syms}
        for _ in range(2):
            for c, r in rows:
                if c & glob:
                    glob |= c
        facts = sorted(str(r.key()) for c, r in rows if c & syms)
        facts += sorted('p2' + str(x) for x in s.pow2 if set(s.cons.norm(x).c) & syms)
        facts += sorted(str(a) for a in s.al)
        facts += sorted('hb' + str(a) for a in s.hb)
        facts += sorted(str(d) for d in s.cons.dis if set(d.c) & syms)
        return (tuple(sorted(map(str, out))), tuple(facts))

    def same_paths(self, sts):
        """forget the path taken where it makes no difference to what is known"""
        groups = {}
        for s in sts:
            if not s.slots:
                self.untrace(s, 0)
            if any(isinstance(k, tuple) and k[0] == 'b' for k in s.tags):
                groups.setdefault(self.signature(s), []).append(s)
        for L in groups.values():
            if len(L) < 2:
                continue
            ref = L[0].tags
            for s in L[1:]:
                for k in [k for k in s.tags if isinstance(k, tuple) and k[0] == 'b']:
                    del s.tags[k]
                for k, v in ref.items():
                    if isinstance(k, tuple) and k[0] == 'b':
                        s.tags[k] = v

    def run_block(self, F, b, sts, bufs, rets):
        if self.trace_branch and len(sts) > 1:
            self.same_paths(sts)
        if len(sts) > 1:
            sts = self.merge(F, b, sts)
        for s in sts:
            self.stats['states'] += 1
            for (succ, s2, v, kind) in self.exec_block(F, b, s):
                if s2.cons.bot:
                    continue
                if succ is None:
                    rets.append((s2, v, kind))
                else:
                    bufs.setdefault(succ, []).append(s2)

    def merge(self, F, b, sts, loophead=False):
        groups = {}
        order = []
        for s in sts:
            k = self.key(F, b, s, loophead)
            if k in groups:
                groups[k].append(s)
            else:
                groups[k] = [s]
                order.append(k)
        if len(order) > self.state_cap:
            g2 = {}
            for k in order:
                g2.setdefault(k[0], []).extend(groups[k])
            groups = g2
            order = list(g2)
        out = []
        for k in order:
            L = groups[k]
            s = L[0]
            for s2 in L[1:]:
                s = self.join(s, s2)
            out.append(s)
        return out

    def vkey(self, st, v):
        if isinstance(v, tuple):
            if self.quick_holds(st, v):
                return 'T'
            if self.quick_holds(st, cnot(v)):
                return 'F'
            return '?'
        if isinstance(v, list) or v is None:
            return None
        v = st.cons.norm(v)
        if not v.c:
            return v.k if -2 <= v.k <= 64 else 'k'
        if self.quick_ge(st, v - 1):
            return 'n'
        return '?'

    def key(self, F, b, st, loophead=False):
        """partition key"""
        items = []
        if b is not None:
            phis = set()
            if loophead:
                for I in F.blocks[b].insts:
                    if I.op != 'phi':
                        break
                    if not I.isptr:
                        phis.add(('v', I.id))
            ptr = self.ptrset(F)
            for o in sorted(st.env):
                if o in phis:
                    continue
                v = st.env[o]
                if isinstance(v, tuple):
                    items.append((o, self.vkey(st, v)))
                    continue
                if isinstance(v, list):
                    continue
                k = self.vkey(st, v)
                if k == '?' and o in ptr and self._isslot(v) and st.cons.ge0(v - 1):
                    k = 'n'
                if o in ptr:
                    items.append((o, 'z' if k == 0 else ('n' if k == 'n' or isinstance(k, int) or k == 'k' else '?')))
                else:
                    items.append((o, k if isinstance(k, int) else ('n' if k == 'n' and False else '?')))
        return (tuple(sorted(st.tags.items(), key=lambda kv: (str(kv[0]), kv[1] is None, str(kv[1])))), tuple(items), self.mkey(st))

    def mkey(self, st):
        return None

    _ps = None

    def ptrset(self, F):
        if self._ps is None:
            self._ps = {}
        r = self._ps.get(F.name)
        if r is None:
            r = set()
            for i, (n, b, p) in enumerate(F.params):
                if p:
                    r.add(('a', i))
            for B in F.blocks:
                for I in B.insts:
                    if I.isptr and not I.void and I.op not in ('store',):
                        r.add(('v', I.id))
            self._ps[F.name] = r
        return r

    def run_loop(self, F, head, part, bufs, rets):
        init = bufs.pop(head, None)
        if not init:
            return
        if self.trace_branch:
            self.same_paths(init)
        self.stats['loops'] += 1
        mark = len(SYMS)
        H = {}
        hits = {}
        it = 0

        def absorb(states, first):
            changed = []
            for s in states:
                if s.cons.bot:
                    continue
                k = self.key(F, head, s, True)
                h = H.get(k)
                if h is None:
                    H[k] = s
                    hits[k] = 0
                elif first:
                    H[k] = self.join(h, s)
                else:
                    if self.included(h, s, mark):
                        continue
                    hits[k] += 1
                    rel = []
                    if hits[k] >= 8 and self.included(h, s, mark, rel):
                        pass        # the unstable constraints were removed from the head state
                    else:
                        H[k] = self.join(h, s, mark, widen=hits[k] >= 3, drop=hits[k] >= 8)
                if k not in changed:
                    changed.append(k)
            return changed

        changed = absorb(init, True)
        if self.trace_branch:
            # equalities found in the loop for values known before it are kept, so that the loop head recognises them
            pins = set()
            for h in H.values():
                pins |= self.env_syms(h)
            self.pins = self.pins + [pins]
        H0 = {k: h.copy() for k, h in H.items()} if self.narrow else None
        narrowed = False
        while True:
            self.quiet += 1
            try:
                while changed:
                    it += 1
                    self.stats['loopiters'] += 1
                    if it > 12 and self.trace_loops:
                        print('LOOP', F.name, head, it, len(H), self.why and self.why[0],
                              {k: v for k, v in self.why[1].items() if k != 'm'} if self.why else None)
                    if it > 60:
                        raise GiveUp('loop in %s does not stabilise' % F.name)
                    lb = {head: [H[k].copy() for k in changed]}
                    self.loop_body(F, head, part, lb, [])
                    changed = absorb(lb.get(head, []), False)
                if self.narrow and not narrowed:
                    narrowed = True
                    self.narrowing(F, head, part, H, H0, mark)
            finally:
                self.quiet -= 1
            # checking pass from the stabilised heads: reports count, and the back edges must be covered
            snap = self.snapshot()
            lb = {head: [H[k].copy() for k in H]}
            lr = []
            self.loop_body(F, head, part, lb, lr)
            changed = absorb(lb.pop(head, []), False)
            if not changed:
                break
            self.rollback(snap)
            it += 1
        if self.trace_branch:
            self.pins = self.pins[:-1]
        for b, ss in lb.items():
            bufs.setdefault(b, []).extend(ss)
        rets.extend(lr)

    pins = []
    narrow = False

    def narrowing(self, F, head, part, H, H0, mark):
        """one descending step: entry states joined with what the stable heads send round the loop; kept only if the
        result is again closed under the loop body"""
        lb = {head: [H[k].copy() for k in H]}
        self.loop_body(F, head, part, lb, [])
        N = {k: h.copy() for k, h in H0.items()}
        for s in lb.get(head, []):
            if s.cons.bot:
                continue
            k = self.key(F, head, s, True)
            N[k] = s if k not in N else self.join(N[k], s, mark)
        if set(N) - set(H):
            return
        lb = {head: [N[k].copy() for k in N]}
        self.loop_body(F, head, part, lb, [])
        for s in lb.get(head, []):
            if s.cons.bot:
                continue
            k = self.key(F, head, s, True)
            if k not in N or not self.included(N[k], s, mark):
                return
        H.clear()
        H.update(N)

    def snapshot(self):
        if self.quiet:
            return None
        return (dict(self.reports), {r: dict(d) for r, d in self.events.items()}, self.stats['obligations'],
                self.stats['discharged'])

    def rollback(self, snap):
        if snap is None:
            return
        self.reports, self.events, self.stats['obligations'], self.stats['discharged'] = snap

    def loop_body(self, F, head, part, lb, lr):
        sts = lb.pop(head)
        for s in sts:
            self.stats['states'] += 1
            for (succ, s2, v, kind) in self.exec_block(F, head, s):
                if s2.cons.bot:
                    continue
                if succ is None:
                    lr.append((s2, v, kind))
                else:
                    lb.setdefault(succ, []).append(s2)
        self.run_part(F, part, lb, lr)

    # ---------------------------------------------------------------- lattice operations
    def rigid(self, s, mark):
        if mark is None or s < mark:
            return True
        d = SYMS[s].defn
        if not d:
            return False
        if d[0] == 'init':
            return True
        for a in d[1:]:
            if isinstance(a, Lin):
                for t in a.c:
                    if not self.rigid(t, mark):
                        return False
        return True

    def reach(self, st):
        """symbols occurring in the state's values"""
        out = set()

        def addl(v):
            if isinstance(v, Lin):
                out.update(v.c)
            elif isinstance(v, tuple):
                addc(v)
            elif isinstance(v, list):
                for x in v:
                    addl(x)

        def addc(c):
            if c[0] == 'c':
                out.update(c[2].c)
            elif c[0] in ('and', 'or'):
                addc(c[1])
                addc(c[2])
            elif c[0] in ('p2', 'np2'):
                out.update(c[1].c)
            elif c[0] == 'imp':
                addc(c[1])
                for d in c[2]:
                    addc(d)
        for e in st.stack + (st.env,):
            for v in e.values():
                addl(v)
        for b, cells in st.mem.items():
            out.update(b.c)
            for o, (z, v) in cells.items():
                out.update(v.c)
        for h, sl in st.slots.items():
            out.update(h.c)
            for o, (z, v) in sl.cells.items():
                out.update(v.c)
        for v in st.gh.values():
            out.update(v.c)
        for g in st.segs:
            out.update(g.lo.c)
            out.update(g.hi.c)
            for p in g.pay:
                out.update(p.c)
        return out

    def normalise(self, st):
        n = st.cons.norm

        def nv(v):
            if isinstance(v, Lin):
                return n(v)
            if isinstance(v, tuple):
                return nc(v)
            if isinstance(v, list):
                return [nv(x) for x in v]
            return v

        def nc(c):
            if c[0] == 'c':
                return (c[0], c[1], n(c[2]))
            if c[0] in ('and', 'or'):
                return (c[0], nc(c[1]), nc(c[2]))
            if c[0] in ('p2', 'np2'):
                return (c[0], n(c[1]))
            if c[0] == 'imp':
                return ('imp', nc(c[1]), [nc(d) for d in c[2]])
            return c
        st.env = {k: nv(v) for k, v in st.env.items()}
        st.stack = tuple({k: nv(v) for k, v in e.items()} for e in st.stack)
        st.mem = {b: {o: (z, n(v)) for o, (z, v) in cells.items()} for b, cells in st.mem.items()}
        sl2 = {}
        for h, sl in st.slots.items():
            sl2[n(h)] = Slot({o: (z, n(v)) for o, (z, v) in sl.cells.items()},
                             {o: n(v) for o, v in sl.init.items()}, sl.dirty, sl.fresh)
        st.slots = sl2
        st.gh = {k: n(v) for k, v in st.gh.items()}
        st.segs = [g.map(n) for g in st.segs]
        st.pow2 = set(x for x in (n(p) for p in st.pow2) if x.c)
        st.al = [(n(v), n(a)) for v, a in st.al]
        st.hb = [(n(v), n(a)) for v, a in st.hb]
        st.pend = [(nc(t), [nc(c) for c in cs]) for t, cs in st.pend]

    def handle_live(self, st):
        """record addresses denoted by some live value"""
        vals = set()
        for e in st.stack + (st.env,):
            for v in e.values():
                if isinstance(v, Lin):
                    vals.add(v)
        for b, cells in st.mem.items():
            for o, (z, v) in cells.items():
                if z == 8:
                    vals.add(v)
        for v in st.gh.values():
            vals.add(v)
        return vals

    def gc(self, st, inst=None):
        self.normalise(st)
        vals = self.handle_live(st)
        bases = set()
        for v in vals:
            bases.add(v)
        for h in list(st.slots):
            if h in bases:
                continue
            # constant-offset neighbours of a live list pointer stay (slot[1] …)
            if any((h - v).isconst() for v in vals):
                continue
            sl = st.slots.pop(h)
            if sl.dirty:
                self.mon.on_slot_drop(st, h, sl, inst)
        # segments that are provably empty
        st.segs = [g for g in st.segs if g.lo != g.hi]
        keep = self.reach(st)
        for p in st.pow2:
            keep |= set(p.c)
        # definitional terms of kept symbols
        st.pend = [(t, cs) for t, cs in st.pend if self._csyms(t) <= keep]
        for t, cs in st.pend:
            for c in cs:
                keep |= self._csyms(c)
        st.al = [(v, a) for v, a in st.al if set(v.c) <= keep and set(a.c) <= keep]
        st.hb = [(v, a) for v, a in st.hb if set(v.c) <= keep and set(a.c) <= keep]
        for pins in self.pins:
            for s in pins:
                r = st.cons.sub.get(s)
                if r is not None:
                    keep.add(s)
                    keep.update(r.c)
        st.cons.gc(keep)

    def _csyms(self, c):
        if c[0] == 'c':
            return set(c[2].c)
        if c[0] in ('and', 'or'):
            return self._csyms(c[1]) | self._csyms(c[2])
        if c[0] in ('p2', 'np2'):
            return set(c[1].c)
        if c[0] == 'imp':
            r = self._csyms(c[1])
            for d in c[2]:
                r |= self._csyms(d)
            return r
        return set()

    def seg_align(self, A, B):
        """pair up the segments of two states; missing ones are inserted empty when expressible"""
        pa, pb = [], []
        restb = list(B.segs)
        for g in A.segs:
            m = None
            for h in restb:
                if h.label == g.label and len(h.pay) == len(g.pay) and h.lo == g.lo:
                    m = h
                    break
            if m is None:
                for h in restb:
                    if h.label == g.label and len(h.pay) == len(g.pay) and h.hi == g.hi:
                        m = h
                        break
            if m is not None:
                restb.remove(m)
                pa.append(g)
                pb.append(m)
            else:
                pa.append(g)
                pb.append(None)
        ra, rb = [], []
        for g, h in zip(pa, pb):
            if h is None:
                # same label left on the other side?
                for h2 in restb:
                    if h2.label == g.label and len(h2.pay) == len(g.pay):
                        h = h2
                        break
                if h is not None:
                    restb.remove(h)
                    # only useful when one of them may be an extension of the other; keep both sides
                    ra.append(g)
                    rb.append(h)
                    continue
                if self.expressible(g.lo, B) and all(self.expressible(p, B) for p in g.pay):
                    ra.append(g)
                    rb.append(Seg(g.label, g.lo, g.lo, g.pay))
                continue
            ra.append(g)
            rb.append(h)
        for h in restb:
            if self.expressible(h.lo, A) and all(self.expressible(p, A) for p in h.pay):
                ra.append(Seg(h.label, h.lo, h.lo, h.pay))
                rb.append(h)
        return ra, rb

    def expressible(self, e, st):
        return True

    def env_syms(self, st):
        pins = set()
        for e in st.stack + (st.env,):
            for v in e.values():
                if isinstance(v, Lin):
                    pins.update(st.cons.norm(v).c)
        return pins

    def join(self, A, B, mark=None, widen=False, drop=False):
        self.stats['joins'] += 1
        if self.trace_branch:
            old = self.pins
            self.pins = old + [self.env_syms(A) | self.env_syms(B)]
            self.gc(A)
            self.gc(B)
            self.pins = old
        else:
            self.gc(A)
            self.gc(B)
        J = A.copy()
        J.cons = Cons()
        pairs = {}
        plist = []

        def pos(a, b):
            """result slot for the pair; returns a thunk index or a direct Lin"""
            if a == b and all(self.rigid(s, mark) for s in a.c):
                return a
            k = (a, b)
            i = pairs.get(k)
            if i is None:
                # the same value, expressed through an equality that only one side knows
                if a.c and all(self.rigid(s, mark) for s in a.c) and B.cons.norm(a) == b:
                    pairs[k] = a
                    return a
                if b.c and all(self.rigid(s, mark) for s in b.c) and A.cons.norm(b) == a:
                    pairs[k] = b
                    return b
                i = pairs[k] = len(plist)
                plist.append(k)
            return i
        recs = []   # (setter, idx)
        # environments
        def join_env(ea, eb):
            out = {}
            for k, va in ea.items():
                vb = eb.get(k)
                if vb is None:
                    continue
                if isinstance(va, Lin) and isinstance(vb, Lin):
                    out[k] = pos(va, vb)
                elif isinstance(va, tuple) and isinstance(vb, tuple):
                    if va == vb:
                        out[k] = va
                    else:
                        da, db = self.decide(A, va), self.decide(B, vb)
                        if da is not None and da == db:
                            out[k] = ('k', da)
                        else:
                            out[k] = cne(V(newsym('jb', 0, 1)))
                elif isinstance(va, list) or isinstance(vb, list):
                    continue
                else:
                    sa = self.cond2lin(A, va)
                    sb = self.cond2lin(B, vb)
                    out[k] = pos(sa, sb)
            return out
        env = join_env(A.env, B.env)
        stack = []
        for ea, eb in zip(A.stack, B.stack):
            stack.append(join_env(ea, eb) if ea is not eb or True else ea)
        mem = {}
        for b in set(A.mem) | set(B.mem):
            ca, cb = A.mem.get(b), B.mem.get(b)
            s0 = list(b.c)[0]
            if SYMS[s0].kind == 'stack':
                if ca is None or cb is None:
                    continue
                mem[b] = {o: (ca[o][0], pos(ca[o][1], cb[o][1])) for o in ca if o in cb and ca[o][0] == cb[o][0]}
                continue
            g = SYMS[s0].origin
            d = {}
            for o in set(ca or ()) | set(cb or ()):
                x = (ca or {}).get(o)
                y = (cb or {}).get(o)
                if x is None and y is not None:
                    x = (y[0], A.cons.norm(self.gload(A, g, o, y[0], False)))
                if y is None and x is not None:
                    y = (x[0], B.cons.norm(self.gload(B, g, o, x[0], False)))
                if x[0] != y[0]:
                    continue
                d[o] = (x[0], pos(x[1], y[1]))
            mem[b] = d
        # record handles
        hpairs = []
        usedA, usedB = set(), set()
        for h in A.slots:
            if h in B.slots and all(self.rigid(s, mark) for s in h.c) and (
                    A.slots[h].dirty or B.slots[h].dirty):
                hpairs.append((h, h))
                usedA.add(h)
                usedB.add(h)
        for (a, b) in list(plist):
            if a in A.slots and b in B.slots and (a not in usedA and b not in usedB or not (
                    A.slots[a].dirty or B.slots[b].dirty) and (a, b) not in hpairs):
                hpairs.append((a, b))
                usedA.add(a)
                usedB.add(b)
        for h in A.slots:
            if h in B.slots and h not in usedA and h not in usedB and all(self.rigid(s, mark) for s in h.c):
                hpairs.append((h, h))
                usedA.add(h)
                usedB.add(h)
        for (a, b) in list(plist):
            if a in A.slots and a not in usedA and A.slots[a].dirty and self._isslot(b) and b not in usedB:
                hb, sb = self.find_slot(B, b)
                if hb not in usedB:
                    hpairs.append((a, hb))
                    usedA.add(a)
                    usedB.add(hb)
            elif b in B.slots and b not in usedB and B.slots[b].dirty and self._isslot(a) and a not in usedA:
                ha, sa = self.find_slot(A, a)
                if ha not in usedA:
                    hpairs.append((ha, b))
                    usedA.add(ha)
                    usedB.add(b)
        for h in list(A.slots):
            if h not in usedA and A.slots[h].dirty:
                if mark is None and all(self.rigid(s, mark) for s in h.c) and h not in usedB:
                    hb, sb = self.find_slot(B, h)
                    if hb not in usedB:
                        hpairs.append((h, hb))
                        usedA.add(h)
                        usedB.add(hb)
                        continue
                self.mon.on_slot_drop(A, h, A.slots[h], None)
        for h in list(B.slots):
            if h not in usedB and B.slots[h].dirty:
                if all(self.rigid(s, mark) for s in h.c) and h not in usedA and not (mark is not None and h in A.slots):
                    ha, sa = self.find_slot(A, h)
                    if ha not in usedA:
                        hpairs.append((ha, h))
                        usedA.add(ha)
                        usedB.add(h)
                        continue
                self.mon.on_slot_drop(B, h, B.slots[h], None)
        slots = []
        for ha, hb in hpairs:
            sa, sb = A.slots[ha], B.slots[hb]
            hh = pos(ha, hb)
            cells = {}
            for o in sa.cells:
                if o in sb.cells and sa.cells[o][0] == sb.cells[o][0]:
                    cells[o] = (sa.cells[o][0], pos(A.cons.norm(sa.cells[o][1]), B.cons.norm(sb.cells[o][1])))
            init = {}
            for o in sa.init:
                if o in sb.init:
                    x, y = A.cons.norm(sa.init[o]), B.cons.norm(sb.init[o])
                    if x == y:
                        init[o] = x
            slots.append((hh, cells, init, sa.dirty or sb.dirty, sa.fresh and sb.fresh))
        gh = {}
        for k in A.gh:
            if k in B.gh:
                gh[k] = pos(A.cons.norm(A.gh[k]), B.cons.norm(B.gh[k]))
        self.segmark = mark
        self._segA, self._segB = A, B
        ra, rb = self.seg_align(A, B)
        segs = []
        for g, h in zip(ra, rb):
            segs.append((g.label, pos(A.cons.norm(g.lo), B.cons.norm(h.lo)), pos(A.cons.norm(g.hi), B.cons.norm(h.hi)),
                         tuple(pos(A.cons.norm(x), B.cons.norm(y)) for x, y in zip(g.pay, h.pay))))
        # rigid symbols solved differently on the two sides
        ra_, rb_ = self.reach(A) | A.cons.syms(), self.reach(B) | B.cons.syms()
        colsym = [None] * len(plist)
        for s in sorted((set(A.cons.sub) & rb_) | (set(B.cons.sub) & ra_)):
            if not self.rigid(s, mark):
                continue
            a, b = A.cons.norm(V(s)), B.cons.norm(V(s))
            if a == b and all(self.rigid(t, mark) for t in a.c):
                J.cons.sub[s] = a
                continue
            plist.append((a, b))
            colsym.append(s)
        # fresh symbols, congruence factoring
        cols = []    # (value Lin for result, symbol, aForm, bForm)
        for i, (a, b) in enumerate(plist):
            if colsym[i] is not None:
                cols.append((V(colsym[i]), colsym[i], a, b))
                continue
            # pointers into the same object stay pointers into it
            rb = None
            for t, w in a.c.items():
                if w == 1 and SYMS[t].kind in ('stack', 'global') and b.c.get(t) == 1:
                    rb = V(t)
                    break
                # record addresses: base of the table + offset
                if SYMS[t].kind == 'list' and w == self.scale.get(t, 1) and b.c.get(t) == w and self.rigid(t, mark) and \
                        not any(SYMS[x].kind == 'slotptr' for x in list(a.c) + list(b.c)):
                    rb = V(t).mul(w)
                    break
            if rb is not None:
                a, b = a - rb, b - rb
            g = a.content()
            g = gcd(g, b.content())
            g = gcd(g, abs(a.k - b.k))
            k0 = 0
            if g > 1:
                k0 = a.k % g
                fa, fb = (a - k0).div(g), (b - k0).div(g)
            else:
                g = 1
                fa, fb = a, b
            kind = None
            if self._isslot(a) and self._isslot(b):
                kind = 'slotptr'
            s = newsym('j', None, None, kind=kind)
            if kind:
                SYMS[s].lo, SYMS[s].hi = 1, ADDR_MAX // g
                if g != 1:
                    self.scale[s] = g
            la, ha = bounds(fa)
            lb_, hb_ = bounds(fb)
            if kind:
                pass
            elif not widen:
                if la is not None and lb_ is not None:
                    SYMS[s].lo = min(la, lb_)
                if ha is not None and hb_ is not None:
                    SYMS[s].hi = max(ha, hb_)
            else:
                if la is not None and lb_ is not None:
                    if lb_ >= la:
                        SYMS[s].lo = la
                    else:
                        for t in (0, -1, -(1 << 31), -(1 << 63)):
                            if lb_ >= t and la >= t:
                                SYMS[s].lo = t
                                break
                if ha is not None and hb_ is not None:
                    if hb_ <= ha:
                        SYMS[s].hi = ha
                    else:
                        for t in ((1 << 31) - 1, (1 << 32) - 1, 1 << 35, ADDR_MAX, (1 << 63) - 1, (1 << 64) - 1):
                            if hb_ <= t and ha <= t:
                                SYMS[s].hi = t
                                break
            if SYMS[s].lo is not None and SYMS[s].lo == SYMS[s].hi:
                pass
            cols.append((V(s).mul(g) + k0 if rb is None else V(s).mul(g) + k0 + rb, s, fa, fb))

        def res(i):
            return cols[i][0] if isinstance(i, int) else i
        # affine hull
        eqs = self.hull(A, B, cols, mark)
        J.env = {k: (res(v) if isinstance(v, (int, Lin)) else v) for k, v in env.items()}
        J.stack = tuple({k: (res(v) if isinstance(v, (int, Lin)) else v) for k, v in e.items()} for e in stack)
        J.mem = {b: {o: (z, res(v)) for o, (z, v) in d.items()} for b, d in mem.items()}
        J.gh = {k: res(v) for k, v in gh.items()}
        J.segs = [Seg(l, res(lo), res(hi), tuple(res(p) for p in pay)) for l, lo, hi, pay in segs]
        J.slots = {}
        for hh, cells, init, dirty, fresh in slots:
            J.slots[res(hh)] = Slot({o: (z, res(v)) for o, (z, v) in cells.items()}, init, dirty, fresh)
        # facts
        J.pow2 = set()
        for f in A.pow2:
            if f in B.pow2 and all(self.rigid(s, mark) for s in f.c):
                J.pow2.add(f)
        for (v, s, fa, fb) in cols:
            if len(v.c) == 1 and v.k == 0 and v.c.get(s) == 1:
                if self.is_pow2(A, fa) and self.is_pow2(B, fb):
                    J.pow2.add(v)
            else:
                ga, gb = self._apply(v, s, fa), self._apply(v, s, fb)
                if self.is_pow2(A, ga) and self.is_pow2(B, gb):
                    J.pow2.add(v)
        J.al = []
        for (v, a) in A.al:
            if (v, a) in B.al and all(self.rigid(s, mark) for s in list(v.c) + list(a.c)):
                J.al.append((v, a))
        for (v, s, fa, fb) in cols:
            va, vb = self._apply(v, s, fa), self._apply(v, s, fb)
            for (x, a) in A.al:
                if x == va and (vb, a) in B.al and all(self.rigid(t, mark) for t in a.c):
                    J.al.append((v, a))
        J.hb = [(x, s) for (x, s) in A.hb if (x, s) in B.hb and all(self.rigid(t, mark) for t in list(x.c) + list(s.c))]
        for (v, s, fa, fb) in cols:
            va, vb = self._apply(v, s, fa), self._apply(v, s, fb)
            for b in [b for (a, b) in A.hb if a == va] + [b for (a, b) in B.hb if a == vb]:
                if all(self.rigid(t, mark) for t in b.c) and (va == b or (va, b) in A.hb) and (vb == b or (vb, b) in B.hb):
                    if (v, b) not in J.hb:
                        J.hb.append((v, b))
        self.join_pend(A, B, J, cols, mark)
        for e in eqs:
            J.cons.add_eq(e, False)
        # inequalities
        mapA = {s: fa for (v, s, fa, fb) in cols}
        mapB = {s: fb for (v, s, fa, fb) in cols}
        seen = set()
        disj = mark is None and self.trace_branch
        lost = []

        def consider(c, other, omap, own, ownmap):
            c = tighten(J.cons.norm(c))
            if not c.c:
                return
            key = c.key()
            if key in seen:
                return
            seen.add(key)
            lo, hi = bounds(c)
            if lo is not None and lo >= 0:
                return
            if other.cons.ge0(c.subst(omap)):
                if own.cons.ge0(c.subst(ownmap)):
                    J.cons.add_ge_raw(c)
            elif disj and len(lost) < 200:
                lost.append((own is A, c))
        sp = []
        sides = [(A, B, mapA, mapB, 2)]
        if not widen:
            sides.append((B, A, mapB, mapA, 3))
        for own, oth, omap, thmap, fi in sides:
            inv = {}
            for col in cols:
                f = col[fi]
                for s, v in f.c.items():
                    if v in (1, -1):
                        inv.setdefault(s, []).append((col[1], f, v))
            for c in list(own.cons.ineq.values()):
                k = tuple(sorted(c.c.items()))
                o = oth.cons.ineq.get(k)
                allr = all(self.rigid(s, mark) for s in c.c)
                if allr and o is not None:
                    w = o if o.k > c.k else c
                    if not any(s in mapA for s in w.c):
                        if w.key() not in seen:
                            seen.add(w.key())
                            n = tighten(J.cons.norm(w))
                            if n.c:
                                J.cons.add_ge_raw(n)
                        continue
                if drop and not allr:
                    continue
                if allr:
                    consider(c, oth, thmap, own, omap)
                # variants with one symbol expressed through a joined value
                variants = [c]
                nonr = [s for s in c.c if not self.rigid(s, mark)]
                todo = nonr if nonr else list(c.c)
                if nonr:
                    cur = [c]
                    for s in nonr:
                        nxt = []
                        for x in cur:
                            for (j, f, v) in inv.get(s, ())[:4]:
                                # s = v*(j - (f - v*s))
                                rest = Lin({t: w for t, w in f.c.items() if t != s}, f.k)
                                y = Lin({t: w for t, w in x.c.items() if t != s}, x.k) + (V(j) - rest).mul(v * x.c.get(s, 0))
                                nxt.append(y)
                        cur = nxt[:8]
                    for x in cur:
                        if all(self.rigid(s, mark) or s in omap for s in x.c):
                            consider(x, oth, thmap, own, omap)
                            # the remaining rigid symbols may be rewritten as well
                            for s in list(x.c):
                                if s in omap:
                                    continue
                                for (j, f, v) in inv.get(s, ())[:3]:
                                    rest = Lin({t: w for t, w in f.c.items() if t != s}, f.k)
                                    y = Lin({t: w for t, w in x.c.items() if t != s}, x.k) + (V(j) - rest).mul(v * x.c[s])
                                    if all(self.rigid(q, mark) or q in omap for q in y.c):
                                        consider(y, oth, thmap, own, omap)
                else:
                    for s in list(c.c):
                        for (j, f, v) in inv.get(s, ())[:4]:
                            rest = Lin({t: w for t, w in f.c.items() if t != s}, f.k)
                            y = Lin({t: w for t, w in c.c.items() if t != s}, c.k) + (V(j) - rest).mul(v * c.c[s])
                            if all(self.rigid(q, mark) or q in omap for q in y.c):
                                consider(y, oth, thmap, own, omap)
                                for s2 in list(y.c):
                                    if s2 in omap or s2 == s:
                                        continue
                                    for (j2, f2, v2) in inv.get(s2, ())[:2]:
                                        rest2 = Lin({t: w for t, w in f2.c.items() if t != s2}, f2.k)
                                        y2 = Lin({t: w for t, w in y.c.items() if t != s2}, y.k) + (V(j2) - rest2).mul(v2 * y.c[s2])
                                        if all(self.rigid(q, mark) or q in omap for q in y2.c):
                                            consider(y2, oth, thmap, own, omap)
            for (v, s, fa, fb) in cols:
                f = fa if fi == 2 else fb
                if all(self.rigid(t, mark) for t in f.c):
                    if drop and f.c:
                        continue
                    consider(V(s) - f, oth, thmap, own, omap)
                    consider(f - V(s), oth, thmap, own, omap)
                    if self.trace_branch and f.c:
                        for s0, r0 in own.cons.sub.items():
                            if r0.c and s0 not in f.c and all(f.c.get(t) == w for t, w in r0.c.items()) and self.rigid(s0, mark):
                                f2 = f - r0 + V(s0)
                                consider(V(s) - f2, oth, thmap, own, omap)
                                consider(f2 - V(s), oth, thmap, own, omap)
                if len(f.c) == 1 or (self.narrow and f.c):
                    # inherited symbol bounds
                    lo, hi = self.ibounds(own, f) if self.narrow else bounds(f)
                    if lo is not None:
                        consider(V(s) - lo, oth, thmap, own, omap)
                    if hi is not None:
                        consider(C(hi) - V(s), oth, thmap, own, omap)
                if fi == 2:
                    for x in self.jtemplates:
                        consider(x - V(s), oth, thmap, own, omap)
                        consider(V(s) - x, oth, thmap, own, omap)
            # order of record addresses
            if fi == 2:
                for c in cols:
                    if c[1] is not None and self._isslot(c[0]):
                        sp.append(c[0])
                if self.trace_branch:
                    for e in J.stack[-1:] + (J.env,):
                        for x in e.values():
                            if isinstance(x, Lin) and len(x.c) > 1 and x not in sp and self._isslot(x):
                                sp.append(x)
                if len(sp) > 8:
                    sp = sp[:8]
            for x in (sp if fi == 2 else ()):
                for y in sp:
                    if x is not y:
                        consider(x - y - self.slot_size, oth, thmap, own, omap)
                        if self.trace_branch:
                            consider(x - y, oth, thmap, own, omap)
            # differences between joined values
            js = [c for c in cols if c[1] is not None]
            if len(js) <= 14:
                for i in range(len(js)):
                    for k in range(i + 1, len(js)):
                        d = js[i][fi] - js[k][fi]
                        if not d.c:
                            e = V(js[i][1]) - V(js[k][1]) - d.k
                            consider(e, oth, thmap, own, omap)
                            consider(-e, oth, thmap, own, omap)
                            continue
                        d = self._apply(js[i][0], js[i][1], js[i][fi]) - self._apply(js[k][0], js[k][1], js[k][fi])
                        if not d.c:
                            e = js[i][0] - js[k][0] - d.k
                            consider(e, oth, thmap, own, omap)
                            consider(-e, oth, thmap, own, omap)
        if widen:
            # threshold widening at the machine ranges
            for (v, s, fa, fb) in cols:
                lo, hi = SYMS[s].lo, SYMS[s].hi
                for t in ((1 << 31) - 1, M64 // 2 - 1):
                    if hi is None or hi > t:
                        consider(C(t) - V(s), B, mapB, A, mapA)
                for t in (1, 0):
                    if lo is None or lo < t:
                        consider(V(s) - t, B, mapB, A, mapA)
        if lost:
            # a fact of one side survives under a guard that excludes the other side
            for isA in (True, False):
                fo, ft = (2, 3) if isA else (3, 2)
                own, ownmap = (A, mapA) if isA else (B, mapB)
                cs = [c for (x, c) in lost if x == isA and own.cons.ge0(c.subst(ownmap))][:12]
                if not cs:
                    continue
                for col in [c for c in cols if not c[ft].c and c[fo].c and c[1] is not None][:4]:
                    J.pend.append((cne(V(col[1]) - col[ft].k), [cge(c) for c in cs]))
                oth, othmap = (B, mapB) if isA else (A, mapA)
                n = 0
                for g in cs:
                    if n < 3 and len(cs) > 1 and oth.cons.ge0(-g.subst(othmap) - 1):
                        J.pend.append((cge(g), [cge(c) for c in cs if c is not g]))
                        n += 1
        for d in A.cons.dis:
            if all(self.rigid(s, mark) for s in d.c) and (d in B.cons.dis or B.cons.ne0(d)):
                J.cons.add_ne(d)
        for i, x in enumerate(sp):
            for y in sp[:i]:
                d = x - y
                if not J.cons.ne0(d) and A.cons.ne0(d.subst(mapA)) and B.cons.ne0(d.subst(mapB)):
                    J.cons.add_ne(d)
        for (v, s, fa, fb) in cols:
            if len(fa.c) >= 1 and not J.cons.ge0(V(s) - 1):
                if self.quick_holds(A, cne(fa)) and self.quick_holds(B, cne(fb)):
                    J.cons.add_ne(V(s))
        self.normalise(J)
        return J

    def join_pend(self, A, B, J, cols, mark):
        """guarded facts that hold on both sides"""
        out, seen = [], set()
        for own, oth, fi in ((A, B, 2), (B, A, 3)):
            if not own.pend:
                continue
            of = 5 - fi
            omap = {}
            inv = {}
            for col in cols:
                omap[col[1]] = col[of]
                f = col[fi]
                if len(f.c) == 1:
                    (x, w), = f.c.items()
                    if w == 1 and col[1] != x:
                        inv.setdefault(x, V(col[1]) - f.k)
            theirs = set((repr(t), repr(c)) for t, c in oth.pend)

            def tr(e):
                """in terms of the joined state, None if that is not possible"""
                m = {}
                for x in e.c:
                    if x in omap:
                        continue
                    if x in inv:
                        m[x] = inv[x]
                    elif not self.rigid(x, mark):
                        raise KeyError
                return e.subst(m) if m else e

            def back(e):
                m = {x: omap[x] for x in e.c if x in omap}
                return oth.cons.norm(e.subst(m) if m else e)
            for t, cs in own.pend:
                rs = self._csyms(t)
                for c in cs:
                    rs = rs | self._csyms(c)
                same = (repr(t), repr(cs)) in theirs and all(self.rigid(x, mark) for x in rs)
                try:
                    t2 = t if same else self.cmap(t, tr)
                    c2 = cs if same else [self.cmap(c, tr) for c in cs]
                except KeyError:
                    continue
                k = (repr(t2), repr(c2))
                if k in seen:
                    continue
                seen.add(k)
                if not same:
                    tb = self.cmap(t2, back)
                    cb = [self.cmap(c, back) for c in c2]
                    if (repr(tb), repr(cb)) in theirs or self.quick_holds(oth, cnot(tb)):
                        pass
                    elif not (self.quick_holds(oth, tb) and all(c[0] != 'imp' and self.holds(oth, c) for c in cb)):
                        continue
                out.append((t2, c2))
        J.pend = out

    def cmap(self, c, f):
        t = c[0]
        if t == 'c':
            return (t, c[1], f(c[2]))
        if t in ('and', 'or'):
            return (t, self.cmap(c[1], f), self.cmap(c[2], f))
        if t in ('p2', 'np2'):
            return (t, f(c[1]))
        if t == 'imp':
            return (t, self.cmap(c[1], f), [self.cmap(d, f) for d in c[2]])
        return c

    def ibounds(self, st, f):
        """interval of f from symbol bounds and single-symbol inequalities"""
        lo = hi = f.k
        for s, v in f.c.items():
            l, h = SYMS[s].lo, SYMS[s].hi
            c = st.cons.ineq.get(((s, 1),))
            if c is not None and (l is None or -c.k > l):
                l = -c.k
            c = st.cons.ineq.get(((s, -1),))
            if c is not None and (h is None or c.k < h):
                h = c.k
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return lo, hi

    @staticmethod
    def _apply(v, s, f):
        return v.subst({s: f})

    def _isslot(self, e):
        w = 0
        for s, v in e.c.items():
            if SYMS[s].kind in ('list', 'slotptr'):
                w += Fraction(v, self.scale.get(s, 1))
        return w == 1

    def decide(self, st, c):
        """truth value of a condition where the state settles it"""
        if c[0] == 'k':
            return bool(c[1])
        if self.holds(st, c):
            return True
        if self.holds(st, cnot(c)):
            return False
        return None

    def cond2lin(self, st, c):
        if isinstance(c, Lin):
            return c
        if c[0] == 'k':
            return C(1 if c[1] else 0)
        return V(newsym('b', 0, 1))

    def hull(self, A, B, cols, mark):
        """affine relations between the joined values valid on both sides"""
        n = len(cols)
        if not n:
            return []
        rows = {}
        for i, (v, s, fa, fb) in enumerate(cols):
            for t, x in fa.c.items():
                if self.rigid(t, mark) and t not in A.cons.sub and t not in B.cons.sub:
                    rows.setdefault(('r', t), {})[i] = rows.get(('r', t), {}).get(i, 0) + x
                else:
                    rows.setdefault(('a', t), {})[i] = x
            for t, x in fb.c.items():
                if self.rigid(t, mark) and t not in A.cons.sub and t not in B.cons.sub:
                    d = rows.setdefault(('r', t), {})
                    d[i] = d.get(i, 0) - x
                else:
                    rows.setdefault(('b', t), {})[i] = x
            d = fa.k - fb.k
            if d:
                rows.setdefault(('k',), {})[i] = d
        M = [{k: Fraction(v) for k, v in r.items() if v} for r in rows.values()]
        M = [r for r in M if r]
        piv = {}
        red = []
        for r in M:
            r = dict(r)
            for p, pr in red:
                if p in r:
                    f = r[p]
                    for k, v in pr.items():
                        nv = r.get(k, 0) - f * v
                        if nv:
                            r[k] = nv
                        else:
                            r.pop(k, None)
            if not r:
                continue
            p = min(r)
            f = r[p]
            r = {k: v / f for k, v in r.items()}
            nred = []
            for q, qr in red:
                if p in qr:
                    f2 = qr[p]
                    qr = dict(qr)
                    for k, v in r.items():
                        nv = qr.get(k, 0) - f2 * v
                        if nv:
                            qr[k] = nv
                        else:
                            qr.pop(k, None)
                nred.append((q, qr))
            red = nred
            red.append((p, r))
        pivs = dict(red)
        eqs = []
        for free in range(n):
            if free in pivs:
                continue
            al = {free: Fraction(1)}
            for p, r in red:
                if free in r:
                    al[p] = -r[free]
            den = 1
            for x in al.values():
                den = den * x.denominator // gcd(den, x.denominator)
            e = Lin({}, 0)
            rhs = Lin({}, 0)
            for i, x in al.items():
                x = int(x * den)
                e = e + V(cols[i][1]).mul(x)
                fa = cols[i][2]
                rhs = rhs + Lin({t: w for t, w in fa.c.items() if self.rigid(t, mark) and t not in A.cons.sub and t not in B.cons.sub}, fa.k).mul(x)
            eqs.append(e - rhs)
        return eqs

    def _no(self, n, loc):
        self.why = (n, {k: loc.get(k) for k in ('k', 'c', 'h', 's', 'g', 'o', 'd', 'm', 't', 'hs', 'vh', 'vs', 'v', 'iv')})
        return False

    def included(self, H, S, mark, relax=None):
        """is S covered by the loop-head state H?"""
        self.gc(S)
        self.gc(H)
        m = {}
        todo = []

        def unify(h, s):
            todo.append((h, s))
            return True
        for eh, es in zip(H.stack + (H.env,), S.stack + (S.env,)):
            for k, vh in eh.items():
                vs = es.get(k)
                if vs is None:
                    return self._no(1, locals())
                if isinstance(vh, Lin) and isinstance(vs, Lin):
                    unify(vh, vs)
                elif isinstance(vh, tuple) and isinstance(vs, tuple):
                    if vh != vs:
                        if vh[0] == 'c' and len(vh[2].c) == 1 and SYMS[list(vh[2].c)[0]].name == 'jb':
                            continue
                        return self._no(2, locals())
                elif isinstance(vh, Lin):
                    return self._no(3, locals())
        for b, ch in H.mem.items():
            cs = S.mem.get(b)
            s0 = list(b.c)[0]
            for o, (z, vh) in ch.items():
                c = (cs or {}).get(o)
                if c is None or c[0] != z:
                    if SYMS[s0].kind == 'stack':
                        return self._no(4, locals())
                    v = S.cons.norm(self.gload(S, SYMS[s0].origin, o, z, False))
                else:
                    v = c[1]
                unify(vh, v)
        # globals written in S but never seen in H keep their initial value in H
        for b, cs in S.mem.items():
            s0 = list(b.c)[0]
            if SYMS[s0].kind == 'stack':
                continue
            ch = H.mem.get(b, {})
            for o, (z, v) in cs.items():
                if o not in ch:
                    iv = self.gload(H, SYMS[s0].origin, o, z, False)
                    if H.cons.norm(iv) != v and not S.cons.eq0(iv - v):
                        return self._no(5, locals())
        for k, v in H.gh.items():
            if k not in S.gh:
                return self._no(6, locals())
            unify(v, S.gh[k])
        # segments: every segment of H must be present in S
        rest = list(S.segs)
        deferred = []
        for g in H.segs:
            deferred.append(g)
        # resolve symbols
        def resolve():
            prog = True
            while prog:
                prog = False
                for (h, s) in todo:
                    hs = h.subst(m)
                    un = [t for t in h.c if t not in m and not self.rigid(t, mark)]
                    if len(un) == 1:
                        t = un[0]
                        cf = h.c[t]
                        rest_ = Lin({q: w for q, w in h.c.items() if q != t}, h.k).subst(m)
                        d = S.cons.norm(s - rest_)
                        if cf in (1, -1):
                            m[t] = d.mul(cf)
                            prog = True
                        elif d.divisible(abs(cf)):
                            m[t] = d.div(abs(cf)) if cf > 0 else -d.div(abs(cf))
                            prog = True
        resolve()
        # unresolved ends: pair segments of one label in order
        for g in deferred:
            if all(self.rigid(t, mark) or t in m for x in (g.lo, g.hi) + tuple(g.pay) for t in x.c):
                continue
            i = sum(1 for x in deferred[:deferred.index(g)] if x.label == g.label)
            c = [x for x in rest if x.label == g.label]
            if i < len(c) and len(c[i].pay) == len(g.pay):
                unify(g.lo, S.cons.norm(c[i].lo))
                unify(g.hi, S.cons.norm(c[i].hi))
                for x, y in zip(g.pay, c[i].pay):
                    unify(x, S.cons.norm(y))
        resolve()
        for g in deferred:
            ok = False
            lo = g.lo.subst(m)
            pay = [p.subst(m) for p in g.pay]
            if all(self.rigid(t, mark) or t in m for t in g.hi.c):
                hi = g.hi.subst(m)
                for s in rest + [None]:
                    if s is None:
                        if S.cons.eq0(lo - hi):
                            ok = True
                        break
                    if s.label == g.label and len(s.pay) == len(pay) and \
                            S.cons.eq0(s.lo - lo) and S.cons.eq0(s.hi - hi) and \
                            all(S.cons.eq0(x - y) for x, y in zip(s.pay, pay)):
                        ok = True
                        break
            else:
                return self._no(7, locals())
            if not ok:
                return self._no(8, locals())
        # slots
        seen = set()
        for h, sl in H.slots.items():
            hs = S.cons.norm(h.subst(m))
            if any(t not in m and not self.rigid(t, mark) for t in h.c):
                return self._no(20, locals())
            hs, s2 = self.find_slot(S, hs, create=False)
            if s2 is not None and s2.dirty and not sl.dirty:
                # written back: re-read below from the summarised table
                del S.slots[hs]
                self.mon.on_slot_drop(S, hs, s2, None)
                s2 = None
            if s2 is None:
                if sl.dirty:
                    return self._no(21, locals())
                hs, s2 = self.find_slot(S, hs)
            seen.add(hs)
            for o, (z, v) in sl.cells.items():
                c = s2.cells.get(o)
                if c is None or c[0] != z:
                    return self._no(22, locals())
                unify(v, S.cons.norm(c[1]))
        for h in list(S.slots):
            if S.slots[h].dirty and h not in seen:
                s2 = S.slots.pop(h)
                self.mon.on_slot_drop(S, h, s2, None)
        resolve()
        for (h, s) in todo:
            for t in h.c:
                if t not in m and not self.rigid(t, mark):
                    return self._no(23, locals())
            if not S.cons.eq0(h.subst(m) - s):
                return self._no(24, locals())
        for c in list(H.cons.ineq.values()):
            if any(t not in m and not self.rigid(t, mark) for t in c.c) or not S.cons.ge0(c.subst(m)):
                if relax is None:
                    return self._no(25, locals())
                relax.append(c)
                del H.cons.ineq[tuple(sorted(c.c.items()))]
        for t, f in m.items():
            y = SYMS[t]
            if y.lo is not None and not S.cons.ge0(f - y.lo):
                if relax is None:
                    return self._no(26, locals())
                relax.append(t)
                y.lo = 0 if y.lo > 0 and S.cons.ge0(f) else None
            if y.hi is not None and not S.cons.ge0(C(y.hi) - f):
                if relax is None:
                    return self._no(27, locals())
                relax.append(t)
                y.hi = None
        for s, rep in H.cons.sub.items():
            if self.rigid(s, mark) and s in (self.reach(S)):
                if not S.cons.eq0(V(s) - rep.subst(m)):
                    return self._no(28, locals())
        for d in list(H.cons.dis):
            if any(t not in m and not self.rigid(t, mark) for t in d.c) or not S.cons.ne0(d.subst(m)):
                if relax is None:
                    return self._no(29, locals())
                relax.append(d)
                H.cons.dis.discard(d)
        for x, b in list(H.hb):
            x2, b2 = S.cons.norm(x.subst(m)), S.cons.norm(b.subst(m))
            if x2 != b2 and not any(S.cons.norm(p) == x2 and S.cons.norm(q) == b2 for p, q in S.hb):
                if relax is None:
                    return self._no(31, locals())
                relax.append(x)
                H.hb.remove((x, b))
        for x, b in list(H.al):
            x2, b2 = S.cons.norm(x.subst(m)), S.cons.norm(b.subst(m))
            if not any(S.cons.norm(p) == x2 and S.cons.norm(q) == b2 for p, q in S.al) and not (
                    not b2.c and b2.k and x2.divisible(b2.k)):
                if relax is None:
                    return self._no(32, locals())
                relax.append(x)
                H.al.remove((x, b))
        for f in list(H.pow2):
            if not self.is_pow2(S, f.subst(m)):
                if relax is None:
                    return self._no(30, locals())
                relax.append(f)
                H.pow2.discard(f)
        return True
