"""DUMA-specific semantic model on top of the abstract interpreter: record-table invariants,
global invariants, lock / record-table typestate, page-protection events."""
from engine import *
from engine import Engine, Slot, Seg

SHARED = {'allocList', 'allocListSize', 'slotCount', 'unUsedSlots', 'sumAllocatedMem', 'sumTotalAllocatedMem',
          'sumProtectedMem', 'numDeallocs', 'numAllocs', 'checkFreqCounter'}
# record states, public contract of the record table (values re-read from the enum in DumaEngine)


class Missing(Exception):
    """an anchor the rules need is not in the code any more"""


class DumaEngine(Engine):
    def __init__(self, mod, monitor=None, uninit=False):
        self.uninit = uninit
        super().__init__(mod, monitor)
        di = mod.di
        self.E = di.enum('_DUMA_SlotState') or {}
        self.FS = di.enum('_DUMA_Slot_FileSource') or {}
        self.AT = di.enum('_DUMA_AllocType') or {}
        self.EFA = di.enum('_DUMA_Allocator') or {}
        self.IS = di.enum('_DUMA_InitState') or {}
        for n in ('DUMAST_EMPTY', 'DUMAST_FREE', 'DUMAST_IN_USE', 'DUMAST_ALL_PROTECTED', 'DUMAST_BEGIN_PROTECTED'):
            if n not in self.E:
                raise Missing('record state %s' % n)
        for n in ('internalAddress', 'userAddress', 'protAddress', 'internalSize', 'userSize', 'state', 'allocator'):
            if n not in self.slot_fields:
                raise Missing('record field %s' % n)
        self.g2 = {}
        for g, ms in self.gfields.items():
            for n in ms:
                if n:
                    self.g2.setdefault(n, (g, ms[n][0], ms[n][1], ms[n][2]))
        self.alloc_table = self._find_table()

    def _find_table(self):
        """the constant allocator description table: [(name, type, std)]"""
        di = self.m.di
        for g, G in self.m.globals.items():
            ty = di.var.get(g)
            if ty is None or not G.const:
                continue
            k = di.kind(ty)
            if k[0] == 'array':
                k2 = di.kind(k[1])
                if k2[0] == 'struct':
                    ms = di.struct_members(k2[1])
                    if 'type' in ms and 'std' in ms and 'name' in ms:
                        esz = int(di.n[k2[1]][1].get('size', 0)) // 8
                        out = []
                        for i in range(G.size // esz):
                            def cell(n):
                                c = G.cells.get(i * esz + ms[n][0])
                                return c[1] if c else ('c', 0, 32)
                            nm = cell('name')
                            s = self.m.globals[nm[1]].string if nm[0] == 'g' else None
                            out.append((s, cell('type')[1], cell('std')[1]))
                        return dict(name=g, esz=esz, ms=ms, rows=out)
        return None

    def gf(self, name):
        r = self.g2.get(name)
        if r is None and name in self.m.globals and not self.m.globals[name].decl:
            return (name, 0, self.m.globals[name].size, None)
        if r is None:
            raise Missing('state variable %s' % name)
        return r

    # ------------------------------------------------------------ invariants assumed on entry
    def shared(self, g, off):
        f = self.goff.get((g, off))
        return f is not None and f[0] in SHARED

    def gen_list(self, gen):
        """geometry symbols of the record table for one lock generation"""
        k = ('geom', gen)
        r = self.initval.get(k)
        if r is None:
            n = newsym('tblpages%d' % gen, 1, 1 << 30)
            SYMS[n].defn = ('init', k)
            r = self.initval[k] = V(n)
        return r

    def mon_init_global(self, g, off, size, s, field, gen):
        y = SYMS[s]
        if self.uninit:
            G = self.m.globals.get(g)
            if G is not None and not G.decl and field is not None and g in ('_duma_s', '_duma_g'):
                c = G.cells.get(off)
                if c and c[1][0] == 'c' and c[0] == size:
                    return C(c[1][1]), []
                if c and c[1][0] == 'g':
                    return self.gaddr(c[1][1]) + c[1][2], []
        spp = PAGE // self.slot_size
        if field == 'allocList':
            y.lo = 0x10000
            q = newsym('listq', 16, 1 << 35)
            SYMS[q].defn = ('init', ('listq', gen))
            y.kind = 'list'
            return V(s), [cge(C(ADDR_MAX) - V(s) - self.gen_list(gen).mul(PAGE))]
        if field == 'allocListSize':
            return self.gen_list(gen).mul(PAGE), []
        if field == 'slotCount':
            return self.gen_list(gen).mul(spp), []
        if field == 'slotsPerPage':
            return C(spp), []
        if field == 'unUsedSlots':
            y.lo = 0
            return V(s), [cge(self.gen_list(gen).mul(spp) - V(s))]
        if field == 'init_state':
            return C(self.IS.get('DUMAIS_OUT_INIT', 0)), []
        if field == 'null_addr':
            q = newsym('nullq', 16, 1 << 35)
            SYMS[q].defn = ('init', ('nullq', gen))
            return V(q).mul(PAGE), []
        if field == 'TLS.ALIGNMENT':
            return V(s), [cne(V(s))]
        rng = {'SLACKFILL': (0, 255), 'MALLOC_0_STRATEGY': (0, 3), 'NEW_0_STRATEGY': (2, 3), 'TLS.FILL': (-1, 255),
               'CHECK_FREQ': (0, (1 << 31) - 1), 'checkFreqCounter': (0, (1 << 31) - 2),
               'sumProtectedMem': (0, 1 << 50), 'sumAllocatedMem': (-(1 << 50), 1 << 50),
               'sumTotalAllocatedMem': (0, 1 << 60), 'numAllocs': (0, 1 << 61), 'numDeallocs': (0, 1 << 61),
               'PROTECT_FREE': (-(1 << 60), 1 << 60), 'MAX_ALLOC': (-(1 << 60), 1 << 60),
               'TLS.DelPtr': (0, 255)}
        if field in rng:
            y.lo, y.hi = rng[field]
        return None

    def slot_invariants(self, st, f, h):
        E = self.E
        st_ = f['state']
        s = list(st_.c)[0]
        SYMS[s].lo, SYMS[s].hi = 0, max(E.values())
        iA, iS, uA, uS, pA, al = (f[n] for n in ('internalAddress', 'internalSize', 'userAddress', 'userSize',
                                                 'protAddress', 'allocator'))
        for v, nm in ((iA, 'iA'), (iS, 'iS')):
            q = newsym(nm + 'q', 0, 1 << 35)
            st.cons.add_eq(v - V(q).mul(PAGE))
        SYMS[list(uS.c)[0]].hi = ADDR_MAX
        a = list(al.c)[0]
        SYMS[a].lo, SYMS[a].hi = 0, max(self.EFA.values() or [17])
        st.cons.add_ge(C(ADDR_MAX) - iA - iS)
        INT = self.EFA.get('EFA_INT_ALLOC', 0)
        is_ = lambda n: ceq(st_ - E[n])
        add = lambda c: self.add_pend(st, c)
        add(('imp', is_('DUMAST_EMPTY'), [ceq(iA), ceq(iS), ceq(uA), ceq(uS), ceq(al - INT)]))
        add(('imp', is_('DUMAST_FREE'), [cge(iA - 0x10000), cge(iS - PAGE), ceq(al - INT)]))
        live = [cge(iA - 0x10000), cge(iS - PAGE), cge(uA - iA), cge(iA + iS - uA - 1)]
        add(('imp', is_('DUMAST_BEGIN_PROTECTED'), live + [cne(al - INT)]))
        geo = [('imp', ceq(uS), [ceq(uA - iA - PAGE // 2), ceq(pA - iA)]),
               ('imp', cge(uS - 1), [
                   ('imp', cge(pA - uA), [cge(pA - uA - uS), cge(iA + iS - pA - PAGE)]),
                   ('imp', cge(uA - pA - 1), [cge(uA - pA - PAGE), cge(pA - iA), cge(iA + iS - uA - uS)])])]
        q = newsym('pAq', 0, 1 << 35)
        st.cons.add_eq(pA - V(q).mul(PAGE))
        user = cne(al - INT)
        add(('imp', is_('DUMAST_IN_USE'), live + [cge(iA + iS - uA - uS), ('imp', user, geo)]))
        add(('imp', is_('DUMAST_ALL_PROTECTED'), live + [cne(al - INT), cge(iA + iS - uA - uS)] + geo))

    def check_slot(self, st, h, sl, inst, rule='inv'):
        """guarantee side: a modified record satisfies the table invariants"""
        E = self.E
        f = {}
        for n, (o, z, ty) in self.slot_fields.items():
            c = sl.cells.get(o)
            if c is None:
                return
            f[n] = st.cons.norm(c[1])
        return f

    # ------------------------------------------------------------ entry state
    def entry(self, lk=0, lst='C'):
        st = new_state()
        st.tags['lk'] = lk
        st.tags['lst'] = lst
        st.tags['gen'] = 0
        return st

    def gval(self, st, name):
        g, o, z, ty = self.gf(name)
        return st.cons.norm(self.gload(st, g, o, z, False))

    # totals of a 47 bit address space in kB; C04 decides that they change by exactly what the records change
    TOTALS = {'sumProtectedMem': 1 << 40, 'sumAllocatedMem': 1 << 40}

    def gload(self, st, g, off, size, isptr):
        v = super().gload(st, g, off, size, isptr)
        f = self.goff.get((g, off))
        if f and f[0] in self.TOTALS and v.c and not st.cons.bot:
            b = self.TOTALS[f[0]]
            if not st.cons.ge0(v + b) or not st.cons.ge0(C(b) - v):
                st.cons.add_ge(v + b)
                st.cons.add_ge(C(b) - v)
                v = st.cons.norm(v)
        return v

    def set_sym_arg(self, st, F, i, name, lo=0, hi=None):
        b = F.params[i][1]
        di = (F.di or {}).get('args', {}).get(i + 1)
        if F.params[i][2]:
            s = newsym(name, 0, ADDR_MAX)
        else:
            signed = False
            if di:
                k = self.m.di.kind(di[1])
                signed = k[0] == 'int' and k[2]
            if signed:
                s = newsym(name, -(1 << (b - 1)), (1 << (b - 1)) - 1)
            else:
                s = newsym(name, 0, (1 << b) - 1)
        st.env[('a', i)] = V(s)
        return V(s)

    def argnames(self, F):
        out = {}
        for i in range(len(F.params)):
            di = (F.di or {}).get('args', {}).get(i + 1)
            out[i] = di[0] if di else F.params[i][0]
        return out

    # ------------------------------------------------------------ events
    def acquire(self, st, I):
        d = st.tags['lk']
        st.tags['lk'] = d + 1
        if d == 0:
            st.tags['gen'] += 1
            for n in SHARED:
                if n in self.g2:
                    g, o, z, ty = self.g2[n]
                    b = self.gaddr(g)
                    cells = st.mem.get(b)
                    if cells and o in cells:
                        cells = dict(cells)
                        del cells[o]
                        st.mem[b] = cells
            for h in list(st.slots):
                del st.slots[h]

    def list_region(self, st):
        """(address, size) of the record table"""
        return self.gval(st, 'allocList'), self.gval(st, 'allocListSize')

    def store(self, st, a, v, size, inst):
        # a new table address keeps the 'list' kind so that accesses through it are record accesses
        kind, base, off = self.region(st, st.cons.norm(a))
        if kind == 'global' and not off.c:
            f = self.goff.get((SYMS[base].origin, off.k))
            if f and f[0] == 'allocList':
                v = st.cons.norm(v)
                if not self._isslot(v) and v.c:
                    self.mon_list_moved(st, v, inst)
                    for h in list(st.slots):
                        sl = st.slots.pop(h)
                        if sl.dirty:
                            self.mon.on_slot_drop(st, h, sl, inst)
                    c = [s for s, w in v.c.items() if SYMS[s].kind is None and w in (1, PAGE)]
                    if c:
                        SYMS[c[0]].kind = 'list'
                        if v.c[c[0]] != 1:
                            self.scale[c[0]] = v.c[c[0]]
        super().store(st, a, v, size, inst)

    def mon_list_moved(self, st, new, inst):
        pass

    def external(self, st, n, a, I):
        if n == 'DUMA_get_sem':
            self.acquire(st, I)
            return [(st, None, 'ret')]
        if n == 'DUMA_rel_sem':
            st.tags['lk'] -= 1
            return [(st, a[0] if a else None, 'ret')]
        if n == 'mprotect':
            addr, ln, pr = a[0], self.toU(st, a[1], 64), st.cons.norm(a[2])
            s2 = st.copy()
            kind = 'NONE' if (not pr.c and pr.k == 0) else ('RW' if (not pr.c and pr.k == 3) else 'PROT?')
            la, ls = self.list_region(st)
            if self.same(st, addr, la):
                full = st.cons.eq0(ln - ls)
                self.on_table_prot(st, kind, full, ln, ls, I)
                st.tags['lst'] = {'NONE': 'C', 'RW': 'O'}.get(kind, '?') if full else 'P'
            else:
                self.on_prot(st, kind, addr, ln, I)
                self.add_prot(st, kind, addr, ln)
            return [(st, C(0), 'ret'), (s2, C(-1), 'ret')]
        if n == 'munmap':
            addr, ln = a[0], self.toU(st, a[1], 64)
            s2 = st.copy()
            if self.track_unmapfail:
                s2.tags['unmapfail'] = 1
            self.on_unmap(st, addr, ln, I)
            return [(st, C(0), 'ret'), (s2, C(-1), 'ret')]
        return super().external(st, n, a, I)

    def same(self, st, x, y):
        d = st.cons.norm(x - y)
        if not d.c:
            return d.k == 0
        if len(d.c) > 4:
            return False
        return st.cons.eq0(d)

    def on_table_prot(self, st, kind, full, ln, ls, I):
        pass

    def on_prot(self, st, kind, addr, ln, I):
        pass

    def on_unmap(self, st, addr, ln, I):
        pass

    track_prot = False
    track_unmapfail = False

    def add_prot(self, st, kind, addr, ln):
        if self.track_prot:
            st.segs.append(Seg(('prot', kind, sum(1 for g in st.segs if g.label[0] == 'prot')), addr, addr + ln))
