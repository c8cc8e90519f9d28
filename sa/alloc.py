"""Ghost-state monitor for the record table: ownership of regions, page protection, record state machine, geometry of
handed-out blocks, contents (slack / fill), statistics.  Every rule is an obligation at a program point; a property
switches on the groups it needs."""
from common import *

OLO, OHI, OPR = -8, -7, -6         # ghost cells of a record: owned range, 1 = wholly inaccessible
OUA, OIS, OAL = -11, -10, -9       # values of block address, region size, allocator before the current function changed them
MAP_FIXED = 0x10 | 0x100000

GROUPS = {'own', 'prot', 'state', 'geom', 'align', 'slack', 'fill', 'stats', 'zero', 'free', 'dealloc', 'ret', 'file', 'limit'}


class SizeItem(Item):
    """a calling context of the allocation function, split into zero and non-zero size"""
    def __init__(self, config, fn, ctx, size, align=None):
        Item.__init__(self, config, fn, ctx)
        self.size, self.align = size, align     # '=0' / '>0' / None: any

    def __repr__(self):
        return '%s:%s[%s,size%s%s]' % (self.config, self.fn, self.ctx, self.size, ',alignment' + self.align if self.align else '')


ALIGNMENTS = ('>0', '=0,large', '=0,small', '=0,negative,small', '=0,negative,large')


class FreeItem(Item):
    """a calling context of the release function with one release family; addr: 'null' / 'common' instead of any address"""
    def __init__(self, config, fn, ctx, tag, addr=None):
        Item.__init__(self, config, fn, ctx)
        self.tag = tag
        self.addr = addr

    def __repr__(self):
        return '%s:%s[%s,%s%s]' % (self.config, self.fn, self.ctx, self.tag, ',' + self.addr if self.addr else '')


class OwnEngine(DumaEngine):
    track_prot = False
    trace_branch = True
    no_inline = frozenset(INITS)

    def make_slot(self, st, h, fresh=False):
        s = super().make_slot(st, h, fresh)
        f = lambda n: s.cells[self.slot_fields[n][0]][1]
        s.cells[OLO] = (1, f('internalAddress'))
        s.cells[OHI] = (1, st.cons.norm(f('internalAddress') + f('internalSize')))
        s.cells[OUA], s.cells[OIS], s.cells[OAL] = (1, f('userAddress')), (1, f('internalSize')), (1, f('allocator'))
        p = newsym('nonepr', 0, 1)
        for n in ('DUMAST_ALL_PROTECTED', 'DUMAST_BEGIN_PROTECTED'):
            self.add_pend(st, ('imp', ceq(f('state') - self.E[n]), [ceq(V(p) - 1)]))
        s.cells[OPR] = (1, st.cons.norm(V(p)))
        return s

    def on_prot(self, st, kind, addr, ln, I):
        self.mon.on_mprotect(st, kind, addr, ln, I)

    def on_table_prot(self, st, kind, full, ln, ls, I):
        pass

    def on_unmap(self, st, addr, ln, I):
        self.mon.on_munmap(st, addr, ln, I)

    def external(self, st, n, a, I):
        if n == 'munmap':
            addr, ln = st.cons.norm(a[0]), self.toU(st, a[1], 64)
            s2 = st.copy()
            # a failing munmap leaves the pages behind; the library then has to make them inaccessible
            self.on_unmap(st, addr, ln, I)
            self.on_unmap(s2, addr, ln, I)
            s2.gh['ua'], s2.gh['ul'] = addr, st.cons.norm(addr + ln)
            return [(st, C(0), 'ret'), (s2, C(-1), 'ret')]
        if n == 'mmap':
            ln = self.toU(st, a[1], 64)
            rs = super().external(st, n, a, I)
            out = []
            for s, v, k in rs:
                if not (not v.c and v.k == -1):
                    self.fire(s, True)
                    self.mon.on_mmap(s, s.cons.norm(v), ln, a, I)
                out.append((s, v, k))
            return out
        if n == 'DUMA_rel_sem':
            if st.tags['lk'] == 1:
                self.mon.settle(st, I, 'release of the lock')
                self.mon.on_unlock(st, I)
        r = super().external(st, n, a, I)
        if n == 'DUMA_get_sem' and st.tags['lk'] == 1:
            self.mon.on_lock(st, I)
        return r

    def mkey(self, st):
        return (tuple(sorted(k for k in st.gh if isinstance(k, tuple) and k[0] == 'new')),
                tuple(g.label for g in st.segs if g.label[0] == 'prot'), 'ua' in st.gh, 'plo' in st.gh, self.mon.argclass(st))

    def mon_list_moved(self, st, new, inst):
        self.mon.on_list_moved(st, new, inst)


CORE = ('_duma_allocate', '_duma_deallocate')


class AllocMon(Monitor):
    def __init__(self, item, groups):
        self.item = item
        self.on = set(groups)

    def start(self, eng):
        self.eng = eng
        # names and order of record states
        self.E = None

    # ------------------------------------------------------------------ helpers
    def ob(self, group, rule, ok, inst, msg, st):
        if group not in self.on:
            return True
        if any(n in CORE for n in self.eng.fnstack[1:]):
            return True     # the core functions called from here are the subject of items of their own
        if callable(ok):
            ok = st.cons.bot or ok()
        return self.eng.oblig(rule, bool(ok), inst, msg, st)

    def f(self, st, sl, name):
        if isinstance(name, int):
            o = name
        else:
            o = self.eng.slot_fields[name][0]
        c = sl.cells.get(o)
        return st.cons.norm(c[1]) if c else None

    def setcell(self, st, h, o, v):
        sl = st.slots[h]
        cells = dict(sl.cells)
        cells[o] = (1, st.cons.norm(v))
        st.slots[h] = Slot(cells, sl.init, sl.dirty, sl.fresh)

    def eq(self, st, a, b):
        return st.cons.eq0(st.cons.norm(a - b))

    def ge(self, st, a, b):
        return st.cons.ge0(st.cons.norm(a - b))

    def nslots(self, st):
        return list(st.slots.items())

    def state_of(self, st, v):
        """set of record states possible for the value"""
        v = st.cons.norm(v)
        if not v.c:
            return {v.k}
        return {k for k in self.eng.E.values() if not st.cons.ne0(v - k) and not self.eng.refute(st, ceq(v - k))}

    # ------------------------------------------------------------------ region ownership
    def on_mmap(self, st, base, ln, a, I):
        fl = st.cons.norm(a[3])
        self.ob('own', 'map-not-fixed', not fl.c and not (fl.k & MAP_FIXED), I,
                'maps new memory at a fixed address (may overlay existing blocks)', st)
        self.flush_pool(st, I)
        st.gh['plo'], st.gh['phi'] = base, st.cons.norm(base + ln)
        self.bytes(st, 'bA', ln)

    def flush_pool(self, st, I):
        if 'plo' in st.gh:
            self.settle_try(st)
        if 'plo' in st.gh:
            self.ob('own', 'mapped-region-recorded', self.eq(st, st.gh['plo'], st.gh['phi']), I,
                    'mapped memory is lost: not (exactly) covered by a record', st)
            st.gh.pop('plo', None)
            st.gh.pop('phi', None)

    def bytes(self, st, k, d):
        if 'stats' in self.on:
            st.gh[k] = st.cons.norm(st.gh.get(k, C(0)) + d)

    def owner(self, st, lo, hi):
        """materialised record whose owned range contains [lo,hi)"""
        for h, sl in self.nslots(st):
            a, b = self.f(st, sl, OLO), self.f(st, sl, OHI)
            if a is None or b is None:
                continue
            if not a.c and a.k == 0 and not b.c and b.k == 0:
                continue
            if self.ge(st, lo, a) and self.ge(st, b, hi):
                return h
        return None

    def on_mprotect(self, st, kind, addr, ln, I):
        addr = st.cons.norm(addr)
        hi = st.cons.norm(addr + ln)
        if 'ua' in st.gh:
            if self.eq(st, addr, st.gh['ua']) and self.eq(st, hi, st.gh['ul']):
                self.ob('prot', 'unmap-failure-denied', kind == 'NONE', I, 'memory that could not be unmapped stays accessible', st)
                st.gh.pop('ua'); st.gh.pop('ul')
                return
        self.settle_try(st)
        h = self.owner(st, addr, hi)
        self.ob('own', 'protection-change-inside-own-region', h is not None, I,
                'changes the protection of pages that are not known to lie inside the region of one record :: [%s,%s)' % (addr, hi), st)
        if h is None:
            return
        st.segs = [g for g in st.segs if not (g.label[0] == 'prot' and self.ge(st, g.lo, addr) and self.ge(st, hi, g.hi))]
        n = sum(1 for g in st.segs if g.label[0] == 'prot')
        st.segs.append(Seg(('prot', kind, n), addr, hi))
        if kind != 'NONE':
            self.setcell(st, h, OPR, C(0))
        else:
            sl = st.slots[h]
            if self.ge(st, self.f(st, sl, OLO), addr) and self.ge(st, hi, self.f(st, sl, OHI)):
                self.setcell(st, h, OPR, C(1))

    def on_munmap(self, st, addr, ln, I):
        addr = st.cons.norm(addr)
        hi = st.cons.norm(addr + ln)
        self.settle_try(st)
        if self.eq(st, addr, hi):
            return
        h = self.owner(st, addr, hi)
        self.ob('own', 'unmap-inside-own-region', h is not None, I,
                'unmaps pages that are not known to lie inside the region of one record :: [%s,%s)' % (addr, hi), st)
        self.bytes(st, 'bA', -(hi - addr))
        if h is None:
            return
        sl = st.slots[h]
        a, b = self.f(st, sl, OLO), self.f(st, sl, OHI)
        if self.eq(st, addr, a) and self.eq(st, hi, b):
            self.setcell(st, h, OLO, C(0))
            self.setcell(st, h, OHI, C(0))
        elif self.eq(st, hi, b):
            self.setcell(st, h, OHI, addr)
        elif self.eq(st, addr, a):
            self.setcell(st, h, OLO, hi)
        else:
            self.ob('own', 'unmap-leaves-one-piece', False, I, 'unmaps the middle of a region', st)

    def settle_try(self, st):
        """re-assign owned ranges to the ranges the records describe now, where that is a partition of what was owned"""
        if st.cons.bot:
            return []
        bad = []
        dirty = [(h, sl) for h, sl in self.nslots(st) if sl.dirty]
        avail = []
        want = []
        for h, sl in dirty:
            a, b = self.f(st, sl, OLO), self.f(st, sl, OHI)
            iA, iS = self.f(st, sl, 'internalAddress'), self.f(st, sl, 'internalSize')
            if a is None or b is None or iA is None or iS is None:
                continue
            e = st.cons.norm(iA + iS)
            if a == iA and b == e:
                continue
            if self.eq(st, a, iA) and self.eq(st, b, e):
                continue
            if self.eq(st, a, b):
                a = None
            if a is not None:
                avail.append((a, b, h))
            if self.eq(st, iS, C(0)):
                want.append((None, None, h))
            else:
                want.append((iA, e, h))
        if 'plo' in st.gh and not self.eq(st, st.gh['plo'], st.gh['phi']):
            avail.append((st.gh['plo'], st.gh['phi'], None))
        if not want and not (avail and any(x[2] is None for x in avail)):
            return []
        # walk every available range and cover it by wanted ones
        used = set()
        assign = []
        for a, b, h in avail:
            cur = a
            ok = True
            seq = []
            while not self.eq(st, cur, b):
                for i, (lo, hi, hh) in enumerate(want):
                    if i in used or lo is None:
                        continue
                    if self.eq(st, lo, cur) and self.ge(st, b, hi):
                        used.add(i)
                        seq.append(i)
                        cur = hi
                        break
                else:
                    ok = False
                    break
            if not ok:
                for i in seq:
                    used.discard(i)
                bad.append((a, b, h))
            else:
                assign.append((a, b, h, seq))
        unmatched = [w for i, w in enumerate(want) if i not in used and w[0] is not None]
        for w in want:
            if w[0] is None and not any(x[2] == w[2] for x in bad):
                sl = st.slots[w[2]]
                pass
        if bad or unmatched:
            return [('lost', a, b, h) for a, b, h in bad] + [('stolen', a, b, h) for a, b, h in unmatched]
        # commit
        oldpr = {}
        for h, sl in dirty:
            oldpr[h] = self.f(st, sl, OPR)
        for i, (lo, hi, hh) in enumerate(want):
            if lo is None:
                self.setcell(st, hh, OLO, C(0))
                self.setcell(st, hh, OHI, C(0))
        for a, b, h, seq in assign:
            for i in seq:
                lo, hi, hh = want[i]
                self.setcell(st, hh, OLO, lo)
                self.setcell(st, hh, OHI, hi)
                src = oldpr.get(h) if h is not None else C(0)
                self.setcell(st, hh, OPR, src if src is not None else C(0))
        st.gh.pop('plo', None)
        st.gh.pop('phi', None)
        return []

    def settle(self, st, I, when):
        if st.cons.bot:
            return
        bad = self.settle_try(st)
        if 'own' in self.on:
            for k, a, b, h in bad:
                self.ob('own', 'regions-partitioned', False, I,
                        ('memory owned before is covered by no record at %s' if k == 'lost' else
                         'a record describes memory it does not own at %s') % when + ' :: [%s,%s)' % (a, b), st)
            if not bad:
                self.ob('own', 'regions-partitioned', True, I, '', st)
        for h, sl in self.nslots(st):
            if sl.dirty:
                self.slot_final(st, h, sl, I, when)

    def on_block_end(self, st):
        if st.slots and any(s.dirty for s in st.slots.values()) or 'plo' in st.gh:
            self.settle_try(st)

    def on_slot_drop(self, st, h, sl, inst):
        if st.cons.bot:
            return
        if h not in st.slots:
            st.slots[h] = sl
            tmp = True
        else:
            tmp = False
        bad = [x for x in self.settle_try(st) if x[3] == h or x[3] is None]
        sl = st.slots[h]
        for k, a, b, hh in bad:
            self.ob('own', 'regions-partitioned', False, inst,
                    ('memory owned before is covered by no record' if k == 'lost' else
                     'a record describes memory it does not own') + ' :: [%s,%s)' % (a, b), st)
        if not bad:
            self.ob('own', 'regions-partitioned', True, inst, '', st)
        self.slot_final(st, h, sl, inst, 'end of its use')
        if tmp:
            st.slots.pop(h, None)

    # ------------------------------------------------------------------ record state machine
    def on_slot_store(self, st, h, off, size, val, old, inst):
        e = self.eng
        n = e.fbyoff.get(off)
        if self.on & {'stats'}:
            self.stats_store(st, h, off, n, val, old, inst)
        if n == 'state':
            E = e.E
            v = st.cons.norm(val)
            if old is None:
                return
            ns, os_ = self.state_of(st, v), self.state_of(st, old)
            EM, FR, IU = E['DUMAST_EMPTY'], E['DUMAST_FREE'], E['DUMAST_IN_USE']
            PR = {E['DUMAST_ALL_PROTECTED'], E['DUMAST_BEGIN_PROTECTED']}
            allowed = {EM: {EM, FR, IU} | PR, FR: {EM, FR, IU}, IU: {EM, FR, IU},
                       E['DUMAST_ALL_PROTECTED']: {IU, E['DUMAST_ALL_PROTECTED']},
                       E['DUMAST_BEGIN_PROTECTED']: PR}
            ok = all(os_ <= allowed.get(x, set()) for x in ns)
            self.ob('state', 'record-state-transition', ok, inst,
                    'a record changes from state %s to %s' % (sorted(self.nm(x) for x in os_), sorted(self.nm(x) for x in ns)), st)
            if ns == {IU}:
                st.gh[('new', 'h')] = h
            if os_ == {IU} and IU not in ns:
                self.freed(st, h, ns, inst)

    def nm(self, x):
        for n, v in self.eng.E.items():
            if v == x:
                return n
        return str(x)

    def freed(self, st, h, ns, inst):
        """a live record stops being live"""
        e = self.eng
        st.tags['freed'] = min(st.tags.get('freed', 0) + 1, 2)
        sl = st.slots[h]
        if 'file' in self.on and 'dfile' in st.gh:
            st.gh[('fr', 'h')] = h
        if 'dealloc' in self.on and 'dadr' in st.gh:
            self.ob('dealloc', 'freed-block-is-the-argument', self.eq(st, self.f(st, sl, OUA), st.gh['dadr']), inst,
                    'releases a block other than the one whose start was passed', st)
        if 'limit' in self.on:
            E = e.E
            PF, sp = e.gval(st, 'PROTECT_FREE'), e.gval(st, 'sumProtectedMem')
            iS = self.f(st, sl, OIS)
            kb = e.floordiv(st, iS, 1024)
            alc = self.f(st, sl, OAL)
            internal = self.eq(st, alc, C(e.EFA.get('EFA_INT_ALLOC', 0)))
            over = ('or', ('c', 'eq', PF), ('and', cge(PF), cge(sp + kb - PF - 1)))
            if ns == {E['DUMAST_EMPTY']}:
                ok = internal or (self.ge(st, PF, C(0)) and (st.cons.eq0(PF) or self.ge(st, sp + kb, PF + 1)))
                self.ob('limit', 'freed-memory-protected-when-room', ok, inst,
                        'gives up the protection of a freed block although protection is on and the limit has room', st)
            elif ns == {E['DUMAST_ALL_PROTECTED']}:
                ok = st.cons.ge0(-PF - 1) or self.ge(st, PF, sp + kb)
                self.ob('limit', 'protected-memory-within-limit', ok, inst,
                        'keeps a freed block protected although that exceeds the configured limit', st)

    # ------------------------------------------------------------------ protection of a record's region
    def segs_of(self, st):
        return [g for g in st.segs if g.label[0] == 'prot']

    def is_prot(self, st, lo, hi, kind, sl=None):
        """[lo,hi) provably has protection kind after all recorded changes"""
        L = self.segs_of(st)
        L.sort(key=lambda g: g.label[2])
        for i in range(len(L) - 1, -1, -1):
            g = L[i]
            if self.ge(st, lo, g.lo) and self.ge(st, g.hi, hi):
                return g.label[1] == kind
            if g.label[1] == kind or self.ge(st, lo, g.hi) or self.ge(st, g.lo, hi):
                continue    # disjoint, or the same protection on a part
            return False
        if kind == 'NONE' and sl is not None:
            p = self.f(st, sl, OPR)
            return p is not None and self.eq(st, p, C(1))
        return False

    def slot_final(self, st, h, sl, I, when):
        """a modified record is left as is: table invariant, protection"""
        e = self.eng
        E = e.E
        s = self.f(st, sl, 'state')
        if s is None:
            return
        ss = self.state_of(st, s)
        iA, iS = self.f(st, sl, 'internalAddress'), self.f(st, sl, 'internalSize')
        a, b = self.f(st, sl, OLO), self.f(st, sl, OHI)
        if None in (iA, iS, a, b):
            return
        PR = {E['DUMAST_ALL_PROTECTED'], E['DUMAST_BEGIN_PROTECTED']}
        if ss == {E['DUMAST_EMPTY']}:
            self.ob('own', 'empty-record-owns-nothing', self.eq(st, a, b) and self.eq(st, iS, C(0)) and self.eq(st, iA, C(0)), I,
                    'a record is marked unused although it still describes or owns memory', st)
            self.ob('own', 'empty-record-has-no-block', self.eq(st, self.f(st, sl, 'userAddress'), C(0)), I,
                    'an unused record still carries a block address', st)
        elif ss <= PR:
            if ('fr', 'h') in st.gh and self.eq(st, st.gh[('fr', 'h')], h) and 'dfile' in st.gh and 'filename' in e.slot_fields:
                fs = (e.m.di.enum('_DUMA_FileSource') or {}).get('DUMAFS_DEALLOCATION')
                for t in e.assume(st.copy(), cne(st.gh['dline']), None):
                    if t.cons.bot:
                        continue
                    self.ob('file', 'release-location-recorded', self.eq(t, self.f(t, sl, 'filename'), t.gh['dfile']) and
                            self.eq(t, e.toU(t, self.f(t, sl, 'lineno'), 32), e.toU(t, t.gh['dline'], 32)) and
                            (fs is None or self.eq(t, self.f(t, sl, 'fileSource'), C(fs))), I,
                            'a released block does not keep the location of its release', t)
            ok = self.is_prot(st, iA, st.cons.norm(iA + iS), 'NONE', sl)
            self.ob('prot', 'freed-region-inaccessible', ok, I,
                    'a freed block is recorded as protected but its region is not made wholly inaccessible', st)
            uA = self.f(st, sl, 'userAddress')
            self.ob('prot', 'freed-record-keeps-address', self.ge(st, uA, iA) and self.ge(st, iA + iS, uA + 1), I,
                    'a freed record no longer covers the start of its block', st)
        elif ss == {E['DUMAST_FREE']}:
            self.ob('own', 'pool-region-pages', iA.divisible(PAGE) and iS.divisible(PAGE) and self.ge(st, iS, C(PAGE)), I,
                    'a pool region is empty or not page aligned', st)
            self.ob('own', 'pool-region-internal', self.eq(st, self.f(st, sl, 'allocator'), C(e.EFA.get('EFA_INT_ALLOC', 0))), I,
                    'a pool region carries a user allocator', st)

    # ------------------------------------------------------------------ calls of the central functions
    def params(self, fn):
        F = self.eng.m.functions[fn]
        an = self.eng.argnames(F)
        inv = {n: i for i, n in an.items()}
        k, p, f = alloc_params(self.eng.m, fn)
        if fn == '_duma_allocate':
            return dict(align=inv.get('alignment', 0), size=inv.get('userSize', 1), below=inv.get('protectBelow', 2),
                        fill=inv.get('fillByte', 3), kind=k, fail=f, prot=p)
        return dict(addr=inv.get('address', 0), kind=k, prot=p)

    def at_entry(self, st, item):
        if item.fn in ('_duma_allocate', '_duma_deallocate'):
            F = self.eng.m.functions[item.fn]
            if isinstance(item, SizeItem):
                a = self.eng.toU(st, st.env[('a', self.params(item.fn)['size'])], 64)
                self.eng.add(st, ceq(a) if item.size == '=0' else cge(a - 1))
                if item.align:
                    b = self.eng.toU(st, st.env[('a', self.params(item.fn)['align'])], 64)
                    self.eng.add(st, cge(b - 1) if item.align == '>0' else ceq(b))
                    if item.align != '>0':      # the default alignment, read as unsigned where it is used
                        d = self.dflt(st)
                        u = lambda *cs: [self.eng.add(st, c) for c in cs]
                        if item.align == '=0,large':
                            u(cge(d - 1), cge(a - d))
                        elif item.align == '=0,small':
                            u(cge(d - 1), cge(d - a - 1))
                        elif item.align == '=0,negative,small':
                            u(cge(-d - 1), cge(d + (1 << 64) - a - 1))
                        else:
                            u(cge(-d - 1), cge(a - d - (1 << 64)))
            if isinstance(item, FreeItem):
                st.env[('a', alloc_params(self.eng.m, item.fn)[0])] = C(self.eng.EFA[item.tag])
                if item.addr:
                    st.env[('a', self.params(item.fn)['addr'])] = C(0) if item.addr == 'null' else st.cons.norm(self.eng.gval(st, 'null_addr'))
            self.enter(st, item.fn, [st.env[('a', i)] for i in range(len(F.params))], 1)
        if st.tags['lk']:
            self.on_lock(st, None)

    def dflt(self, st):
        for k in ('ALIGNMENT', 'TLS.ALIGNMENT'):
            if k in self.eng.g2:
                return self.eng.gval(st, k)

    def argclass(self, st):
        """the argument of a release: null, the common zero-size address, or neither (so far)"""
        a = st.gh.get('dadr')
        if a is None:
            return 0
        return 1 if self.eq(st, a, C(0)) else 3 if self.eq(st, a, self.eng.gval(st, 'null_addr')) else 2

    def silent(self, st, inst, what):
        if getattr(self.item, 'addr', None) and not st.cons.bot:
            self.ob('zero', 'accepted-silently', False, inst, '%s, releasing %s' % (
                what, 'a null pointer' if self.item.addr == 'null' else 'the common address of zero-size requests'), st)

    def on_call(self, st, name, args, inst):
        if name in ('DUMA_Abort', 'DUMA_Exit', '_duma_assert', 'DUMA_Print'):
            self.silent(st, inst, 'reports')
        if name in ('_duma_allocate', '_duma_deallocate') and name in self.eng.m.functions and name not in self.eng.no_inline:
            if any(sl.dirty for sl in st.slots.values()):
                st.tags['outer'] = 1
            self.enter(st, name, args, self.eng.fnstack.count(name) + 1)
        return None

    def enter(self, st, name, args, depth):
        P = self.params(name)
        if name == '_duma_allocate':
            for n in ('align', 'size', 'fill', 'kind', 'below'):
                v = args[P[n]]
                if isinstance(v, Lin):
                    if n in ('align', 'size'):
                        v = self.eng.toU(st, v, 64)
                    st.gh[('A', depth, n)] = st.cons.norm(v)
            if 'file' in self.on and len(args) > P['kind'] + 3:
                st.gh[('A', depth, 'file')], st.gh[('A', depth, 'line')] = (st.cons.norm(x) for x in args[P['kind'] + 2:P['kind'] + 4])
            for k in list(st.gh):
                if isinstance(k, tuple) and k[0] == 'new':
                    del st.gh[k]
        else:
            st.gh['dadr'] = st.cons.norm(args[P['addr']])
            st.gh['dkind'] = st.cons.norm(args[P['kind']])
            if 'file' in self.on and len(args) > P['kind'] + 2:
                st.gh['dfile'], st.gh['dline'] = (st.cons.norm(x) for x in args[P['kind'] + 1:P['kind'] + 3])
            st.tags['freed'] = 0

    def on_return(self, st, fname, ret, inst):
        if st.cons.bot:
            return
        if fname == '_duma_allocate':
            self.leave_alloc(st, ret, inst)
        elif fname == '_duma_deallocate':
            self.leave_dealloc(st, inst)

    def leave_dealloc(self, st, inst):
        e = self.eng
        if 'dadr' not in st.gh or self.item.ctx == 'int':
            st.gh.pop('dadr', None)
            return      # the library frees only blocks it got from the allocator itself
        a = st.gh['dadr']
        if st.tags.get('freed', 0) == 0:
            na = e.gval(st, 'null_addr')
            ok = self.eq(st, a, C(0)) or self.eq(st, a, na)
            self.ob('dealloc', 'invalid-free-does-not-return', ok, inst,
                    'returns without releasing anything although the argument is neither null nor the common zero-size address', st)
        else:
            self.ob('dealloc', 'released-once', st.tags['freed'] == 1, inst, 'more than one live block is released', st)
        for k in ('dadr', 'dkind', 'dfile', 'dline', ('fr', 'h')):
            st.gh.pop(k, None)
        st.tags.pop('freed', None)
        if len(e.fnstack) > 1:
            self.forget_prot(st)

    def forget_prot(self, st):
        """end of a nested call: protection changes become part of the records they belong to"""
        for h, sl in list(st.slots.items()):
            a, b = self.f(st, sl, OLO), self.f(st, sl, OHI)
            if a is None or b is None or OPR not in sl.cells:
                continue
            if self.is_prot(st, a, b, 'NONE', sl):
                self.setcell(st, h, OPR, C(1))
            elif any(not (self.ge(st, a, g.hi) or self.ge(st, g.lo, b)) for g in self.segs_of(st)):
                self.setcell(st, h, OPR, V(newsym('nonepr', 0, 1)))
        st.segs = [g for g in st.segs if g.label[0] != 'prot']
        if not st.tags.pop('outer', 0):
            bad = [x[3] for x in self.settle_try(st)]
            if not bad:
                # the records changed by the called function are the subject of its own items
                for h, sl in list(st.slots.items()):
                    if sl.dirty:
                        st.slots[h] = Slot(sl.cells, sl.init, False, sl.fresh)

    def leave_alloc(self, st, ret, inst):
        e = self.eng
        E = e.E
        depth = e.fnstack.count('_duma_allocate')
        arg = lambda n: st.gh.get(('A', depth, n))
        size, align, fill, kind = arg('size'), arg('align'), arg('fill'), arg('kind')
        self.settle(st, inst, 'return of the allocator')
        h = st.gh.get(('new', 'h'))
        ret = st.cons.norm(ret) if ret is not None else None
        na = e.gval(st, 'null_addr')
        isnull = ret is not None and (self.eq(st, ret, C(0)) or self.eq(st, ret, na))
        if size is None or ret is None:
            return
        if h is None:
            self.ob('ret', 'returned-block-has-record', isnull, inst, 'returns an address without a live record for it', st)
            if not self.eq(st, ret, C(0)):
                self.ob('zero', 'common-address-only-for-zero-size', self.eq(st, size, C(0)), inst,
                        'returns the common zero-size address for a non-zero size', st)
        else:
            h = st.cons.norm(h)
            h2, sl = e.find_slot(st, h, create=False)
            if sl is None:
                self.ob('ret', 'returned-block-has-record', False, inst, 'the record of the new block is not tracked to the return', st)
            else:
                self.new_block(st, h2, sl, ret, size, align, fill, kind, inst, arg)
        for k in [k for k in st.gh if isinstance(k, tuple) and (k[0] == 'new' or (k[0] == 'A' and k[1] == depth))]:
            del st.gh[k]
        if depth > 1 or self.item.fn != '_duma_allocate':
            self.forget_prot(st)

    def new_block(self, st, h, sl, ret, size, align, fill, kind, inst, arg=None):
        e = self.eng
        E = e.E
        f = lambda n: self.f(st, sl, n)
        iA, iS, uA, uS, pA = f('internalAddress'), f('internalSize'), f('userAddress'), f('userSize'), f('protAddress')
        end = st.cons.norm(iA + iS)
        self.ob('ret', 'record-is-live', self.state_of(st, f('state')) == {E['DUMAST_IN_USE']}, inst, 'the record of the new block is not marked live', st)
        self.ob('ret', 'record-has-returned-address', self.eq(st, uA, ret), inst, 'returns an address other than the one recorded', st)
        self.ob('ret', 'record-has-requested-size', self.eq(st, uS, size), inst, 'records a size other than the one requested', st)
        self.ob('ret', 'record-has-allocator', kind is not None and self.eq(st, f('allocator'), kind), inst, 'records another allocator than the caller\'s', st)
        if 'file' in self.on and arg is not None and 'filename' in e.slot_fields and arg('file') is not None:
            fs = (e.m.di.enum('_DUMA_FileSource') or {}).get('DUMAFS_ALLOCATION')
            self.ob('file', 'location-recorded', self.eq(st, f('filename'), arg('file')) and
                    self.eq(st, e.toU(st, f('lineno'), 32), e.toU(st, arg('line'), 32)) and (fs is None or self.eq(st, f('fileSource'), C(fs))), inst,
                    'the record does not carry the location the caller gave', st)
        self.ob('ret', 'address-not-null', self.ge(st, uA, C(1)), inst, 'a live record with a null address', st)
        for s in self.split0(st, size):
            f = lambda n: self.f(s, sl, n)
            zero = self.eq(s, size, C(0))
            if zero:
                self.ob('zero', 'zero-size-block-inaccessible', self.is_prot(s, iA, end, 'NONE', sl) and self.ge(s, uA, iA) and self.ge(s, end, uA + 1), inst,
                        'a zero-size block is not placed on an inaccessible page of its own', s)
                self.ob('zero', 'zero-size-strategy', self.zero_ok(s, kind), inst, 'a zero-size request gets a page of its own under another strategy', s)
                continue
            self.ob('geom', 'block-inside-region', self.ge(s, uA, iA) and self.ge(s, end, uA + uS), inst,
                    'the block is not contained in its region', s)
            self.ob('geom', 'block-accessible', self.is_prot(s, uA, s.cons.norm(uA + uS), 'RW'), inst,
                    'the block is not made readable and writable as a whole', s)
            for t, above in self.split_side(s, pA, uA):
                al = align
                if above:
                    self.ob('geom', 'guard-page-behind', self.ge(t, pA, uA + uS) and self.ge(t, end, pA + PAGE) and pA.divisible(PAGE), inst,
                            'no whole page behind the block inside its region', t)
                    self.ob('geom', 'guard-page-inaccessible', self.is_prot(t, pA, end, 'NONE'), inst,
                            'the page behind the block is not made inaccessible', t)
                    self.ob('geom', 'guard-adjacent', self.gap(t, pA - uA - uS, end - PAGE - uA - uS, al), inst,
                            'the inaccessible page is more than the alignment away from the end of the block', t)
                    self.ob('geom', 'side-selected', self.side(t, 0), inst, 'guard page on the other side than requested', t)
                else:
                    self.ob('geom', 'guard-page-in-front', self.ge(t, pA, iA) and self.ge(t, uA, pA + PAGE), inst,
                            'no whole page in front of the block inside its region', t)
                    self.ob('geom', 'guard-page-inaccessible', self.is_prot(t, pA, st.cons.norm(pA + PAGE), 'NONE') and self.is_prot(t, pA, uA, 'NONE'), inst,
                            'the page in front of the block is not made inaccessible', t)
                    self.ob('geom', 'guard-adjacent', self.eq(t, uA, pA + PAGE), inst,
                            'the inaccessible page does not directly precede the block', t)
                    self.ob('geom', 'side-selected', self.side(t, 1), inst, 'guard page on the other side than requested', t)
                if 'slack' in self.on:
                    self.slack(t, sl, iA, end, uA, uS, pA, above, inst)
            if 'align' in self.on:
                self.align(s, uA, align, inst)
            if 'fill' in self.on:
                self.fillcheck(s, uA, size, fill, inst)

    def side(self, st, below):
        d = self.eng.fnstack.count('_duma_allocate')
        b = st.gh.get(('A', d, 'below'))
        if b is None:
            return True
        return st.cons.ne0(b) if below else self.eq(st, b, C(0))

    def gap(self, st, d1, d2, align):
        """distance between end of block and guard page below the alignment in use"""
        cand = [align] if align is not None else []
        for v, a in st.al:
            cand.append(a)
        for a in cand:
            if self.ge(st, a, d1 + 1) or self.ge(st, a, d2 + 1):
                return True
        return self.ge(st, C(0), d1) or st.cons.ge0(C(1) - d1 - 1)

    def split0(self, st, size):
        e = self.eng
        if self.eq(st, size, C(0)) or self.ge(st, size, C(1)):
            return [st]
        e.quiet += 1
        a = e.assume(st.copy(), ceq(size))
        b = e.assume(st.copy(), cge(size - 1))
        e.quiet -= 1
        return a + b

    def split_side(self, st, pA, uA):
        if self.ge(st, pA, uA):
            return [(st, True)]
        if self.ge(st, uA, pA + 1):
            return [(st, False)]
        e = self.eng
        e.quiet += 1
        r = [(s, True) for s in e.assume(st.copy(), cge(pA - uA))] + [(s, False) for s in e.assume(st.copy(), cge(uA - pA - 1))]
        e.quiet -= 1
        return r

    def zero_ok(self, st, kind):
        return True

    def multiple(self, st, v, a):
        """v is provably a multiple of a"""
        v, a = st.cons.norm(v), st.cons.norm(a)
        if not a.c:
            return a.k > 0 and v.divisible(a.k)
        for x, b in st.al:
            if st.cons.norm(x) == v and st.cons.norm(b) == a:
                return True
        return False

    def align(self, st, uA, align, inst):
        e = self.eng
        size = st.gh.get(('A', e.fnstack.count('_duma_allocate'), 'size'))
        d = self.dflt(st)
        if d is None:
            raise Missing('default alignment')
        if self.ge(st, align, C(1)):
            cand = align
        elif not self.eq(st, align, C(0)):
            raise GiveUp('alignment not split')
        elif self.ge(st, d, C(1)) and self.ge(st, size, d):
            cand = d
        else:
            cand = None
            for x, b in st.al:
                if st.cons.norm(x) == uA and e.is_pow2(st, b) and self.ge(st, size, b) and self.ge(st, b.mul(2), size + 1):
                    cand = b
        if cand is None:
            self.ob('align', 'aligned-to-largest-power-of-two', False, inst,
                    'a block smaller than the default alignment is not aligned to the largest power of two not above its size', st)
            return
        self.ob('align', 'aligned-as-requested', self.multiple(st, uA, cand), inst,
                'the address of a block is not a multiple of the alignment in force', st)
        self.ob('align', 'alignment-is-power-of-two', e.is_pow2(st, cand), inst,
                'an alignment that is not a power of two is accepted', st)

    def slack(self, *a):
        pass

    def fillcheck(self, *a):
        pass

    # statistics / locking / table growth: see subclasses
    def stats_store(self, st, h, off, n, val, old, inst):
        pass

    def on_lock(self, st, I):
        pass

    def on_unlock(self, st, I):
        pass

    def on_list_moved(self, st, new, inst):
        pass

    def at_exit(self, st, v, kind, item):
        if getattr(item, 'addr', None):
            self.ob('zero', 'accepted-silently', kind == 'ret', self.where(item), '', st)
        if st.cons.bot:
            return
        self.settle(st, self.where(item), 'return to the program')
        if 'plo' in st.gh:
            self.flush_pool(st, self.where(item))

    def where(self, item):
        from rules.c05 import Where
        return Where(self.eng.m.functions[item.fn])


# ---- work items of the central functions

def tree_allocs(configs, sizes=('>0', '=0'), ctxs=('int', 'user', 'inner'), aligns=(None,)):
    return [SizeItem(c, '_duma_allocate', x, s, a) for c in configs for x in ctxs for s in sizes for a in aligns]


def tree_frees(configs):
    out = []
    for c in configs:
        out += [FreeItem(c, '_duma_deallocate', 'user', 'EFA_FREE', a) for a in ('null', 'common')]
        out.append(FreeItem(c, '_duma_deallocate', 'int', 'EFA_INT_DEALLOC'))
        out += [FreeItem(c, '_duma_deallocate', x, t) for x in ('user', 'inner') for t in ('EFA_FREE', 'EFA_DEL_ELEM', 'EFA_DEL_ARRAY')]
    return out


def run(ctx, groups, items):
    ctx.items(run_items(items, lambda it: AllocMon(it, groups), OwnEngine))
