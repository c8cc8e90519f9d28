"""The unused bytes around a block: filled at allocation, compared later."""
from common import *
import alloc
from rules import c18
from rules.c05 import Where

RULE = ('Let R be the accessible part of a region without the block. On every path: when a block of n>0 bytes is returned every '
        'byte of R has been set to the pattern; before a live block of n>0 bytes stops being live every byte of R has been loaded '
        'and found equal to the pattern (the path continues only then); duma_check does so for the block whose address it was '
        'given, duma_checkAll for every live record; a counter reaching the checking frequency is reset only after such a scan '
        'of all records, and allocation and release advance it. The pattern compared is the one filled in.')


OCK = -20        # ghost cell of a record: parts of its unused bytes that are covered
FIELDS = ('internalAddress', 'internalSize', 'userAddress', 'userSize', 'protAddress')
_FOLD, _DEFS = {}, {}


def fold(F):
    """single byte accesses of the loops of a function: header -> instructions"""
    r = _FOLD.get(id(F))
    if r is not None:
        return r
    pos = {b: i for i, b in enumerate(F.rpo)}
    out = {}
    for h in F.rpo:
        back = [p for p in F.blocks[h].preds if p in pos and pos[p] >= pos[h]]
        if not back:
            continue
        body, todo = {h}, list(back)
        while todo:
            b = todo.pop()
            if b not in body:
                body.add(b)
                todo += [p for p in F.blocks[b].preds if p in pos]
        out[h] = [I for b in body for I in F.blocks[b].insts if I.op in ('load', 'store') and I.size == 1]
    _FOLD[id(F)] = out
    return out


class SegMixin:
    """covered ranges [lo, hi) per access of a loop: empty where the loop starts, growing by the bytes at hi"""
    def goto(self, F, B, succ, st, out):
        if not st.cons.bot and st.gh.get(('cl',)) is not None:
            self.mon.compared(st)
        super().goto(F, B, succ, st, out)
        if st.cons.bot or F.rpo.index(succ) <= F.rpo.index(B.idx):
            return
        acc = fold(F).get(succ)
        if acc:
            d = len(self.fnstack)
            for I in acc:
                a = self.at_loop_start(F, st, I.ops[0] if I.op == 'load' else I.ops[1], 0)
                k = ('sg', d, id(I))
                st.gh.pop(k + ('lo',), None)
                st.gh.pop(k + ('hi',), None)
                if isinstance(a, Lin) and not any(SYMS[x].kind == 'list' for x in st.cons.norm(a).c):
                    st.gh[k + ('lo',)] = st.gh[k + ('hi',)] = st.cons.norm(a)

    def make_slot(self, st, h, fresh=False):
        s = super().make_slot(st, h, fresh)
        s.cells[OCK] = (1, C(0))
        return s

    def mkey(self, st):
        """the side of the inaccessible page of the records at hand, where a branch has decided it, is kept apart"""
        o = self.slot_fields
        side = []
        if any(isinstance(k, tuple) and k[0] == 'sg' and k[1] == len(self.fnstack) for k in st.gh) and not st.cons.bot:
            for h, sl in st.slots.items():
                p, u = sl.cells.get(o['protAddress'][0]), sl.cells.get(o['userAddress'][0])
                if p and u:
                    d = p[1] - u[1]
                    side.append(1 if st.cons.ge0(st.cons.norm(d)) else 2 if st.cons.ge0(st.cons.norm(-d - 1)) else 0)
        mk = self.mon.mk(st) if hasattr(self.mon, 'mk') and not st.cons.bot else 0
        return (super().mkey(st), mk, tuple(sorted(x for x in side if x)))

    def gc(self, st, inst=None):
        if hasattr(self.mon, 'seen') and not st.cons.bot:
            for sl in list(st.slots.values()):
                self.mon.seen(st, sl)
        return super().gc(st, inst)

    def handle_live(self, st):
        r = super().handle_live(st)
        if any(isinstance(k, tuple) and k[0] == 'sg' for k in st.gh):
            r = list(r) + list(st.slots)
        return r

    def at_loop_start(self, F, st, o, n):
        """value of an address expression with the loop variables as they are at the start"""
        if o[0] in ('c', 'g', 'a'):
            v = self.val(st, o)
            return v if isinstance(v, Lin) else None
        if o[0] != 'v' or n > 8:
            return None
        if o in st.env:
            v = st.env[o]
            return v if isinstance(v, Lin) else None
        D = self.defs(F).get(o[1])
        if D is None:
            return None
        if D.op == 'gep':
            b = self.at_loop_start(F, st, D.ops[0], n + 1)
            if b is None:
                return None
            for t in D.x:
                if t[0] == 'c':
                    b = b + t[1]
                else:
                    return None
            return b
        if D.op in ('sext', 'zext', 'bitcast'):
            return self.at_loop_start(F, st, D.ops[0], n + 1)
        return None

    def defs(self, F):
        r = _DEFS.get(id(F))
        if r is None:
            r = _DEFS[id(F)] = {I.id: I for B in F.blocks for I in B.insts if I.id is not None}
        return r


class AEng(SegMixin, alloc.OwnEngine):
    def on_table_prot(self, st, kind, full, ln, ls, I):
        if hasattr(self.mon, 'table') and not st.cons.bot:
            self.mon.table(st)


class SEng(SegMixin, DumaEngine):
    """loops entered since the record at work was taken up are inner ones; the edge back of any other leaves the record"""
    def goto(self, F, B, succ, st, out):
        if not st.cons.bot and 'cur' in st.gh:
            k = (len(self.fnstack), F.name, succ)
            inner = st.tags.get('inl', frozenset())
            if F.rpo.index(succ) <= F.rpo.index(B.idx):
                if k not in inner:
                    self.mon.passed(st, B.insts[-1])
            elif succ in fold(F):
                st.tags['inl'] = inner | {k}
        if 'cur' in st.gh and not st.cons.bot:
            st.tags['lt'] = self.mon.verdict(st)
        return super().goto(F, B, succ, st, out)


class SegMon:
    fills = False
    sums, scans = {}, ()

    def patterns(self, st):
        e = self.eng
        out = []
        if 'slackfill' in e.slot_fields and not self.fills:
            o = e.slot_fields['slackfill'][0]
            out += [sl.cells[o][1] for h, sl in st.slots.items() if o in sl.cells]
        else:
            out.append(e.gval(st, 'SLACKFILL'))
        return out

    def is_pattern(self, st, v):
        e = self.eng
        v = e.toU(st, st.cons.norm(v), 8)
        return any(st.cons.eq0(st.cons.norm(v - e.toU(st, st.cons.norm(p), 8))) for p in self.patterns(st))

    def grow(self, st, addr, inst):
        k = ('sg', len(self.eng.fnstack), id(inst))
        hi = st.gh.get(k + ('hi',))
        if hi is not None and st.cons.eq0(st.cons.norm(hi - addr)):
            st.gh[k + ('hi',)] = st.cons.norm(addr + 1)

    def on_data_load(self, st, addr, size, sym, inst):
        super().on_data_load(st, addr, size, sym, inst)
        if size == 1 and not self.fills:
            st.gh[('cl',)], st.gh[('cv',)] = st.cons.norm(addr), V(sym)
            self.cinst = inst

    def compared(self, st):
        """at a branch: is the byte loaded last known to be the pattern?"""
        a, v = st.gh.pop(('cl',)), st.gh.get(('cv',))
        if v is not None and self.is_pattern(st, v):
            self.grow(st, a, self.cinst)

    def on_data_store(self, st, addr, size, val, inst):
        super().on_data_store(st, addr, size, val, inst)
        if not self.fills or st.cons.bot:
            return
        addr = st.cons.norm(addr)
        if size == 1 and isinstance(val, Lin) and self.is_pattern(st, val):
            self.grow(st, addr, inst)
        else:
            self.kill(st, addr, st.cons.norm(addr + size))

    def on_fill(self, st, dst, val, n, inst):
        super().on_fill(st, dst, val, n, inst)
        if not self.fills or st.cons.bot:
            return
        dst, hi = st.cons.norm(dst), st.cons.norm(dst + n)
        if self.is_pattern(st, val):
            k = ('sg', len(self.eng.fnstack), id(inst))
            st.gh[k + ('lo',)], st.gh[k + ('hi',)] = dst, hi
        else:
            self.kill(st, dst, hi)

    def kill(self, st, lo, hi):
        ge = lambda x: st.cons.ge0(st.cons.norm(x))
        for k in [k for k in st.gh if isinstance(k, tuple) and k[0] == 'sg' and k[3] == 'lo']:
            a, b = st.gh[k], st.gh.get(k[:3] + ('hi',))
            if b is None or not (ge(lo - b) or ge(a - hi)):
                st.gh.pop(k)
                st.gh.pop(k[:3] + ('hi',), None)

    def cover(self, st, lo, hi):
        ge = lambda x: st.cons.ge0(st.cons.norm(x))
        if ge(lo - hi):
            return True
        for k, a in st.gh.items():
            if isinstance(k, tuple) and k[0] == 'sg' and k[3] == 'lo':
                b = st.gh.get(k[:3] + ('hi',))
                if b is not None and ge(lo - a) and ge(b - hi):
                    return True
        return False

    def parts(self, st, f):
        """which parts of R of the record with the fields f are covered: 1 = below the block, 2 = above it"""
        e = self.eng
        iA, iS, uA, uS, pA = (f(n) for n in FIELDS)
        if None in (iA, iS, uA, uS, pA):
            return 0
        m = 3
        e.quiet += 1
        try:
            for s in e.assume(st.copy(), cge(uS - 1)):
                for t in e.assume(s.copy(), cge(uA - pA - 1)):      # inaccessible page in front
                    if not self.cover(t, uA + uS, iA + iS):
                        m &= 1
                for t in e.assume(s.copy(), cge(pA - uA)):
                    if not self.cover(t, iA, uA):
                        m &= 2
                    if not self.cover(t, uA + uS, pA):
                        m &= 1
        finally:
            e.quiet -= 1
        return m

    def mark(self, st, h, m):
        sl = st.slots[h]
        o = self.ok(st, sl)
        if o | m != o:
            cells = dict(sl.cells)
            cells[OCK] = (1, C(o | m))
            st.slots[h] = type(sl)(cells, sl.init, sl.dirty, sl.fresh)

    def ok(self, st, sl):
        c = sl.cells.get(OCK)
        v = st.cons.norm(c[1]) if c is not None else C(0)
        return 0 if v.c else v.k

    def leave(self, st):
        """end of the function whose loops covered the ranges: note the records that are covered"""
        d = len(self.eng.fnstack)
        if st.cons.bot or not any(isinstance(k, tuple) and k[0] == 'sg' and k[1] == d for k in st.gh):
            return
        if d > 1:
            for h, sl in list(st.slots.items()):
                m = self.parts(st, self.fields(st, sl))
                if m:
                    self.mark(st, h, m)
                    if hasattr(self, 'seen'):
                        self.seen(st, st.slots[h])
            self.dropseg(st)

    def on_call(self, st, name, args, I):
        """functions known (from their own analysis) to cover the unused bytes of the record they are given"""
        s = self.sums.get(name)
        if s is not None and name not in self.eng.fnstack:
            i, m = s
            if isinstance(args[i], Lin):
                h, sl = self.eng.find_slot(st, args[i])
                o = self.eng.slot_fields
                if m and (self.fills or all(o[n][0] not in sl.init or o[n][0] not in sl.cells or
                                            self.eq(st, sl.init[o[n][0]] if isinstance(sl.init[o[n][0]], Lin) else sl.init[o[n][0]][1],
                                                    sl.cells[o[n][0]][1]) for n in FIELDS)):
                    self.mark(st, h, m)
                    if 'slackfill' in o and self.fills:
                        self.setcell(st, h, o['slackfill'][0], self.eng.gval(st, 'SLACKFILL'))
                    if hasattr(self, 'seen'):
                        self.seen(st, st.slots[h])
                return [(st, None, 'ret')]
        if name in self.scans and name not in self.eng.fnstack:
            st.tags['scan'] = 1
            return [(st, None, 'ret')]
        return super().on_call(st, name, args, I)

    def fields(self, st, sl):
        if not self.fills:
            return self.initial(st, sl)
        return lambda n: self.f(st, sl, n)

    def covered(self, st, sl):
        o = self.ok(st, sl)
        return o == 3 or o | self.parts(st, self.fields(st, sl)) == 3

    def on_return(self, st, fname, ret, inst):
        self.leave(st)
        super().on_return(st, fname, ret, inst)

    def dropseg(self, st):
        for k in [k for k in st.gh if isinstance(k, tuple) and k[0] in ('sg', 'cl', 'cv')]:
            del st.gh[k]

    def initial(self, st, sl):
        o = self.eng.slot_fields

        def f(n):
            v = sl.init.get(o[n][0], sl.cells.get(o[n][0]))
            if isinstance(v, tuple):
                v = v[1]
            return st.cons.norm(v) if v is not None else None
        return f


class Freq:
    """the counter of operations between two scans"""
    def on_global_store(self, st, g, off, size, val, old, inst):
        super().on_global_store(st, g, off, size, val, old, inst)
        e = self.eng
        if 'checkFreqCounter' not in e.g2 or (g, off) != e.gf('checkFreqCounter')[:2] or st.cons.bot or not isinstance(val, Lin):
            return
        if self.eq(st, val, C(0)):
            self.ob('slack', 'frequency-scan', bool(st.tags.get('scan')), inst,
                    'the counter of operations is reset although not all records were checked', st)
            st.tags['cf'] = 1
        else:
            self.ob('slack', 'frequency-scan', self.eq(st, e.toS(st, val, size * 8), e.toS(st, old, size * 8) + 1) or
                    self.eq(st, val, old + 1), inst, 'the counter of operations does not count every operation', st)
            st.tags['cf'] = 2

    def settled(self, st):
        """the operation has been counted (and the scan made where due): no need to keep the ways apart any longer"""
        if st.tags.get('cf', 0) != 9 and not st.cons.bot and self.freq(st):
            st.tags['cf'] = 9
            st.tags.pop('scan', None)

    def on_call(self, st, name, args, I):
        r = super().on_call(st, name, args, I)
        if r is None:
            self.settled(st)
        return r

    def freq_exit(self, st, inst):
        self.ob('slack', 'frequency-scan', self.freq(st), inst, 'the configured number of operations has passed without a check of all records', st)

    def freq(self, st):
        e = self.eng
        if 'checkFreqCounter' not in e.g2 or not self.scans:
            return True
        cf = e.gval(st, 'CHECK_FREQ')
        t = st.tags.get('cf', 0)
        if t == 9:
            ok = True
        elif t == 0:
            ok = self.ge(st, C(0), cf)
        else:
            ok = t == 1 or e.holds(st, cne(e.gval(st, 'checkFreqCounter') - cf))
        return ok


class Fill(Freq, SegMon, alloc.AllocMon):
    fills = True

    def __init__(self, it, sums, scans):
        alloc.AllocMon.__init__(self, it, {'slack'})
        self.sums, self.scans = sums, scans

    def slack(self, st, sl, iA, end, uA, uS, pA, above, inst):
        f = lambda n: self.f(st, sl, n)
        self.ob('slack', 'slack-filled', self.covered(st, sl), inst,
                'a new block is returned with unused bytes around it that were not set to the pattern', st)
        if 'slackfill' in self.eng.slot_fields:
            self.ob('slack', 'slack-pattern-recorded', self.eq(st, f('slackfill'), self.eng.gval(st, 'SLACKFILL')), inst,
                    'the pattern filled in is not the one recorded for the check', st)
        self.newblock = True
        self.freq_exit(st, inst)

    def enter(self, st, name, args, depth):
        super().enter(st, name, args, depth)
        if name == '_duma_allocate':
            self.dropseg(st)

    def on_slot_store(self, st, h, off, size, val, old, inst):
        super().on_slot_store(st, h, off, size, val, old, inst)
        if self.eng.fbyoff.get(off) in FIELDS and not st.cons.bot:
            self.setcell(st, h, OCK, C(0))


class Free(Freq, SegMon, alloc.AllocMon):
    def __init__(self, it, sums, scans):
        alloc.AllocMon.__init__(self, it, {'slack'})
        self.sums, self.scans = sums, scans

    def freed(self, st, h, ns, inst):
        super().freed(st, h, ns, inst)
        ok = self.covered(st, st.slots[h])
        self.ob('slack', 'checked-before-release', ok, inst,
                'a block is released without all unused bytes around it having been compared with the pattern', st)
        self.freq_exit(st, inst)


class Check(SegMon, alloc.AllocMon):
    """duma_check(address)"""
    def __init__(self, it):
        alloc.AllocMon.__init__(self, it, {'slack'})

    def at_entry(self, st, item):
        super().at_entry(st, item)
        self.arg = st.cons.norm(st.env[('a', 0)])
        st.tags['ck'] = 0

    def mk(self, st):
        """the addresses that name no block are kept apart"""
        return 1 if self.eq(st, self.arg, C(0)) else 2 if self.eq(st, self.arg, self.eng.gval(st, 'null_addr')) else 0

    def seen(self, st, sl):
        if self.eq(st, self.f(st, sl, 'userAddress'), self.arg) and self.covered(st, sl):
            st.tags['ck'] = 1

    def table(self, st):
        for h, sl in list(st.slots.items()):
            self.seen(st, sl)

    def on_slot_drop(self, st, h, sl, inst):
        super().on_slot_drop(st, h, sl, inst)
        if not st.cons.bot:
            self.seen(st, sl)

    def at_exit(self, st, v, kind, item):
        if kind == 'ret' and not st.cons.bot:
            a = self.arg
            ok = st.tags['ck'] or self.eq(st, a, C(0)) or self.eq(st, a, self.eng.gval(st, 'null_addr'))
            self.ob('slack', 'explicit-check', bool(ok), self.where(item), 'duma_check returns without having compared the unused bytes around the block', st)


class All(SegMon, c18.Mon):
    """duma_checkAll: every record"""
    def verdict(self, st):
        e = self.eng
        if st.tags.get('lt', '?') in 'yn' and st.tags.get('lt'):
            return st.tags['lt']
        h = st.cons.norm(st.gh['cur'])
        s, us = self.f(st, h, 'state'), self.f(st, h, 'userSize')
        if s is None or us is None:
            return '?'
        cs = [ceq(s - e.E['DUMAST_IN_USE']), cge(us - 1)]
        if any(e.refute(st, c) for c in cs):
            return 'n'
        return 'y' if all(e.refute(st, cnot(c)) for c in cs) else '?'

    def passed(self, st, inst):
        e = self.eng
        v = self.verdict(st)
        h = st.cons.norm(st.gh.pop('cur'))
        st.tags['pr'], st.tags['lt'] = 0, ''
        st.tags.pop('inl', None)
        if not e.quiet:
            h2, sl = e.find_slot(st, h, create=False)
            ok = v == 'n' or (sl is not None and self.covered(st, sl))
            e.oblig('every-live-record-checked', ok, inst, 'a live record is passed over without its unused bytes being compared with the pattern', st)
        self.dropseg(st)

    def on_call(self, st, name, a, I):
        return None


class SumItem(Item):
    def __init__(self, config, fn, arg, fills):
        super().__init__(config, fn, 'inner')
        self.arg, self.fills = arg, fills

    def __repr__(self):
        return '%s:%s[%s record]' % (self.config, self.fn, 'fill' if self.fills else 'compare')


class Sum(SegMon, alloc.AllocMon):
    """a function given a live record: which parts of its unused bytes are covered when it returns"""
    def __init__(self, it):
        alloc.AllocMon.__init__(self, it, set())
        self.fills = it.fills

    def at_entry(self, st, item):
        e = self.eng
        q = newsym('rec', 0, 1 << 32)
        e.add(st, cge(e.gval(st, 'slotCount') - V(q) - 1))
        h = st.cons.norm(e.gval(st, 'allocList') + V(q).mul(e.slot_size))
        st.env[('a', item.arg)] = st.gh['rec'] = h
        h, sl = e.find_slot(st, h)
        for s in e.assume(st, ceq(self.f(st, sl, 'state') - e.E['DUMAST_IN_USE']), None):
            break

    def on_return(self, st, fname, ret, inst):
        if len(self.eng.fnstack) > 1:
            return super().on_return(st, fname, ret, inst)
        h, sl = self.eng.find_slot(st, st.gh['rec'], create=False)
        m = 0
        if sl is not None:
            m = self.ok(st, sl) | self.parts(st, self.fields(st, sl))
        self.eng.oblig('below', bool(m & 1), inst, '', st)
        self.eng.oblig('above', bool(m & 2), inst, '', st)


def candidates(config, root, fills):
    """functions below root that take a pointer and reach byte loops or block fills"""
    from lint import calls
    m = module(config)
    out, seen = [], set()

    def reach(n, path=()):
        F = m.functions.get(n)
        if F is None or F.decl or not F.blocks or n in path:
            return False
        if any(I.op == ('store' if fills else 'load') for v in fold(F).values() for I in v):
            return True
        return any((c.startswith('llvm.memset') or c == 'memset') if fills and c and m.functions.get(c, None) is None or (c or '').startswith('llvm.')
                   else (c and c not in DumaEngine.EVENTS and reach(c, path + (n,)))
                   for B, I in calls(F) for c in [I.x.get('callee')])

    def walk(n):
        F = m.functions.get(n)
        if F is None or F.decl or not F.blocks or n in seen or n in DumaEngine.EVENTS:
            return
        seen.add(n)
        for B, I in calls(F):
            c = I.x.get('callee')
            G = m.functions.get(c) if c else None
            if G is None or G.decl or c == root:
                continue
            if c not in seen and c not in CORE and c not in DumaEngine.EVENTS and reach(c):
                for i, p in enumerate(G.params):
                    if p[2]:
                        out.append((c, i))
            walk(c)
    walk(root)
    return out


CORE = ('_duma_allocate', '_duma_deallocate', '_duma_init', 'duma_init')


def summaries(configs):
    """config, fills -> {function: (index of the record parameter, parts covered)}"""
    items = [SumItem(c, fn, i, fl) for c in configs for fl, root in ((True, '_duma_allocate'), (False, '_duma_deallocate'))
             for fn, i in candidates(c, root, fl)]
    rs = run_items(items, Sum, AEng)
    out = {(c, fl): {} for c in configs for fl in (True, False)}
    for it, r in zip(items, rs):
        if r['error'] or not r['obligations']:
            continue
        bad = {x['rule'] for x in r['reports']}
        m = (0 if 'below' in bad else 1) | (0 if 'above' in bad else 2)
        if m and m > out[it.config, it.fills].get(it.fn, (0, 0))[1]:
            out[it.config, it.fills][it.fn] = (it.arg, m)
    return out, rs


def scan_functions(c):
    """functions duma_checkAll hands the scan to (decided by its own item)"""
    from lint import calls
    m = module(c)
    g = DumaEngine(m).gf('allocList')[:2]
    out = set()
    todo, seen = ['duma_checkAll'], set()
    while todo:
        f = todo.pop()
        for B, I in calls(m.functions[f]):
            n = I.x.get('callee')
            F = m.functions.get(n)
            if n and n not in seen and F is not None and not F.decl and F.blocks and n not in DumaEngine.EVENTS:
                seen.add(n)
                todo.append(n)
                pos = {b: i for i, b in enumerate(F.rpo)}
                if any(t in pos and pos[t] <= pos[b] for b in F.rpo for t in F.blocks[b].succs) and \
                        any(o[:1] == ('g',) and o[1:3] == g for b in F.rpo for x in F.blocks[b].insts for o in x.ops):
                    out.add(n)
    return out


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    sc = {c: scan_functions(c) for c in configs}
    sums, rs = summaries(configs)
    al = [i for i in alloc.tree_allocs(configs, sizes=('>0',))]
    fr = [i for i in alloc.tree_frees(configs) if not i.addr]
    full = {k: any(m == 3 for i, m in v.values()) or sum({m for i, m in v.values()}) >= 3 for k, v in sums.items()}
    for known in (True, False):
        E = alloc.OwnEngine if known else AEng      # loops outside the functions above are followed only where those do not suffice
        ctx.items(run_items([i for i in al if full[i.config, True] == known], lambda it: Fill(it, sums[it.config, True], sc[it.config]), E))
        ctx.items(run_items([i for i in fr if full[i.config, False] == known], lambda it: Free(it, sums[it.config, False], sc[it.config]), E))
    ctx.items(run_items([Item(c, 'duma_check') for c in configs], Check, AEng))
    ctx.items(run_items([Item(c, 'duma_checkAll') for c in configs], All, SEng))
