"""Contents of new memory."""
from common import *
import wrap, alloc
from rules import c16
from rules.c05 import Where

RULE = ('Central allocation function: on every path that returns a new block of n>0 bytes with a fill value v other than -1, the '
        'whole block [user address, user address + n) has been set to v. Every '
        'allocation entry point passes the configured fill value (calloc: 0). Resizing: the bytes gained are set to zero before '
        'the new block is returned.')


class Mon(alloc.AllocMon):
    """must-have-happened block fills, kept per site"""
    def at_entry(self, st, item):
        super().at_entry(st, item)
        e = self.eng
        v = st.gh.get(('A', 1, 'fill'))
        if v is not None and v.c:        # a byte or -1: what the entry points and the settings give (decided by C19 and below)
            v = e.toS(st, v, 32)
            st.gh[('A', 1, 'fill')] = v
            e.add(st, cge(v + 1))
            e.add(st, cge(C(255) - v))

    def enter(self, st, name, args, depth):
        super().enter(st, name, args, depth)
        if name == '_duma_allocate':
            for k in [k for k in st.gh if isinstance(k, tuple) and k[0] == 'fl' and k[1] >= depth]:
                del st.gh[k]

    def on_fill(self, st, dst, val, n, inst):
        d = self.eng.fnstack.count('_duma_allocate')
        site = (len(self.eng.fnstack), getattr(inst, 'id', 0))
        for k, v in (('d', dst), ('v', val), ('n', n)):
            st.gh[('fl', d, site, k)] = st.cons.norm(v)
        super().on_fill(st, dst, val, n, inst)

    def fillcheck(self, st, uA, size, fill, inst):
        e = self.eng
        d = e.fnstack.count('_duma_allocate')
        if fill is None:
            raise Missing('fill parameter')
        fill = e.toS(st, fill, 32)
        e.quiet += 1
        sts = [s for s in e.assume(st.copy(), cge(fill))] if not e.holds(st, cge(-fill - 1)) else []
        e.quiet -= 1
        for s in sts:
            ok = False
            for k in [k for k in s.gh if isinstance(k, tuple) and k[0] == 'fl' and k[1] == d and k[3] == 'd']:
                g = lambda x: s.gh.get(('fl', d, k[2], x))
                if g('n') is None or g('v') is None or g('d') is None:
                    continue
                same = self.eq(s, e.toU(s, g('v'), 8), e.toU(s, fill, 8))
                if same and self.ge(s, uA, g('d')) and self.ge(s, g('d') + g('n'), uA + size):
                    ok = True
            self.ob('fill', 'block-filled', ok, inst, 'a new block is returned without all its bytes being set to the fill value', s)
        if not sts:
            self.ob('fill', 'block-filled', True, inst, '', st)


class Re(c16.Mon):
    """tag 'z': nothing gained, or the bytes gained have been set to zero"""
    def gain(self, st):
        os_, blk = self.oldsize(st), st.gh.get(('blk',))
        if os_ is not None and blk is not None and self.eng.holds(st, cge(os_ - self.new)):
            st.tags['z'] = 1

    def on_fill(self, st, dst, val, n, inst):
        super().on_fill(st, dst, val, n, inst)
        e = self.eng
        os_, blk = self.oldsize(st), st.gh.get(('blk',))
        if os_ is not None and blk is not None and self.eq(st, e.toU(st, st.cons.norm(val), 8), C(0)):
            off = st.cons.norm(dst - blk)
            if e.holds(st, cge(os_ - off)) and e.holds(st, cge(off + n - self.new)):
                st.tags['z'] = 1

    def on_copy(self, st, dst, src, n, inst):
        super().on_copy(st, dst, src, n, inst)
        self.gain(st)

    def on_assume(self, st, cond, inst):
        super().on_assume(st, cond, inst)
        if st.tags.get('nok') and not st.tags.get('z'):
            self.gain(st)

    def at_exit(self, st, v, kind, item):
        super().at_exit(st, v, kind, item)
        t = st.tags
        if t['nok'] and not t.get('none'):
            self.ob('fill', 'gained-bytes-zero', bool(t.get('z')), self.where, 'the bytes a resized block gains are not set to zero', st)


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    wrap.run(ctx, {'fill'}, configs)
    ctx.items(run_items([Item(c, '_duma_realloc') for c in configs], lambda it: Re(it, {'fill'}), c16.Eng))
    items = [alloc.SizeItem(c, '_duma_allocate', x, '>0') for c in configs for x in ('user', 'inner')]
    ctx.items(run_items(items, lambda it: Mon(it, {'fill'}), alloc.OwnEngine))
