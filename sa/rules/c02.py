"""Alignment of returned blocks."""
from common import *
import wrap, alloc

RULE = ('On every path on which the central allocation function returns a block of n>0 bytes the returned address is a multiple '
        'of the alignment argument (with none: of the default alignment, or of the largest power of two not above the size for '
        'smaller blocks), and the alignment used is a power of two, the function having ended in a report otherwise. Every '
        'interface hands on the alignment it documents; posix_memalign refuses only invalid alignments, and all of those.')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'noleak', 'explicit', 'prefer', 'nothread']
    ctxs = ('user',) if not ctx.thorough else ('user', 'inner')
    alloc.run(ctx, {'align'}, alloc.tree_allocs(configs, sizes=('>0',), ctxs=ctxs, aligns=alloc.ALIGNMENTS))
    wrap.run(ctx, {'align'}, configs)
