"""Geometry and page protection of handed-out blocks."""
from common import *
import wrap, alloc

RULE = ('(1) On every path on which the central allocation function hands out a block of n>0 bytes: the block lies inside the '
        'region recorded for it, [address, address+n) is inside the pages made accessible, a whole page that is inaccessible '
        'on return borders the region on the chosen side, with fewer bytes in between than the alignment requested, and that '
        'page belongs to the same region. (2) Every mprotect/mmap/munmap issued by the central functions covers only pages of '
        'the region of the record at work (or of the record table, or of memory just obtained). (3) Every interface hands '
        'the configured protection side to the central function.')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    alloc.run(ctx, {'geom', 'ret', 'prot', 'own'}, alloc.tree_allocs(configs, sizes=('>0',)))
    alloc.run(ctx, {'prot', 'own'}, alloc.tree_frees(configs))
    wrap.run(ctx, {'below'}, configs)
