"""Sizes from the interface to the system."""
from common import *
import wrap, alloc
from rules import c16

RULE = ('Every interface requests exactly the number of bytes asked for; a product of element count and size is either exact or '
        'makes the request fail. In the central function, for every size and alignment up to 2^64-1, the length given to the '
        'system and recorded for the region, as unwrapped integer, covers block, alignment and border page, or the request '
        'fails.')


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    wrap.run(ctx, {'size', 'kind', 'once'}, configs)
    c16.run(ctx, {'size'}, configs)
    cc = configs[:1] if not ctx.thorough else configs
    alloc.run(ctx, {'geom', 'ret', 'own'}, alloc.tree_allocs(cc, sizes=('>0',), ctxs=('user', 'int')))
