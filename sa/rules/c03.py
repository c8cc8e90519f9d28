"""Freed memory: protection, no reuse, release within the limits."""
from common import *
import alloc

RULE = ('In the central functions, for every context and family: (1) a record becomes "freed, protected" only with its whole '
        'region made inaccessible before, while protection of freed memory is switched on and the block fits the limit; '
        'otherwise its region is unmapped or its record is given to the pool; (2) addresses handed out, made accessible, '
        'unmapped or entered in a record come from memory just mapped, from a free record, or from a protected record taken '
        'out of protection after mapping failed or because of the limit; (3) the record of a protected region changes only to '
        'lift that protection; regions of records stay disjoint.')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    g = {'own', 'prot', 'state', 'free', 'limit'}
    alloc.run(ctx, g, alloc.tree_allocs(configs, ctxs=('user', 'int') if not ctx.thorough else ('user', 'inner', 'int')))
    alloc.run(ctx, g, alloc.tree_frees(configs))
