"""Releasing or resizing anything but a live block."""
from common import *
import alloc
from rules import c16

RULE = ('In the release function, for every context and family, before the first change of a record or of page protection the '
        'path has established that the address equals the start of a block whose record is in use; on every other path nothing '
        'is changed and the function does not return (null pointers and the common zero-size address excepted, which '
        'change nothing). The resize function reads and releases only such a block. Family mismatches: see C08.')


def check(ctx):
    configs = ['static'] if not ctx.thorough else ['static', 'so', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    alloc.run(ctx, {'dealloc', 'state', 'ret', 'zero'}, alloc.tree_frees(configs))
    c16.run(ctx, {'live'}, configs)
