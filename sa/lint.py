"""Call-graph and control-flow helpers on the IR."""
from common import *

REPORT = ('DUMA_Abort', 'DUMA_Exit', 'DUMA_Print', 'DUMA_sprintf', 'DUMA_strerror', '_duma_assert')


def calls(F):
    for B in F.blocks:
        for I in B.insts:
            if I.op in ('call', 'invoke'):
                yield B, I


def addr_taken(mod):
    """functions whose address is used other than as a direct callee"""
    out = set()
    for F in mod.functions.values():
        for B in F.blocks:
            for I in B.insts:
                for o in I.ops:
                    if o[0] in ('g', 'f') and o[1] in mod.functions:
                        out.add(o[1])
    for G in mod.globals.values():
        for off, (z, v) in G.cells.items():
            if v[0] in ('g', 'f') and v[1] in mod.functions:
                out.add(v[1])
    return out


def reach(mod, roots, stop=()):
    """functions reachable from roots -> (set of defined, {external: [caller]})"""
    seen, ext, todo = set(), {}, list(roots)
    while todo:
        f = todo.pop()
        if f in seen or f in stop:
            continue
        F = mod.functions.get(f)
        if F is None or F.decl or not F.blocks:
            continue
        seen.add(f)
        for B, I in calls(F):
            n = I.x.get('callee') or '<indirect>'
            G = mod.functions.get(n)
            if G is not None and not G.decl and G.blocks:
                todo.append(n)
            else:
                ext.setdefault(n, []).append((f, I))
    return seen, ext


def noreturn_set(mod, base=('_exit', 'exit', 'abort', '_Exit', 'quick_exit', '__cxa_throw', '__cxa_rethrow',
                            '_Unwind_Resume', '__cxa_call_unexpected', '_ZSt9terminatev', '__assert_fail')):
    """functions that never return: fixpoint over the CFG"""
    nr = set(base)
    for n, F in mod.functions.items():
        pass
    changed = True
    while changed:
        changed = False
        for n, F in mod.functions.items():
            if n in nr or F.decl or not F.blocks:
                continue
            if not returns(F, nr):
                nr.add(n)
                changed = True
    return nr


def ends(I, nr):
    return I.op in ('call', 'invoke') and (I.x.get('callee') in nr or (I.x.get('noreturn') and I.op == 'call'))


def returns(F, nr):
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        B = F.blocks[b]
        dead = False
        for I in B.insts:
            if I.op == 'call' and I.x.get('callee') in nr:
                dead = True
                break
            if I.op == 'ret':
                return True
        if not dead:
            todo += list(B.succs)
    return False


def must_before(F, is_event, is_target, nr):
    """targets (instructions) that some path reaches without an event before them"""
    n = len(F.blocks)
    IN = [None] * n
    IN[0] = False
    todo = [0]
    bad = set()
    out = []
    while todo:
        b = todo.pop()
        cur = IN[b]
        B = F.blocks[b]
        dead = False
        for I in B.insts:
            if is_target(I) and not cur:
                if id(I) not in bad:
                    bad.add(id(I))
                    out.append(I)
            if is_event(I):
                cur = True
            if I.op == 'call' and I.x.get('callee') in nr:
                dead = True
                break
        if dead:
            continue
        for s in B.succs:
            new = cur if IN[s] is None else (IN[s] and cur)
            if IN[s] is None or new != IN[s]:
                IN[s] = new
                todo.append(s)
    return out


def always(mod, targets, nr):
    """functions that call one of the targets on every path to their return"""
    out = set(targets)
    more = True
    while more:
        more = False
        for F in mod.functions.values():
            if F.decl or not F.blocks or F.name in out or F.name in nr:
                continue
            if not must_before(F, lambda I: I.op in ('call', 'invoke') and I.x.get('callee') in out, lambda I: I.op == 'ret', nr):
                out.add(F.name)
                more = True
    return out
