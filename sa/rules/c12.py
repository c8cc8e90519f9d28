"""Reports: arguments match the directives of the message; numbers are converted digit by digit."""
import re
from lint import *
from wrap import Where

RULE = ('(0) File and line in a message come from the same record or call, the recorded one where the message speaks of the '
        'allocation or first release. (1) Every call of a report function: its message is a constant, the number of arguments equals the number of '
        'directives, and each argument has the width and kind (integer or pointer) its directive consumes. (2) In the '
        'formatter, the variable-argument slot read for each directive character has the width of (1). (3) The digit '
        'loops: each iteration stores the character of value modulo base, continues with value divided by the same base, '
        'until that is zero, storing from the end backwards; decided on the expression graph of the loop for every digit.')
FUNCS = {'DUMA_Print': 0, 'DUMA_Abort': 0, 'DUMA_Exit': 0, 'DUMA_sprintf': 1}
# directive -> (bits, pointer allowed, integer allowed)
DIRECTIVES = {'a': (64, True, True), 'x': (64, True, True), 'd': (64, False, True), 'i': (32, False, True),
              'l': (64, False, True), 's': (64, True, False), 'c': (32, False, True)}


def consts(m, F, o, seen=None):
    """constant strings an operand may be -> list or None"""
    seen = seen or set()
    if o in seen:
        return []
    seen.add(o)
    if o[0] == 'g':
        G = m.globals.get(o[1])
        if G is not None and G.string is not None and G.const:
            s = G.string
            return [(s if isinstance(s, bytes) else s.encode('latin1')).split(b'\0')[0].decode('latin1')]
        return None
    if o[0] == 'v':
        for B in F.blocks:
            for I in B.insts:
                if I.id == o[1]:
                    if I.op == 'phi' or I.op == 'select':
                        out = []
                        for p in ([v for _, v in I.x] if I.op == 'phi' else I.ops[1:]):
                            r = consts(m, F, p, seen)
                            if r is None:
                                return None
                            out += r
                        return out
                    return None
    return None


def defs(F):
    return {I.id: I for B in F.blocks for I in B.insts if I.id is not None}


def va_loads(m, F, region, depth=0):
    """loads of variable arguments (through the x86-64 register-save / overflow area choice) -> [(bits, isptr, F, inst)]"""
    D, out = defs(F), []
    for b in region:
        for I in F.blocks[b].insts:
            if I.op == 'load' and I.ops[0][0] == 'v':
                P = D.get(I.ops[0][1])
                if P is not None and P.op == 'phi' and len(P.x) == 2 and is_va(D, P):
                    out.append((I.size * 8, I.isptr, F, I))
            elif I.op == 'call' and depth < 3:
                G = m.functions.get(I.x.get('callee'))
                if G is not None and not G.decl and G.linkage in (8, 9) and G is not F:
                    out += va_loads(m, G, range(len(G.blocks)), depth + 1)
    return out


def is_va(D, P):
    n = 0
    for _, o in P.x:
        if o[0] != 'v':
            return False
        I = D.get(o[1])
        if I is None:
            return False
        if I.op == 'gep':
            I = D.get(I.ops[0][1]) if I.ops[0][0] == 'v' else None
        if I is None or I.op != 'load' or I.ops[0][0] != 'v':
            return False
        g = D.get(I.ops[0][1])
        if g is None or g.op != 'gep':
            return False
        n += 1
    return n == 2


def dominated(F, b):
    """blocks every path to which from the entry passes b"""
    seen, todo = set(), [0] if b != 0 else []
    while todo:
        x = todo.pop()
        if x in seen or x == b:
            continue
        seen.add(x)
        todo += F.blocks[x].succs
    reach_, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in reach_ or x in seen:
            continue
        reach_.add(x)
        todo += F.blocks[x].succs
    return reach_


# ---- source locations in messages

OF_RECORD = re.compile(r"(lloc(at)?ed\s+(from|at)|already freed\s+at|used\s+at)\s*$")
OF_CALLER = re.compile(r"(called\s+at|requested from|overlap\s+at|bug at|byte\(s\) at)\s*$")


def origin(m, F, D, o, rec):
    """('field', name) of a record, ('param', name), or None"""
    if o[0] == 'a':
        return ('param', o[1])
    if o[0] == 'v':
        I = D.get(o[1])
        if I is not None and I.op in ('zext', 'sext', 'trunc'):
            return origin(m, F, D, I.ops[0], rec)
        if I is not None and I.op == 'load' and I.ops[0][0] == 'v':
            G = D.get(I.ops[0][1])
            if G is not None and G.op == 'gep' and all(t[0] == 'c' for t in G.x):
                k = sum(t[1] * (t[2] or 1) if t[2] else t[1] for t in G.x)
                base = G.ops[0]
                if base[0] == 'g':
                    return None
                for n, (off, z, ty) in rec.items():
                    if off == k and z == I.size:
                        return ('field', n, base)
    return None


def locations(ctx, m, F, I, s, k, rec):
    """%s(%i) pairs name one place: a record's, or that of the call"""
    D = None
    i = 0
    for t in re.finditer(r'%(.)', s, re.S):
        if t.group(1) == '%':
            continue
        if t.group(1) == 's' and s[t.end():t.end() + 4] == '(%i)':
            D = D or defs(F)
            a, b = origin(m, F, D, I.ops[k + 1 + i], rec), origin(m, F, D, I.ops[k + 2 + i], rec)
            if a is not None and b is not None:
                if a[0] == 'field':
                    ok = b[0] == 'field' and (a[1], b[1]) == ('filename', 'lineno') and a[2] == b[2]
                else:
                    ok = b[0] == 'param' and b[1] == a[1] + 1
                ctx.ob('location-pair', ok, I.loc(), 'file and line in message %r do not come from the same place' % s[:40], F.name)
                h = s[:t.start()]
                if F.linkage in (8, 9) and a[0] == 'param':
                    pass
                elif OF_RECORD.search(h):
                    ctx.ob('location-of-record', a[0] == 'field', I.loc(), 'message %r does not give the recorded location' % s[:60], F.name)
                elif OF_CALLER.search(h):
                    ctx.ob('location-of-caller', a[0] == 'param', I.loc(), 'message %r does not give the location of the call' % s[:60], F.name)
        i += 1


# ---- digit loops

def digit(r):
    return ord('0') + r if r < 10 else ord('a') + r - 10


class NoEval(Exception):
    pass


def loop_walk(F, D, R, r, nr):
    """follow the loop body from the remainder instruction R (value r) to the first byte store -> stored character, store"""
    env = {R.id: r}

    def ev(o):
        if o[0] == 'c':
            return o[1]
        if o[0] != 'v':
            raise NoEval
        if o[1] in env:
            if env[o[1]] is None:
                raise NoEval
            return env[o[1]]
        raise NoEval

    def sx(v, bits):
        v &= (1 << bits) - 1
        return v - (1 << bits) if v >> (bits - 1) else v

    B, i = R.block, R.idx + 1
    prev = None
    for _ in range(300):
        insts = B.insts
        jump = None
        for I in insts[i:]:
            try:
                o = I.op
                if o == 'phi':
                    for p, v in I.x:
                        if p == (prev.idx if prev is not None else None):
                            env[I.id] = ev(v)
                elif o in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                    a, b = ev(I.ops[0]), ev(I.ops[1])
                    v = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b, 'shl': a << (b & 63)}[o]
                    env[I.id] = sx(v, I.bits)
                elif o in ('trunc', 'sext', 'zext', 'freeze'):
                    v = ev(I.ops[0])
                    env[I.id] = v & ((1 << I.x) - 1) if o == 'zext' and isinstance(I.x, int) and v < 0 else sx(v, I.bits)
                elif o == 'icmp':
                    a, b = ev(I.ops[0]), ev(I.ops[1])
                    p, bits = I.x
                    if p[0] == 'u':
                        a, b = a & ((1 << bits) - 1), b & ((1 << bits) - 1)
                    env[I.id] = int({'eq': a == b, 'ne': a != b}.get(p, {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}.get(p[1:])))
                elif o == 'select':
                    env[I.id] = ev(I.ops[1] if ev(I.ops[0]) else I.ops[2])
                elif o == 'store' and I.size == 1:
                    return ev(I.ops[0]) & 255, I
                elif o == 'load' and I.ops[0][0] == 'v' and isinstance(env.get(I.ops[0][1]), tuple):
                    env[I.id] = env[I.ops[0][1]][1]
                elif o == 'gep' and I.ops[0][0] == 'g':
                    G = F.module.globals.get(I.ops[0][1])
                    if G is not None and G.const and G.string is not None:
                        k = I.ops[0][2] if len(I.ops[0]) > 2 else 0
                        for t in I.x:
                            k += t[1] * t[2] if t[0] == 'c' else ev(t[1]) * t[2]
                        s = G.string if isinstance(G.string, bytes) else G.string.encode('latin1')
                        if not 0 <= k < len(s):
                            raise NoEval
                        env[I.id] = ('ch', s[k])
                elif o == 'br':
                    if I.ops:
                        try:
                            jump = I.x[0] if ev(I.ops[0]) else I.x[1]
                        except NoEval:
                            live = [s for s in I.x if not any(J.op == 'call' and J.x.get('callee') in nr for J in F.blocks[s].insts)]
                            if len(live) != 1:
                                raise
                            jump = live[0]
                    else:
                        jump = I.x[0]
                elif o in ('ret', 'switch', 'unreachable'):
                    raise NoEval
            except NoEval:
                if I.op in ('br', 'store', 'switch', 'ret'):
                    raise
                if I.id is not None:
                    env[I.id] = None
        if jump is None:
            raise NoEval
        prev, B, i = B, F.blocks[jump], 0
    raise NoEval


def digit_loops(m, F, nr):
    """(remainder, quotient) pairs of one function"""
    out = []
    for B in F.blocks:
        for I in B.insts:
            if I.op in ('urem', 'srem'):
                q = [J for C_ in F.blocks for J in C_.insts if J.op in ('udiv', 'sdiv') and J.ops == I.ops]
                if q:
                    out.append((I, q[0]))
    return out


def bases(m, F, o, names):
    """constant values a divisor may have: itself, or the argument of every call of F"""
    if o[0] == 'c':
        return {o[1]}
    if o[0] != 'a':
        return None
    out = set()
    for G in m.functions.values():
        if G.decl or not G.blocks:
            continue
        for B, I in calls(G):
            if I.x.get('callee') == F.name:
                x = I.ops[o[1]]
                if x[0] == 'v':
                    J = defs(G).get(x[1])
                    if J is not None and J.op == 'phi':
                        vs = [p[1] for p in J.x]
                        if all(v[0] == 'c' for v in vs):
                            out |= {v[1] for v in vs}
                            continue
                if x[0] != 'c':
                    return None
                out.add(x[1])
    return out


def check_loop(ctx, m, F, R, Q, nr):
    D = defs(F)
    where = R.loc()
    signed = R.op == 'srem'
    bs = bases(m, F, R.ops[1], None)
    if not bs:
        ctx.notes.append('%s: base of the digit loop not constant' % F.name)
        return
    store = None
    try:
        for b in sorted(bs):
            for r in range(b):
                for v in ((r, -r) if signed else (r,)):
                    ch, store = loop_walk(F, D, R, v, nr)
                    ctx.ob('digit-character', ch == digit(r), where, '%s: digit %d of base %d is stored as character %d' % (F.name, r, b, ch), F.name)
    except NoEval:
        ctx.notes.append('%s: form of the digit loop not recognised' % F.name)
        return
    P = D.get(R.ops[0][1]) if R.ops[0][0] == 'v' else None
    if P is None or P.op != 'phi':
        return
    back = [v for p, v in P.x]
    fed = ('v', Q.id) in back
    ctx.ob('digit-next', fed, Q.loc(), '%s: the next digit is not taken from the quotient' % F.name, F.name)
    # continues exactly while the quotient is not zero
    tests = [I for B in F.blocks for I in B.insts if I.op == 'icmp' and I.ops[0] == ('v', Q.id)]
    for T in tests:
        ok = T.ops[1][0] == 'c' and ((T.ops[1][1] == 0 and T.x[0] in (('ne', 'eq') if signed else ('ne', 'ugt', 'eq', 'ule'))) or
                                     (T.ops[1][1] == 1 and not signed and T.x[0] in ('uge', 'ult')))
        ctx.ob('digit-until-zero', ok, T.loc(), '%s: the conversion does not continue exactly while the quotient differs from zero' % F.name, F.name)
    early = must_before(F, lambda I: I is store, lambda I: I.op == 'ret', nr)
    ctx.ob('digit-at-least-one', not early, where, '%s: may return without having stored a digit' % F.name, F.name)
    S = D.get(store.ops[1][1]) if store.ops[1][0] == 'v' else None
    if S is not None and S.op == 'gep' and S.ops[0][0] == 'v' and len(S.x) == 1 and S.x[0][0] == 'c':
        ctx.ob('digit-order', S.x[0][1] * S.x[0][2] in (-1, 0) if len(S.x[0]) > 2 else True, store.loc(), '%s: digits are not stored from the end backwards, one byte each' % F.name, F.name)


def strip(s):
    """directives of a message"""
    return [c for c in re.findall(r'%(.)', s, re.S) if c != '%']


def check(ctx):
    configs = ['static', 'so', 'gnumake', 'noleak'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    for c in configs:
        m = module(c)
        nr = noreturn_set(m)
        for f in FUNCS:
            if f not in m.functions:
                raise Missing('report function %s' % f)
        n = 0
        t = m.di.struct_by_name('_DUMA_Slot')
        rec = m.di.struct_members(t) if t else {}
        for F in m.functions.values():
            if F.decl or not F.blocks:
                continue
            for B, I in calls(F):
                k = FUNCS.get(I.x.get('callee'))
                if k is None:
                    continue
                n += 1
                fs = consts(m, F, I.ops[k])
                if fs is None:
                    if I.ops[k][0] == 'a' and F.linkage in (8, 9):
                        ctx.notes.append('message of %s passed through %s: not analysed' % (I.x['callee'], F.name))
                        continue
                    ctx.ob('message-constant', False, I.loc(), 'the message of %s is not a constant' % I.x['callee'], F.name)
                    continue
                for s in fs:
                    d = strip(s)
                    n0 = len(ctx.violations)
                    args = I.x['argt'][k + 1:len(I.ops)]
                    if any(x not in DIRECTIVES for x in d):
                        ctx.ob('known-directive', False, I.loc(), 'message %r uses an unknown directive' % s[:40], F.name)
                        continue
                    if not ctx.ob('argument-count', len(args) == len(d), I.loc(), 'message %r has %d directives but %d arguments' % (
                            s[:40], len(d), len(args)), F.name):
                        continue
                    for i, (x, (bits, ptr, z)) in enumerate(zip(d, args)):
                        w, p, q = DIRECTIVES[x]
                        ok = bits == w and (p if ptr else q)
                        ctx.ob('argument-kind', ok, I.loc(), 'argument %d of message %r is %s, %%%s prints another kind' % (
                            i + 1, s[:40], 'a pointer' if ptr else '%d bits wide' % bits, x), F.name)
                    if len(ctx.violations) == n0 and rec:
                        locations(ctx, m, F, I, s, k, rec)
        ctx.analysed.setdefault('messages', {})[c] = n
        # the formatter
        fm, _ = reach(m, ['DUMA_Print', 'DUMA_Abort'])
        seen = False
        for f in sorted(fm):
            F = m.functions[f]
            D = defs(F)
            for B in F.blocks:
                for I in B.insts:
                    if I.op != 'switch':
                        continue
                    cases = {}
                    for v, t in I.x[1]:
                        if chr(v & 255) in DIRECTIVES:
                            cases[chr(v & 255)] = t
                    if len(cases) < 4:
                        continue
                    seen = True
                    for x, t in sorted(cases.items()):
                        reg = dominated(F, t)
                        vs = va_loads(m, F, reg)
                        w, p, q = DIRECTIVES[x]
                        if vs:
                            ctx.ob('directive-width', all(b == w for b, _, _, _ in vs), vs[0][3].loc(),
                                   'directive %%%s reads an argument of %d bits' % (x, vs[0][0]), f)
                            ctx.ob('directive-one-argument', len(vs) == 1, vs[-1][3].loc(), 'directive %%%s reads %d arguments' % (x, len(vs)), f)
                        want = {'a': 16, 'x': 16, 'd': 10, 'i': 10, 'l': 10}.get(x)
                        for b in reg:
                            for J in F.blocks[b].insts:
                                G = m.functions.get(J.x.get('callee')) if J.op == 'call' else None
                                if want and G is not None and not G.decl and digit_loops(m, G, nr):
                                    R = digit_loops(m, G, nr)[0][0]
                                    if R.ops[1][0] == 'a' and J.ops[R.ops[1][1]][0] == 'c':
                                        ctx.ob('directive-base', J.ops[R.ops[1][1]][1] == want, J.loc(), 'directive %%%s prints in base %d' % (
                                            x, J.ops[R.ops[1][1]][1]), f)
                                    if x in 'il':
                                        ctx.ob('directive-sign', any(K.op == 'store' and K.ops[0] == ('c', 45, 8) for y in reg for K in F.blocks[y].insts)
                                               or any(K.op == 'store' and K.ops[0] == ('c', 45, 8) for y in G.blocks for K in y.insts), J.loc(),
                                               'directive %%%s does not print a sign' % x, f)
            for R, Q in digit_loops(m, F, nr):
                check_loop(ctx, m, F, R, Q, nr)
        if not seen:
            ctx.notes.append('%s: no switch over directive characters found' % c)
    ctx.assumptions += ['x86-64 calling convention for variable arguments']
    ctx.notes += ['that an argument is the value its message talks about (as opposed to another one of the same kind) is not decided']
