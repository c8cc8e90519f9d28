"""Standard names and operators: arguments, result and signature."""
from common import *
import wrap

RULE = ('Every interposed standard function and operator, interpreted with the checked implementation and the central '
        'allocation functions as events: on every path each argument reaches the implementation unchanged in its place (size, '
        'count product, alignment, protection side, location), exactly one block is allocated or released, and the result is '
        'returned. The signature (IR types of parameters and result) equals the standard one.')

P, Z, I, VOID = 'ptr', 64, 32, 'void'
SIG = {'malloc': (P, [Z]), 'calloc': (P, [Z, Z]), 'free': (VOID, [P]), 'memalign': (P, [Z, Z]),
       'posix_memalign': (I, [P, Z, Z]), 'realloc': (P, [P, Z]), 'valloc': (P, [Z]), 'malloc_usable_size': (Z, [P]),
       'strdup': (P, [P]), 'memcpy': (P, [P, P, Z]), 'memmove': (P, [P, P, Z]), 'strcpy': (P, [P, P]),
       'strncpy': (P, [P, P, Z]), 'strcat': (P, [P, P]), 'strncat': (P, [P, P, Z]), 'aligned_alloc': (P, [Z, Z]),
       'pvalloc': (P, [Z]), 'reallocarray': (P, [P, Z, Z]), 'strnlen': (Z, [P, Z]),
       '_Znwm': (P, [Z]), '_Znam': (P, [Z]), '_ZdlPv': (VOID, [P]), '_ZdaPv': (VOID, [P]),
       '_ZnwmRKSt9nothrow_t': (P, [Z, P]), '_ZnamRKSt9nothrow_t': (P, [Z, P]),
       '_ZdlPvRKSt9nothrow_t': (VOID, [P, P]), '_ZdaPvRKSt9nothrow_t': (VOID, [P, P])}
MUST = ['malloc', 'calloc', 'free', 'memalign', 'posix_memalign', 'realloc', 'valloc', 'malloc_usable_size', 'strdup',
        'memcpy', 'strcpy', 'strncpy', 'strcat', 'strncat']
CXX = ['_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZdlPvRKSt9nothrow_t',
       '_ZdaPvRKSt9nothrow_t']


def check(ctx):
    configs = ['static', 'so'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    for c in configs:
        m = module(c)
        for n in public(m):
            s = SIG.get(n)
            if s is None:
                continue
            F = m.functions[n]
            have = [(P if isp else b) for (_, b, isp) in [p[:3] for p in F.params]]
            ret = rettype(F)
            ctx.ob('signature', have == s[1] and ret in (None, s[0]), wrap.Where(F).loc(),
                   '%s: %s does not have the standard signature' % (c, n), n)
        pub = set(public(m))
        want = []
        if any(n in pub for n in MUST):
            want += MUST
        if any(n in pub for n in CXX):
            want += CXX
        for n in want:
            ctx.ob('interposed', n in pub, c, '%s: %s is not replaced although its companions are' % (c, n), n)
    wrap.run(ctx, {'size', 'align', 'kind', 'once', 'result', 'std', 'below'}, configs, fwd=True,
             only=lambda f: True)


def rettype(F):
    out = set()
    for B in F.blocks:
        for i in B.insts:
            if i.op == 'ret':
                if not i.ops:
                    out.add(VOID)
    return VOID if VOID in out else None
