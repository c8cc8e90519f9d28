"""Switching on and off by headers."""
import os, re
from lint import *
import witness, build, common
from build import LLVM, sh

RULE = ('(1) Macro tables (clang -E -dM) after including the standard headers, the switching-on header, the switching-off header, and both '
        'again: the tables are closed under further switching (so every sequence is covered); names not the library\'s own are '
        'exactly as without the library after switching off; every checked replacement declared for a standard function has its '
        'macro after switching on. (2) Witness functions that call each replaced name are compiled (never run) in state on, off, on '
        'again and with DUMA_NO_DUMA; in their IR the call goes to the checked function of that name (standard function when '
        'off) with every argument evaluated once, in its place, and file and line of the caller. (3) A program using '
        'every documented macro compiles with and without DUMA_NO_DUMA; without the library it refers to no symbol of it.')

STDH = '#include <stdlib.h>\n#include <string.h>\n#include <malloc.h>\n#include <stdio.h>\n'
# name: (return type, [argument types])
FUNCS = {
    'malloc': ('void *', ['size_t']), 'calloc': ('void *', ['size_t', 'size_t']), 'free': ('void', ['void *']),
    'memalign': ('void *', ['size_t', 'size_t']), 'posix_memalign': ('int', ['void **', 'size_t', 'size_t']),
    'realloc': ('void *', ['void *', 'size_t']), 'valloc': ('void *', ['size_t']), 'malloc_usable_size': ('size_t', ['void *']),
    'strdup': ('char *', ['const char *']), 'memcpy': ('void *', ['void *', 'const void *', 'size_t']),
    'memmove': ('void *', ['void *', 'const void *', 'size_t']), 'strcpy': ('char *', ['char *', 'const char *']),
    'strncpy': ('char *', ['char *', 'const char *', 'size_t']), 'strcat': ('char *', ['char *', 'const char *']),
    'strncat': ('char *', ['char *', 'const char *', 'size_t']),
}
USE = '''
CA_DEFINE(int, g_arr, 5);
extern int x_arr[3];
CA_DECLARE(x_arr, 3);
struct S { int a; };
int use_arr(int i) { CA_DEFINE(int, l_arr, 4); l_arr[0] = 1; return CA_REF(g_arr, i) + CA_REF(x_arr, i) + CA_REF(l_arr, i & 3); }
int use_prot(int c) { DUMA_FN_PROT_START
  if (c) DUMA_FN_PROT_RET(c + 1); else c = 2;
  DUMA_FN_PROT_END
  return c; }
void use_prot_void(int c) { DUMA_FN_PROT_START
  if (c) DUMA_FN_PROT_RET_VOID(); else c = 2;
  DUMA_FN_PROT_END
}
int use_misc(char *p, int c) {
  DUMA_newFrame();
  DUMA_SET_ALIGNMENT(4); DUMA_SET_PROTECT_BELOW(1); DUMA_SET_FILL(-1);
  DUMA_ASSERT(c > 0);
  if (c) DUMA_ASSERT(p != 0); else DUMA_CHECKALL();
  if (c) DUMA_CHECK(p); else DUMA_CHECKALL();
  (void)(DUMA_CHECK(p), DUMA_CHECKALL(), 0);
  DUMA_delFrame();
  return c;
}
'''
USECPP = '''
struct T { int a; T(int x = 0) : a(x) {} };
T *n1() { return new T; }
T *n2() { return new T(3); }
T *n3(int n) { return new T[n]; }
void d1(T *p) { delete p; }
void d2(T *p) { delete[] p; }
void d3(T *p, int c) { if (c) delete p; else delete[] p; }
'''
USEOLD = '''
struct T { int a; T(int x = 0) : a(x) {} };
T *n1() { return NEW_ELEM(T); }
T *n2() { return NEW_ELEM(T(3)); }
T *n3(int n) { return NEW_ARRAY(T, n); }
void d1(T *p) { DEL_ELEM(p); }
void d2(T *p) { DEL_ARRAY(p); }
'''


class At:
    def __init__(self, s):
        self.s = s

    def loc(self):
        return self.s


def table(config, text, cpp, std, defs=()):
    root, tree = common.setup()
    d, opts = build.CONFIGS[config]
    t = build.variant(tree, root, config, opts)
    w = os.path.join(root, 'wit')
    os.makedirs(w, exist_ok=True)
    src = os.path.join(w, 'tab.' + ('cpp' if cpp else 'c'))
    open(src, 'w').write(text)
    p = sh([LLVM + ('/clang++' if cpp else '/clang'), '-E', '-dM', '-std=' + std, '-I' + t, '-w'] + list(d) + list(defs) + [src], ok=True)
    if p.returncode:
        raise Missing('headers do not preprocess: ' + p.stderr[-300:])
    out = {}
    for l in p.stdout.splitlines():
        m = re.match(r'#define (\w+)(\([^)]*\))? ?(.*)$', l)
        if m:
            out[m.group(1)] = (m.group(2) or '') + ' ' + ' '.join(m.group(3).split())
    return out


def own(n):
    return 'DUMA' in n or n.startswith('_') or n == 'NEW_THROW_SPEC'


def tables(ctx, config, cpp, std, hdr, defs=()):
    pre = STDH + ('#include <new>\n' if cpp else '')
    on, off = '#include "%s"\n' % hdr, '#include "noduma.h"\n'
    T = {k: table(config, pre + ''.join({'1': on, '0': off}[c] for c in k), cpp, std, defs) for k in
         ('', '1', '11', '10', '101', '1010', '100', '0')}
    tag = '%s %s %s%s' % (config, hdr, std, ' ' + ' '.join(defs) if defs else '')

    def diff(a, b):
        return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    for n in diff(T[''], T['1']):
        if own(n):
            continue
        ctx.ob('restored-when-off', T['10'].get(n) == T[''].get(n), 'noduma.h', '%s is still defined by the library after switching off (%s)' % (n, tag), n)
        ctx.ob('redirected-again', T['101'].get(n) == T['1'].get(n), hdr, '%s is not redirected again after switching off and on (%s)' % (n, tag), n)
    for n in diff(T[''], T['10']):
        if not own(n):
            ctx.ob('restored-when-off', False, 'noduma.h', '%s differs from the standard headers after switching off (%s)' % (n, tag), n)
    for a, b, what in (('1', '11', 'switching on twice'), ('1', '101', 'switching off and on'), ('10', '100', 'switching off twice'),
                       ('10', '1010', 'switching on and off again')):
        d = diff(T[a], T[b])
        ctx.ob('closed', not d, hdr, '%s changes the macros %s (%s)' % (what, ', '.join(d[:5]), tag), 'tables')
    d = diff(T[''], T['0'])
    ctx.ob('closed', not [n for n in d if not own(n)], 'noduma.h', 'switching off first changes %s (%s)' % (', '.join(d[:5]), tag), 'tables')
    return T


def fns(n, names, tag, line):
    """witness functions for the names; text"""
    out = []
    for i, f in enumerate(names):
        r, a = FUNCS[f]
        ret = '' if r == 'void' else 'return '
        out.append('#line %d "user.src"' % (line + 2 * i))
        out.append('%s w%s_%s(%s) { %s%s(%s); }' % (r, tag, f, ', '.join('%s a%d' % (t, k) for k, t in enumerate(a)), ret, f,
                                                     ', '.join('a%d' % k for k in range(len(a)))))
        out.append('%s s%s_%s(void) { %s%s(%s); }' % (r, tag, f, ret, f, ', '.join('(%s)side%d(%d)' % (t, k, k) for k, t in enumerate(a))))
    return '\n'.join(out) + '\n'


def text_of(m, o):
    if o[0] != 'g':
        return None
    s = m.globals[o[1]].string if o[1] in m.globals else None
    s = s.decode('latin1') if isinstance(s, bytes) else s
    return None if s is None else s.split('\0')[0]


def redirects(ctx, config, cpp, std, hdr, nodef):
    names = sorted(FUNCS)
    pro = ''.join('long side%d(int);\n' % k for k in range(3))
    ext = ('extern "C" {\n', '}\n') if cpp else ('', '')
    pre = STDH + ('#include <new>\n' if cpp else '')
    text = pre + ext[0] + pro + ext[1]
    for tag, inc, line in (('on', hdr, 1000), ('off', 'noduma.h', 2000), ('again', hdr, 3000)):
        text += '#include "%s"\n' % inc + ext[0] + fns(0, names, tag, line) + ext[1]
    defs = ('-DDUMA_NO_DUMA',) if nodef else ()
    key = '%s+redirect-%s-%s%s' % (config, hdr, std, '-none' if nodef else '')
    m = witness.module(key, 'red_%s.%s' % (key.replace('+', '_'), 'cpp' if cpp else 'c'), text, config, std, defs, library=False)
    for tag, line in (('on', 1000), ('off', 2000), ('again', 3000)):
        for i, f in enumerate(names):
            r, a = FUNCS[f]
            want = f if nodef or tag == 'off' or config == 'noleak' else '_duma_' + f
            for w in ('w', 's'):
                F = m.functions.get('%s%s_%s' % (w, tag, f))
                if F is None or F.decl:
                    raise Missing('witness function for %s' % f)
                cs = [I for B, I in calls(F) if not (I.x.get('callee') or '').startswith('llvm.')]
                sides = [I for I in cs if (I.x.get('callee') or '').startswith('side')]
                rest = [I for I in cs if I not in sides]
                where = hdr if tag != 'off' else 'noduma.h'
                ok = len(rest) == 1 and rest[0].x.get('callee') == want
                ctx.ob('redirect', ok, where, '%s (%s, %s%s) calls %s instead of %s' % (f, tag, std, ', DUMA_NO_DUMA' if nodef else '',
                       ', '.join(str(I.x.get('callee')) for I in rest), want), f)
                if not ok:
                    continue
                I = rest[0]
                if w == 'w':
                    n = len(a)
                    ok = [tuple(o[:2]) for o in I.ops[:n]] == [('a', k) for k in range(n)]
                    ctx.ob('arguments', ok, where, '%s does not hand its arguments on in place (%s)' % (f, tag), f)
                    x = I.ops[n:]
                    if x:
                        ok = len(x) == 2 and text_of(m, x[0]) == 'user.src' and x[1][0] == 'c' and x[1][1] == line + 2 * i
                        ctx.ob('location', ok, where, '%s does not pass the location of the call (%s)' % (f, tag), f)
                    elif want.startswith('_duma_'):
                        D = m.functions.get(want)
                        ctx.ob('location', len(D.params) == n, where, '%s does not pass a location' % f, f)
                else:
                    ks = sorted(I2.x['callee'] for I2 in sides)
                    ctx.ob('evaluated-once', ks == ['side%d' % k for k in range(len(a))], where, 'an argument of %s is not evaluated exactly once (%s)' % (f, tag), f)
    if not nodef:
        # every checked replacement of a standard function is reachable under the standard name
        for n, F in m.functions.items():
            if n.startswith('_duma_') and n[6:] in FUNCS:
                ctx.analysed.setdefault('replacements', []).append(n) if n not in ctx.analysed.get('replacements', []) else None


CPPSRC = '''
extern "C" {
#line 501 "user.src"
int *w%(t)s_new(void) { return new int; }
#line 502 "user.src"
int *w%(t)s_newa(size_t n) { return new int[n]; }
#line 503 "user.src"
void w%(t)s_del(int *p) { delete p; }
#line 504 "user.src"
void w%(t)s_dela(int *p) { delete[] p; }
}
'''


def operators(ctx, config, std, nodef):
    t = STDH + '#include <new>\n'
    for tag, inc in (('on', 'dumapp.h'), ('off', 'noduma.h'), ('again', 'dumapp.h')):
        t += '#include "%s"\n' % inc + CPPSRC % dict(t=tag)
    key = '%s+operators-%s%s' % (config, std, '-none' if nodef else '')
    m = witness.module(key, 'ops_%s.cpp' % key.replace('+', '_'), t, config, std, ('-DDUMA_NO_DUMA',) if nodef else (), library=False)
    leak = config != 'noleak'
    old = config == 'oldmacro'
    for tag in ('on', 'off', 'again'):
        on = tag != 'off' and not nodef and leak
        for f, plain, loc, line in (('new', '_Znwm', '_ZnwmPKci', 501), ('newa', '_Znam', '_ZnamPKci', 502), ('del', '_ZdlPv', '_ZdlPv', 503),
                                    ('dela', '_ZdaPv', '_ZdaPv', 504)):
            F = m.functions['w%s_%s' % (tag, f)]
            cs = [I for B, I in calls(F) if (I.x.get('callee') or '').startswith('_Z')]
            sem = [I for B, I in calls(F) if (I.x.get('callee') or '').startswith(('DUMA_', 'duma', '_duma'))]
            want = loc if on and not (old and f.startswith('new')) else plain
            names = {want} | ({'_ZdlPvm'} if want == '_ZdlPv' else set()) | ({'_ZdaPvm'} if want == '_ZdaPv' else set())
            where = 'dumapp.h' if tag != 'off' else 'noduma.h'
            ctx.ob('redirect', len(cs) == 1 and cs[0].x['callee'] in names, where,
                   '%s (%s, %s) uses %s instead of %s' % (f, tag, config, ', '.join(str(I.x.get('callee')) for I in cs), want), f)
            if not on:
                ctx.ob('redirect', not sem, where, '%s (%s) still calls the library' % (f, tag), f)
            if want.endswith('PKci') and cs and len(cs[0].ops) == 3:
                o = cs[0].ops
                ctx.ob('location', text_of(m, o[1]) == 'user.src' and o[2][0] == 'c' and o[2][1] == line, where,
                       '%s does not pass the location of the statement' % f, f)


OLDOPS = [('NEW_ELEM', 'int *wit_%s(void) { return %s(int); }', '_Znwm', '_ZnwmPKci'),
          ('NEW_ARRAY', 'int *wit_%s(size_t n) { return %s(int, n); }', '_Znam', '_ZnamPKci'),
          ('DEL_ELEM', 'void wit_%s(int *p) { %s(p); }', '_ZdlPv', '_ZdlPvPKci'),
          ('DEL_ARRAY', 'void wit_%s(int *p) { %s(p); }', '_ZdaPv', '_ZdaPvPKci'),
          ('NEW_ELEM_NOTHROW', 'int *wit_%s(void) { return %s(int); }', None, '_ZnwmRKSt9nothrow_tPKci'),
          ('NEW_ARRAY_NOTHROW', 'int *wit_%s(size_t n) { return %s(int, n); }', None, '_ZnamRKSt9nothrow_tPKci'),
          ('DEL_ELEM_NOTHROW', 'void wit_%s(int *p) { %s(p); }', None, '_ZdlPvRKSt9nothrow_tPKci'),
          ('DEL_ARRAY_NOTHROW', 'void wit_%s(int *p) { %s(p); }', None, '_ZdaPvRKSt9nothrow_tPKci')]


def oldoperators(ctx, config, std, nodef):
    """the macros for compilers without the redefinition of new and delete"""
    full = config == 'oldmacro' and not nodef
    ops = [o for o in OLDOPS if full or o[2]]
    t = STDH + '#include <new>\n#include "dumapp.h"\nextern "C" {\n'
    for i, (n, src, a, b) in enumerate(ops):
        t += '#line %d "user.src"\n' % (600 + i) + src % (n, n) + '\n'
    key = '%s+oldops-%s%s' % (config, std, '-none' if nodef else '')
    m = witness.module(key, 'old_%s.cpp' % key.replace('+', '_'), t + '}\n', config, std, ('-DDUMA_NO_DUMA',) if nodef else (), library=False)
    for i, (n, src, plain, loc) in enumerate(ops):
        cs = [I for B, I in calls(m.functions['wit_' + n]) if (I.x.get('callee') or '').startswith('_Z')]
        want = loc if full else plain
        names = {want} | {'_ZdlPv': {'_ZdlPvm'}, '_ZdaPv': {'_ZdaPvm'}}.get(want, set())
        ok = len(cs) == 1 and cs[0].x['callee'] in names
        ctx.ob('redirect', ok, 'dumapp.h', '%s (%s) uses %s instead of %s' % (n, config, ', '.join(str(I.x.get('callee')) for I in cs), want), n)
        if ok and full:
            o = cs[0].ops[-2:]
            ctx.ob('location', text_of(m, o[0]) == 'user.src' and o[1][0] == 'c' and o[1][1] == 600 + i, 'dumapp.h',
                   '%s does not pass the location of the statement' % n, n)


def guarded(ctx, f, *a):
    """a witness that does not compile is a program that does not"""
    try:
        f(ctx, *a)
    except Missing as x:
        if 'does not compile' not in str(x):
            raise
        ctx.ob('compiles', False, 'duma.h', 'a program calling the replaced functions does not compile: %s' % str(x)[-160:], 'macros')


def compiles(ctx, config, cpp, std, nodef):
    hdr = 'dumapp.h' if cpp else 'duma.h'
    forms = [('', USE)]
    if cpp:
        forms.append(('new', USECPP))
        if config == 'oldmacro' or nodef or config == 'noleak':
            forms.append(('old', USEOLD))
    for nm, src in forms:
        if config == 'oldmacro' and nm == 'new' and not nodef:
            continue
        text = STDH + ('#include <new>\n' if cpp else '') + '#include "%s"\n' % hdr + src
        text += '#include "noduma.h"\n#include "%s"\n' % hdr + ('int later(char *p) { DUMA_ASSERT(p != 0); DUMA_CHECK(p); return 0; }\n' if not nm else '')
        defs = ('-DDUMA_NO_DUMA',) if nodef else ()
        out, p = witness.compile_ir('use%s_%s.%s' % (nm, std.replace('+', 'x'), 'cpp' if cpp else 'c'), text, config, std, defs + ('-Werror=implicit-function-declaration',))
        e = [l for l in p.stderr.splitlines() if 'error' in l]
        ctx.ob('compiles', p.returncode == 0, hdr, 'a program using the documented macros (%s) does not compile with %s%s: %s' %
               (nm or 'checks', std, ' and DUMA_NO_DUMA' if nodef else '', e[0][-160:] if e else ''), 'macros')
        if nodef and p.returncode == 0:
            syms = set(re.findall(r'@"?([\w.$]*)', open(out).read()))
            bad = sorted(s for s in syms if 'duma' in s.lower() and not s.startswith('llvm.'))
            ctx.ob('no-symbol-without-library', not bad, hdr, 'with DUMA_NO_DUMA a program still refers to %s' % ', '.join(bad[:4]), 'macros')


def check(ctx):
    T = ctx.thorough
    confs = ['static', 'noleak', 'oldmacro'] + (['shared', 'nothread', 'explicit', 'noglobal'] if T else [])
    cstd = ['gnu99'] + (['gnu89', 'gnu11', 'gnu17'] if T else [])
    xstd = ['gnu++98'] + (['gnu++11', 'gnu++14', 'gnu++17'] if T else [])
    n = 0
    for c in confs:
        for defs in ((), ('-DDUMA_NO_DUMA',)):
            for s in cstd:
                tables(ctx, c, False, s, 'duma.h', defs)
                n += 1
            for s in xstd:
                tables(ctx, c, True, s, 'dumapp.h', defs)
                tables(ctx, c, True, s, 'duma.h', defs)
                n += 2
            nd = bool(defs)
            for s in cstd:
                guarded(ctx, redirects, c, False, s, 'duma.h', nd)
            for s in xstd:
                guarded(ctx, redirects, c, True, s, 'dumapp.h', nd)
                if c != 'oldmacro' or nd:
                    guarded(ctx, operators, c, s, nd)
                if c in ('oldmacro', 'noleak') or nd:
                    guarded(ctx, oldoperators, c, s, nd)
            for s in ['gnu89', 'gnu99', 'gnu11']:
                compiles(ctx, c, False, s, nd)
            for s in ['gnu++98', 'gnu++11', 'gnu++17']:
                compiles(ctx, c, True, s, nd)
    # a name with a checked replacement is redirected
    root, tree = common.setup()
    p = sh([LLVM + '/clang', '-E', '-P', '-I' + tree, os.path.join(tree, 'duma.h')], ok=True)
    decl = set(re.findall(r'\b_duma_(\w+)\s*\(', p.stdout))
    t = table('static', STDH + '#include "duma.h"\n', False, 'gnu99')
    for f in sorted(FUNCS):
        ctx.ob('replacement-declared', f in decl, 'duma.h', 'no checked replacement of %s is declared' % f, f)
        ctx.ob('replacement-used', f in t, 'duma.h', '%s has a checked replacement but is not redirected' % f, f)
    ctx.analysed['macro_table_sequences'] = n
