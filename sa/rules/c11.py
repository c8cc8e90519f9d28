"""Reports, lock and page management: no dynamic memory, no stdio, no write beyond a fixed buffer."""
from lint import *
from wrap import Where

RULE = ('(1) Call-graph closure: the functions reachable from reporting, locking, page management and the central allocation '
        'functions call no function of the C library outside an allow-list of functions that neither allocate nor use '
        'streams, and no allocating entry point of the library itself. (2) Abstract interpretation of the report functions: '
        'every store, block copy and string copy into a local or static object stays inside that object, for every pattern '
        'and every argument.')

PURE = {'strlen', 'strnlen', 'memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strcmp', 'strncmp', 'strchr', 'strrchr',
        'strcpy', 'strncpy', 'strcat', 'strncat', 'stpcpy', 'strstr', 'mempcpy', 'bcopy', 'bzero'}
SYSC = {'write', 'open', 'close', 'read', 'fsync', 'getpid', 'gettid', 'kill', 'raise', 'abort', '_exit', '_Exit', 'getenv',
        'secure_getenv', '__errno_location', 'syscall', 'writev', 'lseek', 'signal', 'sigaction', 'sigprocmask', 'sigemptyset',
        'sigfillset', 'pthread_sigmask', 'dup', 'dup2', 'fcntl', 'tgkill'}
LOCKS = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_self', 'pthread_equal',
         'pthread_mutex_init', 'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy',
         'sem_init', 'sem_wait', 'sem_post', 'sem_trywait', 'sched_yield'}
PAGES = {'mmap', 'munmap', 'mprotect', 'sysconf', 'getpagesize', 'madvise', 'valloc_unused'}
CORE = {'atoi', 'atol', 'strtol', 'strtoul', 'strtoll', 'atexit', 'strerror'}    # settings, failed system calls (see below)
HEAP = ('malloc', 'calloc', 'free', 'realloc', 'memalign', 'posix_memalign', 'aligned_alloc', 'valloc', 'pvalloc', 'strdup',
        'strndup', 'reallocarray')


def allowed(n, sets):
    if n.startswith('llvm.') or n == '<indirect>':
        return True
    return any(n in s for s in sets)


class Eng(DumaEngine):
    narrow = True
    EVENTS = DumaEngine.EVENTS - {'DUMA_sprintf', 'DUMA_strerror'}
    STR = {'strcpy': 'cpy', '_duma_strcpy': 'cpy', 'strcat': 'cat', '_duma_strcat': 'cat', 'strlen': 'len'}
    no_inline = frozenset(['strcpy', 'strcat', 'strncpy', 'strncat', '_duma_strcpy', '_duma_strcat', '_duma_strncpy',
                           '_duma_strncat', 'memcpy', 'memmove', '_duma_memcpy', '_duma_memmove', 'strnlen',
                           '_duma_strnlen'])

    def step(self, F, B, I, st, out):
        r = super().step(F, B, I, st, out)
        if I.op == 'alloca':
            v = self.val(st, ('v', I.id))
            self.osize[list(v.c)[0]] = I.x
        return r

    def size_of(self, kind, base):
        if kind == 'stack':
            return self.osize.get(base)
        G = self.m.globals.get(SYMS[base].origin)
        return G.size if G is not None else None

    def write(self, st, a, n, I, what):
        """obligation: [a, a+n) lies inside its object"""
        kind, base, off = self.region(st, st.cons.norm(a))
        if kind not in ('stack', 'global'):
            return
        z = self.size_of(kind, base)
        if z is None:
            return
        n = n if isinstance(n, Lin) else C(n)
        nm = SYMS[base].origin[1] if kind == 'stack' else SYMS[base].origin
        ok = self.holds(st, cge(off)) and self.holds(st, cge(C(z) - off - n))
        self.oblig('write-inside-buffer', ok, I, '%s may write outside the %d bytes of %s' % (what, z, nm), st)

    def nulkill(self, st, base, off, n):
        k = ('nul', base)
        o = st.gh.get(k)
        if o is not None and not (self.holds(st, cge(o - off - n)) or self.holds(st, cge(off - o - 1))):
            del st.gh[k]

    def store(self, st, a, v, size, inst):
        self.write(st, a, size, inst, 'a store')
        kind, base, off = self.region(st, st.cons.norm(a))
        if kind in ('stack', 'global'):
            vv = v if isinstance(v, Lin) else None
            self.nulkill(st, base, off, C(size))
            if size == 1 and vv is not None and self.same(st, vv, C(0)):
                st.gh[('nul', base)] = off
        super().store(st, a, v, size, inst)

    def copy_mem(self, st, dst, src, n, inst):
        self.write(st, dst, n, inst, 'a block copy')
        kind, base, off = self.region(st, st.cons.norm(dst))
        if kind in ('stack', 'global'):
            self.nulkill(st, base, off, st.cons.norm(n))
            L = self.strlen(st, src)
            if L is not None and self.holds(st, cge(n - L - 1)):
                st.gh[('nul', base)] = off + L
        super().copy_mem(st, dst, src, n, inst)

    def fill_mem(self, st, dst, v, n, inst):
        self.write(st, dst, n, inst, 'a fill')
        kind, base, off = self.region(st, st.cons.norm(dst))
        if kind in ('stack', 'global'):
            self.nulkill(st, base, off, st.cons.norm(n))
        super().fill_mem(st, dst, v, n, inst)

    def strlen(self, st, p):
        """upper bound of the length of the string at p, exact for constants"""
        kind, base, off = self.region(st, st.cons.norm(p))
        if kind == 'global':
            G = self.m.globals.get(SYMS[base].origin)
            s = G.string if G is not None else None
            if s is not None and not off.c and G.const:
                b = s if isinstance(s, bytes) else s.encode('latin1')
                b = b[off.k:]
                return C(b.index(b'\0') if b'\0' in b else len(b))
        if kind in ('stack', 'global'):
            o = st.gh.get(('nul', base))
            if o is not None and self.holds(st, cge(o - off)):
                return o - off
        return None

    def external(self, st, n, a, I):
        k = self.STR.get(n)
        if k == 'len':
            L = self.strlen(st, a[0])
            s = newsym('strlen', 0, 1 << 40)
            if L is not None:
                if not L.c:
                    return [(st, L, 'ret')]
                self.add(st, cge(L - V(s)))
            return [(st, V(s), 'ret')]
        if k in ('cpy', 'cat'):
            L = self.strlen(st, a[1])
            kind, base, off = self.region(st, st.cons.norm(a[0]))
            if kind in ('stack', 'global'):
                if k == 'cat':
                    D = self.strlen(st, a[0])
                    off = None if D is None else off + D
                ok = L is not None and off is not None
                if ok:
                    self.write(st, V(base) + off, L + 1, I, 'a string copy')
                    self.nulkill(st, base, off, L + 1)
                    st.gh[('nul', base)] = off + L
                else:
                    self.oblig('write-inside-buffer', False, I, 'a string of unbounded length is copied into %s' % (
                        SYMS[base].origin,), st)
            return [(st, a[0], 'ret')]
        if n in ('memcpy', 'memmove', '_duma_memcpy', '_duma_memmove'):
            self.copy_mem(st, a[0], a[1], self.toU(st, a[2], 64), I)
            return [(st, a[0], 'ret')]
        if n in ('strncpy', '_duma_strncpy'):
            self.write(st, a[0], self.toU(st, a[2], 64), I, 'strncpy')
            return [(st, a[0], 'ret')]
        if n in ('sprintf', 'vsprintf', 'snprintf', 'vsnprintf'):
            kind, base, off = self.region(st, st.cons.norm(a[0]))
            if kind in ('stack', 'global'):
                if n[-7] == 'n' or 'snprintf' in n:
                    self.write(st, a[0], self.toU(st, a[1], 64), I, n)
                else:
                    self.oblig('write-inside-buffer', False, I, '%s into a fixed buffer' % n, st)
        return super().external(st, n, a, I)


class Mon(Monitor):
    def __init__(self, item):
        self.item = item

    def at_entry(self, st, item):
        self.eng.osize = {}


def check(ctx):
    configs = ['static', 'so', 'gnumake'] if not ctx.thorough else ['static', 'so', 'shared', 'gnumake', 'noleak', 'explicit', 'prefer', 'nothread', 'noglobal']
    items = []
    for c in configs:
        m = module(c)
        rep = [f for f in ('DUMA_Abort', 'DUMA_Exit', 'DUMA_Print', 'DUMA_sprintf', 'DUMA_strerror', '_duma_assert') if
               f in m.functions and not m.functions[f].decl]
        for f in ('DUMA_Abort', 'DUMA_Exit', 'DUMA_Print'):
            if f not in rep:
                raise Missing('report function %s' % f)
        lock = [f for f in ('DUMA_get_sem', 'DUMA_rel_sem', 'DUMA_init_sem') if f in m.functions and not m.functions[f].decl]
        page = sorted({F.name for F in m.functions.values() if not F.decl for B, I in calls(F)
                       if I.x.get('callee') in ('mmap', 'munmap', 'mprotect')})
        core = [f for f in ('_duma_allocate', '_duma_deallocate', '_duma_realloc', 'duma_check', 'duma_checkAll',
                            'DUMA_newFrame', 'DUMA_delFrame', '_duma_malloc_usable_size') if f in m.functions]
        for what, roots, sets in (('reporting', rep, (PURE, SYSC)), ('locking', lock, (PURE, SYSC, LOCKS)),
                                  ('page management', page, (PURE, SYSC, LOCKS, PAGES, CORE)),
                                  ('the allocator', core, (PURE, SYSC, LOCKS, PAGES, CORE))):
            fns, ext = reach(m, roots, stop=INITS)
            ctx.analysed.setdefault('closure', {})['%s:%s' % (c, what)] = dict(functions=len(fns), external=sorted(ext))
            for n, cs in ext.items():
                f, I = cs[0]
                ctx.ob('no-heap-no-stdio', allowed(n, sets), I.loc(),
                       '%s uses %s(), called in %s' % (what, n, f), f)
            for h in HEAP:
                for p in (h, '_duma_' + h):
                    if p in fns and p not in roots:
                        ctx.ob('no-recursion-into-heap', False, p, '%s reaches the allocating function %s' % (what, p), p)
            if what in ('reporting', 'locking', 'page management'):
                for p in ('_duma_allocate', '_duma_deallocate', '_duma_init'):
                    ctx.ob('no-recursion-into-heap', p not in fns, p, '%s reaches %s' % (what, p), p)
        for f in rep:
            items.append(Item(c, f))
        for f in ('_duma_allocate',):
            pass
    ctx.items(run_items(items, Mon, Eng))
    ctx.assumptions += ['strerror() of the C library does not allocate for the error numbers of failed page operations (the '
                        'call is guarded against recursion and documented as a build option)',
                        'strings passed to %s are terminated']
