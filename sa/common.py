"""Shared parts of the engine-based rules: entry points and their calling contexts, work items, parallel running."""
import os, sys, time, traceback, signal
import ir, lin, build
from engine import *
from engine import Engine, Monitor, Slot, Seg, GiveUp
from duma import DumaEngine, Missing, SHARED

STD = ('malloc', 'calloc', 'free', 'memalign', 'posix_memalign', 'realloc', 'valloc', 'malloc_usable_size', 'strdup',
       'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'aligned_alloc', 'pvalloc', 'strnlen', 'reallocarray')
STRMEM = ('_duma_memcpy', '_duma_memmove', '_duma_strcpy', '_duma_strncpy', '_duma_strcat', '_duma_strncat',
          '_duma_strnlen', 'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat')
INITS = ('_duma_init', 'duma_init')
# public functions of the other modules with rules of their own
OUTSIDE = {'DUMA_Print', 'DUMA_Abort', 'DUMA_Exit', 'DUMA_sprintf', 'DUMA_vsprintf', 'DUMA_strerror', 'DUMA_get_sem',
           'DUMA_rel_sem', 'DUMA_init_sem', '_duma_assert', '__clang_call_terminate'}


def public(mod):
    """externally visible functions of the library"""
    out = []
    for n, F in mod.functions.items():
        if F.decl or not F.blocks:
            continue
        if F.linkage != 0:      # external linkage only
            continue
        out.append(n)
    return out


def alloc_params(mod, fn):
    """positions of (allocator kind, leave-table-open flag, failure mode) by declared type"""
    F = mod.functions[fn]
    di = mod.di
    kind = fail = None
    for i in range(len(F.params)):
        a = (F.di or {}).get('args', {}).get(i + 1)
        if not a:
            continue
        nm = di.type_name(a[1])
        if nm == '_DUMA_Allocator':
            kind = i
        elif nm == '_DUMA_FailReturn':
            fail = i
    prot = kind - 1 if kind is not None else None
    return kind, prot, fail


class Item:
    """one unit of work: function + calling context"""
    def __init__(self, config, fn, ctx='user'):
        self.config, self.fn, self.ctx = config, fn, ctx

    def __repr__(self):
        return '%s:%s[%s]' % (self.config, self.fn, self.ctx)


def contexts(mod, fn):
    """calling contexts that cover every call of fn:
    user  - called by the program: lock free, record table closed
    inner - _duma_allocate/_duma_deallocate called by a library function that holds lock and open table
    int   - the same for the library's own memory
    init  - before initialisation"""
    if fn in ('_duma_allocate', '_duma_deallocate'):
        return ['user', 'inner', 'int']
    if fn in INITS:
        return ['init']
    return ['user']


def entry_state(e, mod, fn, ctx):
    F = mod.functions[fn]
    if ctx in ('inner', 'int'):
        st = e.entry(1, 'O')
        st.tags['gen'] = 1
    else:
        st = e.entry(0, 'C')
    for i, n in e.argnames(F).items():
        e.set_sym_arg(st, F, i, n)
    if fn in ('_duma_allocate', '_duma_deallocate'):
        k, p, f = alloc_params(mod, fn)
        if k is None:
            raise Missing('allocator family parameter of %s' % fn)
        INT = [v for n, v in e.EFA.items() if 'INT' in n]
        lo, hi = max(INT) + 1, max(e.EFA.values())
        a = st.env[('a', k)]
        if ctx == 'int':
            st.env[('a', k)] = C(e.EFA['EFA_INT_ALLOC'] if fn == '_duma_allocate' else e.EFA['EFA_INT_DEALLOC'])
        else:
            e.add(st, cge(a - lo))
            e.add(st, cge(C(hi) - a))
        st.env[('a', p)] = C(1 if ctx == 'user' else 0)
        if f is not None:
            e.add(st, cge(st.env[('a', f)]))
            e.add(st, cge(C(max((mod.di.enum('_DUMA_FailReturn') or {'x': 1}).values())) - st.env[('a', f)]))
    return st


_MODS = {}
_ROOT = None
_TREE = None


def setup():
    global _ROOT, _TREE
    if _ROOT is None:
        _ROOT = build.scratch()
        _TREE = build.stage(_ROOT)
    return _ROOT, _TREE


def cleanup():
    global _ROOT
    if _ROOT:
        import shutil
        shutil.rmtree(_ROOT, ignore_errors=True)
        _ROOT = None


def module(config):
    m = _MODS.get(config)
    if m is None:
        setup()
        m = _MODS[config] = ir.Module(build.build_ir(_ROOT, _TREE, config))
    return m


class Timeout(Exception):
    pass


def run_item(item, make_monitor, make_engine=None, limit=800):
    """analyse one item; returns a plain dict"""
    t = time.time()
    out = dict(item=repr(item), config=item.config, fn=item.fn, ctx=item.ctx, reports=[], obligations=0, discharged=0,
               events={}, error=None, stats={})

    def alarm(*_):
        raise Timeout('time limit of %d s' % limit)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        mod = module(item.config)
        mon = make_monitor(item)
        E = make_engine or DumaEngine
        e = E(mod, mon, uninit=(item.ctx == 'init'))
        e.item = item
        st = entry_state(e, mod, item.fn, item.ctx)
        mon.at_entry(st, item) if hasattr(mon, 'at_entry') else None
        rets = e.run(mod.functions[item.fn], [st])
        if hasattr(mon, 'at_exit'):
            for s, v, k in rets:
                mon.at_exit(s, v, k, item)
        if hasattr(mon, 'finish'):
            mon.finish(rets, item)
        out['reports'] = list(e.reports.values())
        out['obligations'] = e.stats['obligations']
        out['discharged'] = e.stats['discharged']
        out['events'] = {r: sorted('%s @ %s' % k for k in d) for r, d in e.events.items()}
        out['stats'] = {k: (sorted(v) if isinstance(v, set) else v) for k, v in e.stats.items()}
        out['exits'] = len(rets)
    except Missing as x:
        out['error'] = 'missing anchor: %s' % x
    except (GiveUp, Timeout) as x:
        out['error'] = 'gave up: %s' % x
    except RecursionError as x:
        out['error'] = 'gave up: recursion'
    except Exception as x:
        out['error'] = 'internal: %s' % ''.join(traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    out['wall'] = time.time() - t
    return out


_JOB = None


def _child(i):
    items, mm, me, limit = _JOB
    return run_item(items[i], mm, me, limit)


def run_items(items, make_monitor, make_engine=None, limit=800, procs=8):
    """analyse the items in parallel (forked children share the parsed modules)"""
    import multiprocessing as mp
    global _JOB
    if not items:
        return []
    lin._fm()
    for it in items:
        module(it.config)
    _JOB = (items, make_monitor, make_engine, limit)
    sys.setrecursionlimit(20000)
    if len(items) == 1 or os.environ.get('SA_SERIAL'):
        return [_child(i) for i in range(len(items))]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items)), maxtasksperchild=1) as pool:
        return pool.map(_child, range(len(items)), chunksize=1)
