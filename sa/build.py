"""Builds /repo's current working tree into LLVM IR (scratch directory, one sub-tree per configuration)."""
import os, shutil, subprocess, tempfile, sys, re

REPO = os.environ.get('DUMA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
HERE = os.path.dirname(os.path.abspath(__file__))
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffine-grained-bitfield-accesses', '-fPIC', '-w',
          '-emit-llvm', '-S', '-fno-discard-value-names']

# name -> (defines, lines commented out / defined in duma_config.h)
CONFIGS = {
    'static': (['-DDUMA_OLD_NEW_MACRO'], {}),                     # CMake / default static library
    'shared': (['-DDUMA_SHARED_EXPORTS'], {}),                    # CMake shared library
    'so': (['-DDUMA_SO_LIBRARY', '-DPIC'], {}),                   # GNUmakefile shared library
    'gnumake': (['-DDUMA_SO_NO_LEAKDETECTION', '-DDUMA_NO_STRERROR'], {}),
    'noleak': ([], {'DUMA_NO_LEAKDETECTION': 1}),
    'explicit': ([], {'DUMA_EXPLICIT_INIT': 1}),
    'nothread': ([], {'DUMA_NO_THREAD_SAFETY': 1}),
    'prefer': ([], {'DUMA_PREFER_GETENV': 1, 'DUMA_PREFER_ATEXIT': 1}),
    'oldmacro': ([], {'DUMA_OLD_NEW_MACRO': 1, 'DUMA_OLD_DEL_MACRO': 1}),
    'noglobal': ([], {'DUMA_NO_GLOBAL_MALLOC_FREE': 1}),
}


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, ok=False, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                       errors='replace')
    if p.returncode and not ok:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-2000:]))
    return p


def scratch():
    return tempfile.mkdtemp(prefix='dumasa.')


def stage(root):
    """copy of the source files of the working tree, plus the generated headers"""
    t = os.path.join(root, 'src_tree')
    os.makedirs(t)
    for d in ('', 'src'):
        s = os.path.join(REPO, d)
        if not os.path.isdir(s):
            continue
        os.makedirs(os.path.join(t, d), exist_ok=True)
        for f in os.listdir(s):
            if f.endswith(('.h', '.c', '.cpp', '.hpp', '.inc')) and os.path.isfile(os.path.join(s, f)):
                if f in ('duma_config.h', 'verinfo.h') and not d:
                    continue
                shutil.copy(os.path.join(s, f), os.path.join(t, d, f))
    # generated headers: the repository's own generator, run in the scratch tree
    g = os.path.join(root, 'gen')
    os.makedirs(g)
    cfg = os.path.join(t, 'duma_config.h')
    try:
        sh(['gcc', '-w', '-o', os.path.join(g, 'cc'), os.path.join(t, 'createconf.c'), '-lpthread'], cwd=g)
        sh([os.path.join(g, 'cc')], cwd=g, timeout=60)
        shutil.copy(os.path.join(g, 'duma_config.h'), cfg)
    except Exception:
        for c in (os.path.join(REPO, 'duma_config.h'), os.path.join(HERE, 'fallback_duma_config.h')):
            if os.path.exists(c):
                shutil.copy(c, cfg)
                break
    with open(os.path.join(t, 'verinfo.h'), 'w') as f:
        f.write('#ifndef GIT_SOURCE_VERSION_VERINFO_H\n#define GIT_SOURCE_VERSION_VERINFO_H\n'
                '# define GIT_SOURCE_VERSION "analysis"\n#endif\n')
    # a tracked duma_config.h / verinfo.h in the tree wins
    for f in ('duma_config.h', 'verinfo.h'):
        if subprocess.run(['git', '-C', REPO, 'ls-files', '--error-unmatch', f], stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode == 0:
            shutil.copy(os.path.join(REPO, f), os.path.join(t, f))
    return t


def variant(tree, root, name, opts):
    """a source tree with other duma_config.h options"""
    if not opts:
        return tree
    t = os.path.join(root, 'tree_' + name)
    if os.path.isdir(t):
        return t
    shutil.copytree(tree, t)
    p = os.path.join(t, 'duma_config.h')
    s = open(p).read()
    for k, v in opts.items():
        s2 = re.sub(r'^[ \t]*/\*\s*#\s*define\s+%s\b.*?\*/' % k, '#define %s' % k, s, flags=re.M)
        if s2 == s and not re.search(r'^\s*#\s*define\s+%s\b' % k, s, re.M):
            i = s.rfind('#endif')
            s2 = s[:i] + '#define %s\n' % k + s[i:]
        s = s2
    open(p, 'w').write(s)
    return t


def units(tree):
    out = []
    for f in sorted(os.listdir(os.path.join(tree, 'src'))):
        if f.endswith('.c') or f.endswith('.cpp'):
            out.append(os.path.join(tree, 'src', f))
    return out


def build_ir(root, tree, name, opt=True):
    """compile, link; returns path of the linked .ll"""
    defs, opts = CONFIGS[name]
    t = variant(tree, root, name, opts)
    o = os.path.join(root, 'ir_' + name)
    os.makedirs(o, exist_ok=True)
    outs = []
    procs = []
    for u in units(t):
        b = os.path.join(o, os.path.basename(u) + '.ll')
        cpp = u.endswith('.cpp')
        # -fno-builtin is not used: library calls keep their C semantics in the model
        cmd = [LLVM + ('/clang++' if cpp else '/clang')] + CFLAGS + (['-std=gnu++98'] if cpp else []) + \
              ['-I' + t, '-fdebug-prefix-map=%s=' % (t + '/')] + defs + [u, '-o', b]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        outs.append(b)
    for cmd, p in procs:
        _, e = p.communicate()
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), e[-2000:]))
    a = os.path.join(o, 'all0.ll')
    sh([LLVM + '/llvm-link', '-S'] + outs + ['-o', a])
    s = os.path.join(o, 'all.ll')
    sh([LLVM + '/opt', '-S', '-passes=sroa', a, '-o', s])
    return s
