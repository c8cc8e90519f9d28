"""Witness programs: small users of the headers, compiled against the current tree (never run) and analysed as IR."""
import os
import build, ir, common
from build import LLVM, CFLAGS, sh, BuildError


def compile_ir(name, text, config='static', std=None, defs=(), cpp=None):
    """IR text file of one witness with the headers of the given build configuration"""
    root, tree = common.setup()
    d, opts = build.CONFIGS[config]
    t = os.path.join(root, 'tree_' + config)
    if not opts:
        t = tree
    elif not os.path.isdir(t):
        t = build.variant(tree, root, config, opts)
    w = os.path.join(root, 'wit')
    os.makedirs(w, exist_ok=True)
    cpp = name.endswith('.cpp') if cpp is None else cpp
    src = os.path.join(w, config + '_' + name)
    open(src, 'w').write(text)
    out = src + '.%s.ll' % abs(hash((tuple(defs), std)))
    cmd = [LLVM + ('/clang++' if cpp else '/clang')] + CFLAGS + ['-fno-builtin', '-I' + t, '-fdebug-prefix-map=%s=' % (w + '/')]
    cmd += ['-std=' + (std or ('gnu++98' if cpp else 'gnu99'))] + [x for x in d if not x.startswith('-DPIC')] + list(defs) + [src, '-o', out]
    p = sh(cmd, ok=True)
    return out, p


def module(key, name, text, config='static', std=None, defs=(), library=True):
    """parsed module of a witness, linked with the library of that configuration when asked for"""
    m = common._MODS.get(key)
    if m is not None:
        return m
    out, p = compile_ir(name, text, config, std, defs)
    if p.returncode:
        raise common.Missing('the witness %s does not compile: %s' % (name, p.stderr.strip()[-300:]))
    a = out + '.lnk'
    if library:
        common.module(config)
        lib = os.path.join(common._ROOT, 'ir_' + config, 'all0.ll')
        sh([LLVM + '/llvm-link', '-S', out, lib, '-o', a])
    else:
        a = out
    s = out + '.s'
    sh([LLVM + '/opt', '-S', '-passes=sroa', a, '-o', s])
    m = common._MODS[key] = ir.Module(s)
    return m
