"""Builds libcwd from /repo's current working tree, with the stand-in for the threadsafe submodule.

Every product is cached under a directory named after the contents that went into it, so a check
never uses something that was built from another tree.
"""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, glob, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
BUILD = os.environ.get('VK_BUILD', os.path.join(VERIF, 'build'))
SHIM = os.path.join(VERIF, 'shim')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = os.cpu_count() or 4

IGN = '-fsanitize-ignorelist=%s/vk/ubsan.ignore' % VERIF


class BuildError(Exception):
    pass


VARIANTS = {
    # name: (compiler, compile flags, link flags, config overrides)
    'plain': ('g++', ['-O1', '-g', '-gdwarf-5'], [], {}),
    'asan': ('clang++', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-D_GLIBCXX_SANITIZE_VECTOR',
                         '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function', IGN],
             ['-fsanitize=address,undefined'], {}),
    'gasan': ('g++', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                      '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS'],
              ['-fsanitize=address,undefined'], {}),
    'tsan': ('clang++', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['-fsanitize=thread'], {}),
    # libcwd's own consistency checks on, libstdc++ in debug mode.
    'debug': ('g++', ['-O1', '-g', '-D_GLIBCXX_DEBUG'], [], {'CW_CONFIG_DEBUG': '1', 'CW_CONFIG_DEBUGT': '1',
                                                             'CW_CONFIG_GLIBCXX_DEBUG': '1'}),
    'fuzz': ('clang++', ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,fuzzer-no-link',
                         '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function', IGN],
             ['-fsanitize=address,undefined,fuzzer'], {}),
}

# Other configurations of the library (N03).
for _n, _o in (('cfgdebug', {'CW_CONFIG_DEBUG': '1'}), ('cfgdebugt', {'CW_CONFIG_DEBUGT': '1'}), ('cfgloc', {'CW_CONFIG_LOCATION': '0'}),
               ('cfgver', {'VERSION_MINOR': '17', 'PROJECT_VERSION': '2.17.0'})):
    VARIANTS[_n] = ('g++', ['-O0', '-g0'], [], _o)

LIBS = ['-ldw', '-lelf', '-lpthread', '-ldl']


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_inputs():
    out = []
    for top in ('include', 'src'):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            out += [os.path.join(d, f) for f in sorted(fn)]
    for f in ('CMakeLists.txt', 'debug.h', 'nodebug.h', 'sys.h'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for p in repo_inputs():
            h.update(os.path.relpath(p, REPO).encode() + b'\0' + hashlib.sha256(_read(p)).digest())
        for d, dn, fn in os.walk(SHIM):
            dn.sort()
            for f in sorted(fn):
                h.update(_read(os.path.join(d, f)))
        h.update(_read(os.path.abspath(__file__)))
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise BuildError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def configure(src, dst, vals):
    text = _read(src).decode()
    out = []
    for line in text.split('\n'):
        m = re.match(r'\s*#\s*cmakedefine01\s+(\w+)', line)
        if m:
            out.append('#define %s %s' % (m.group(1), '1' if vals.get(m.group(1)) not in (None, '', '0') else '0'))
            continue
        m = re.match(r'\s*#\s*cmakedefine\s+(\w+)(.*)', line)
        if m:
            if vals.get(m.group(1)) not in (None, '', '0'):
                out.append('#define %s%s' % (m.group(1), m.group(2)))
            else:
                out.append('/* #undef %s */' % m.group(1))
            continue
        out.append(re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), ''), line))
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w') as f:
        f.write('\n'.join(out))


def config_values(over):
    top = _read(os.path.join(REPO, 'CMakeLists.txt')).decode()
    m = re.search(r'project\(libcwd[ \t\r\n]+VERSION (\d+)\.(\d+)\.(\d+)', top)
    v = {'VERSION_MAJOR': m.group(1), 'VERSION_MINOR': m.group(2), 'VERSION_REVISION': m.group(3),
         'PROJECT_VERSION': '.'.join(m.groups()), 'CW_CONFIG_GLIBCXX_DEBUG': '0', 'CW_CONFIG_LOCATION': '1',
         'CW_CONFIG_DEBUG': '0', 'CW_CONFIG_DEBUGOUTPUT': '0', 'CW_CONFIG_DEBUGT': '0',
         'CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET': '-1',
         # Relative, so that the last resort of the rcfile search path is in the scratch directory of a run.
         'libcwd_datadir': 'vk-datadir'}
    for n in ('CW_INTERFACE_VERSION', 'CW_INTERFACE_VERSION_REVISION', 'CW_INTERFACE_AGE'):
        v[n] = re.search(r'set\(%s (\d+)\)' % n, top).group(1)
    for n in ('HAVE_PWD_H', 'HAVE_SYS_RESOURCE_H', 'HAVE_DLOPEN', 'HAVE__RTLD_GLOBAL', 'HAVE_GETEGID',
              'HAVE_GETGROUPS', 'HAVE_GETGID', 'HAVE_BUILTIN_EXPECT'):
        v[n] = '1'
    v.update(over)
    return v


def sources():
    """The source lists of src/CMakeLists.txt and src/utils/CMakeLists.txt."""
    out = []
    for d in ('src', 'src/utils'):
        text = _read(os.path.join(REPO, d, 'CMakeLists.txt')).decode()
        m = re.search(r'target_sources\(.*?\)', text, re.S)
        for n in re.findall(r'"([\w./-]+\.c(?:xx|pp|c)?)"', m.group(0)):
            out.append(os.path.join(REPO, d, n))
    return out


def variant_dir(variant):
    return os.path.join(BUILD, '%s-%s' % (variant, tree_hash()))


def include_flags(variant):
    d = variant_dir(variant)
    return ['-I%s/include' % d, '-I%s/include' % REPO, '-I%s' % REPO, '-I%s' % SHIM, '-I%s/include/libcwd' % d]


def std_flags(variant):
    return ['-std=c++20', '-fPIC', '-w', '-DCWDEBUG'] + VARIANTS[variant][1]


def _atomic_run(cmd, out):
    tmp = out + '.tmp%d' % os.getpid()
    run([c if c != out else tmp for c in cmd])
    os.replace(tmp, out)


def lib_objects(variant, exclude=()):
    """Compile libcwd; returns the list of object files."""
    cxx, cflags, _, over = VARIANTS[variant]
    d = variant_dir(variant)
    vals = config_values(over)
    stamp = os.path.join(d, 'include', '.done')
    if not os.path.exists(stamp):
        configure(REPO + '/include/cmake-config.h.in', d + '/include/config.h', vals)
        configure(REPO + '/include/libcwd/config.h.in', d + '/include/libcwd/config.h', vals)
        configure(REPO + '/include/cwd_sys.h.in', d + '/include/cwd_sys.h', vals)
        open(stamp, 'w').close()
    os.makedirs(d + '/obj', exist_ok=True)
    jobs, objs = [], []
    for s in sources():
        o = os.path.join(d, 'obj', os.path.basename(s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(([cxx] + std_flags(variant) + ['-DVERSION="%s"' % vals['PROJECT_VERSION']] +
                         include_flags(variant) + ['-c', s, '-o', o], o))
    _parallel(jobs)
    return objs


def _parallel(jobs):
    if not jobs:
        return
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_atomic_run, c, o) for c, o in jobs]:
            f.result()


def shared_lib(variant='plain'):
    objs = lib_objects(variant)
    d = variant_dir(variant)
    so = os.path.join(d, 'libcwd.so')
    if not os.path.exists(so):
        _atomic_run([VARIANTS[variant][0], '-shared'] + VARIANTS[variant][2] + objs + ['-o', so] + LIBS, so)
    return so


def _hash_files(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(_read(f))
    for f in sorted(glob.glob(HARNESS + '/*.h')):
        h.update(_read(f))
    return h.hexdigest()[:12]


def program(name, srcs, variant, extra_c=(), extra_l=(), link='static', libs=(), srcdir=None, outdir=None):
    """Build a harness program; link = 'static' (objects in the executable), 'shared' (libcwd.so) or 'none'."""
    cxx, cflags, lflags, _ = VARIANTS[variant]
    srcdir = srcdir or HARNESS
    srcs = [s if os.path.isabs(s) else os.path.join(srcdir, s) for s in srcs]
    d = outdir or os.path.join(variant_dir(variant), 'prog')
    with concurrent.futures.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lib_objects, variant) if link != 'none' else None
        if link == 'none':
            lib_headers(variant)
        else:
            fut.result()
    os.makedirs(d, exist_ok=True)
    tag = _hash_files(srcs, (list(extra_c), list(extra_l), link, list(libs)))
    exe = os.path.join(d, '%s-%s' % (name, tag))
    if os.path.exists(exe):
        return exe
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(d, '%s-%s-%s.o' % (name, tag, os.path.basename(s)))
        objs.append(o)
        jobs.append(([cxx] + std_flags(variant) + list(extra_c) + include_flags(variant) +
                     ['-I' + HARNESS, '-I' + REPO + '/tests/support', '-c', s, '-o', o], o))
    _parallel(jobs)
    lib = []
    if link == 'static':
        lib = lib_objects(variant)
    elif link == 'shared':
        so = shared_lib(variant)
        lib = [so, '-Wl,-rpath,' + os.path.dirname(so)]
    _atomic_run([cxx] + cflags + lflags + ['-rdynamic'] + objs + lib + list(extra_l) + list(libs) + LIBS + ['-o', exe], exe)
    return exe


def module(name, srcs, variant, extra_c=(), extra_l=(), outdir=None):
    """A shared library for dlopen that gets libcwd from the executable."""
    cxx, _, lflags, _ = VARIANTS[variant]
    srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs]
    lib_headers(variant)
    d = outdir or os.path.join(variant_dir(variant), 'prog')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'lib%s-%s.so' % (name, _hash_files(srcs, (list(extra_c), list(extra_l)))))
    if not os.path.exists(so):
        _atomic_run([cxx] + std_flags(variant) + list(extra_c) + include_flags(variant) + ['-I' + HARNESS] + lflags + ['-shared'] +
                    srcs + list(extra_l) + ['-o', so], so)
    return so


def lib_headers(variant):
    d = variant_dir(variant)
    vals = config_values(VARIANTS[variant][3])
    if not os.path.exists(d + '/include/.done'):
        configure(REPO + '/include/cmake-config.h.in', d + '/include/config.h', vals)
        configure(REPO + '/include/libcwd/config.h.in', d + '/include/libcwd/config.h', vals)
        configure(REPO + '/include/cwd_sys.h.in', d + '/include/cwd_sys.h', vals)
        open(d + '/include/.done', 'w').close()


def prune():
    """Remove products of other trees."""
    if not os.path.isdir(BUILD):
        return
    for n in os.listdir(BUILD):
        if not n.endswith(tree_hash()) and '-' in n:
            shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
