"""Builds everything a check needs from /repo's current sources and /verif."""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'stl-to-ps')
UNITS = ['ast', 'center', 'geo', 'parser', 'parser_support', 'ps', 'stl', 'stl-to-ps']
GEN = ['parser.tab', 'lexer.yy']
ABSL = ['strings', 'str_format_internal', 'time', 'time_zone', 'base', 'int128', 'throw_delegate',
        'raw_logging_internal', 'strings_internal',
        # not used now, but a change may
        'hash', 'city', 'low_level_hash', 'raw_hash_set', 'hashtablez_sampler', 'bad_any_cast_impl', 'bad_optional_access',
        'bad_variant_access', 'cord', 'status', 'statusor', 'strerror', 'civil_time', 'log_severity', 'synchronization']
COMMON = ['-std=c++17', '-DEIGEN_INITIALIZE_MATRICES_BY_ZERO', '-w']


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def files(d, exts):
    r = []
    for root, _, fs in os.walk(d):
        r += [os.path.join(root, f) for f in fs if f.endswith(exts)]
    return r


def units():
    """The library's translation units: every .cc that is not a test or a main."""
    found = sorted(f[:-3] for f in os.listdir(SRC) if f.endswith('.cc') and not f.endswith('_test.cc')
                   and f not in ('test_main.cc', 'stl-to-ps-main.cc'))
    return found


def build(harness):
    """Returns dict(engine, bc, native) for one harness source (path)."""
    eng_src = files(VERIF + '/engine', ('.cc', '.h', '.inc', 'Makefile'))
    headers = [p for p in files(SRC, '') if not p.endswith('.cc')]
    shim = files(VERIF + '/shim', ('.h', '.cc'))
    mine = files(VERIF + '/models', ('.cc',)) + files(VERIF + '/harness', ('.h',)) + \
        [VERIF + '/harness/sym_native.cc', VERIF + '/build_lib.py']
    root = os.path.join(VERIF, 'build')
    os.makedirs(root, exist_ok=True)
    eng = os.path.join(root, 'eng-' + digest(eng_src))
    # Objects depend on the headers and their own source: code/NAME-DIGEST.o
    code = os.path.join(root, 'code-' + digest(headers + shim + mine))
    for d in (eng, code):
        os.makedirs(d, exist_ok=True)
    jobs = []
    if not os.path.exists(eng + '/symir'):
        for f in ('solver', 'interp'):
            jobs.append((['make', '-C', VERIF + '/engine', 'OUT=' + eng, '%s/%s.o' % (eng, f)], None))
    gen = code + '/gen/stl-to-ps'
    if not os.path.exists(code + '/gen/ok'):
        os.makedirs(gen, exist_ok=True)
        os.makedirs(code + '/ov/bits', exist_ok=True)
        cfg = '/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h'
        s = open(cfg).read().replace('define _GLIBCXX_EXTERN_TEMPLATE 1', 'define _GLIBCXX_EXTERN_TEMPLATE 0')
        open(code + '/ov/bits/c++config.h', 'w').write(s)
        sh(['bison', '-Wnone', '--defines=' + gen + '/parser.tab.h', '-o', gen + '/parser.tab.cc', SRC + '/parser.y'])
        sh(['flex', '--header-file=' + gen + '/lexer.yy.h', '-o', gen + '/lexer.yy.cc', SRC + '/lexer.l'])
        open(code + '/gen/ok', 'w').close()
    inc = ['-I' + VERIF + '/shim', '-I' + VERIF + '/harness', '-I' + code + '/gen', '-I' + REPO, '-isystem', '/usr/include/eigen3']
    bc = ['/usr/bin/clang++-18'] + COMMON + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
         '-fno-pic', '-fno-pie', '-I' + code + '/ov', '-DEIGEN_DONT_VECTORIZE'] + inc + ['-c', '-emit-llvm']
    nat = ['/usr/bin/clang++-18'] + COMMON + ['-O1', '-g1', '-ffp-contract=off', '-fsanitize=address',
          '-DEIGEN_DONT_VECTORIZE'] + inc + ['-c']
    us = [(u, SRC + '/' + u + '.cc', [SRC + '/' + u + '.cc']) for u in units()] + \
        [(g, gen + '/' + g + '.cc', []) for g in GEN]
    us.sort(key=lambda u: {'stl-to-ps': 0, 'stl': 1, 'parser.tab': 2}.get(u[0], 9))  # biggest first
    main = SRC + '/stl-to-ps-main.cc'
    extra = [main] if os.path.exists(main) else []
    todo = [(u, p, code + '/' + u + '-' + digest(d)) for u, p, d in us]
    todo += [('h', harness, code + '/h-' + os.path.basename(harness)[:-3] + '-' + digest([harness] + extra))]

    def compile_to(cmd, out):
        # Written under another name first, so that an interrupted build leaves nothing half done.
        if not os.path.exists(out):
            tmp = '%s.%d%s' % (out, os.getpid(), os.path.splitext(out)[1])
            sh(cmd + ['-o', tmp])
            os.replace(tmp, out)
    objs = []
    for u, p, o in todo:
        objs += [(nat + [p], o + '.o'), (bc + [p], o + '.bc')]
    objs.append((bc + [VERIF + '/models/models.cc'], code + '/models.bc'))
    objs.append((nat + [VERIF + '/harness/sym_native.cc'], code + '/sym_native.o'))
    with ThreadPoolExecutor(8) as ex:
        fut = [ex.submit(sh, c, w) for c, w in jobs] + [ex.submit(compile_to, c, o) for c, o in objs]
        for f in fut:
            f.result()
    if not os.path.exists(eng + '/symir'):
        sh(['make', '-C', VERIF + '/engine', 'OUT=' + eng])
    har = code + '/l-' + os.path.basename(harness)[:-3] + '-' + hashlib.sha256(' '.join(o for _, _, o in todo).encode()).hexdigest()[:16]
    os.makedirs(har, exist_ok=True)
    if not os.path.exists(har + '/ok'):
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(sh, ['llvm-link-18'] + [o + '.bc' for _, _, o in todo] + [code + '/models.bc', '-o', har + '/all.bc'])
            b = ex.submit(sh, ['/usr/bin/clang++-18', '-fsanitize=address', '-rdynamic'] + [o + '.o' for _, _, o in todo] +
                          [code + '/sym_native.o', '-o', har + '/native', '-Wl,--as-needed'] + ['-labsl_' + l for l in ABSL] + ['-ldl'])
            a.result()
            b.result()
        open(har + '/ok', 'w').close()
    # keep the cache small
    for d in os.listdir(root):
        p = os.path.join(root, d)
        if p not in (eng, code) and os.path.isdir(p) and os.path.getmtime(p) < os.path.getmtime(code) - 7200:
            shutil.rmtree(p, ignore_errors=True)
    libs = []
    for l in ABSL:
        libs += ['--lib', '/usr/lib/x86_64-linux-gnu/libabsl_%s.so' % l]
    return {'engine': eng + '/symir', 'bc': har + '/all.bc', 'native': har + '/native', 'libs': libs, 'dir': har}
