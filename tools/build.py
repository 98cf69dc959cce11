"""Builds the library and the drivers from /repo's current sources, outside /repo.

The result is kept in a cache directory named after a digest of everything that
goes into it, so that checks run one after another do not rebuild needlessly."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'build')

CONFIG_H = """
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_STRINGS_H 1
#define HAVE_UNISTD_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_LIMITS_H 1
#define STDC_HEADERS 1
#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_VERSION "0.6.4~devel"
#define PACKAGE_STRING "libcypher-parser 0.6.4~devel"
#define PACKAGE_TARNAME "libcypher-parser"
#define PACKAGE_URL ""
#define PACKAGE_BUGREPORT ""
#define VERSION "0.6.4~devel"
"""
SUBST = dict(PACKAGE_VERSION='0.6.4~devel', PACKAGE_MAJOR_VERSION='0', PACKAGE_MINOR_VERSION='6',
             PACKAGE_PATCH_VERSION='4', PACKAGE_DEVELOPMENT_VERSION='devel',
             PACKAGE_STATUS_VERSION='1')

FLAVOURS = {
    'asan': ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-fno-sanitize=nonnull-attribute', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'],
    'plain': ['-g', '-O2'],
    'tsan': ['-g', '-O1', '-fsanitize=thread'],
}
# the library as a release build makes it: assertions disabled
FLAVOURS['ndebug'] = FLAVOURS['asan'] + ['-DNDEBUG']

def sources():
    out = {}
    for d in ('lib/src', 'linter/src'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*'))):
            b = os.path.basename(f)
            if b.endswith(('.c', '.h', '.leg', '.h.in')) and not b.endswith('_leg.c') \
               and b != 'cypher-parser.h':
                out[d + '/' + b] = open(f, 'rb').read()
    return out

def digest(flavour, srcs):
    h = hashlib.sha256()
    for k in sorted(srcs):
        h.update(k.encode()); h.update(b'\0'); h.update(srcs[k]); h.update(b'\0')
    for f in sorted(glob.glob(os.path.join(VERIF, 'drv', '*'))) + [os.path.abspath(__file__)]:
        h.update(open(f, 'rb').read())
    h.update(flavour.encode())
    return h.hexdigest()[:20]

def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout

DRIVERS = {  # name -> extra link flags
    'parse': [],
}
for _f in glob.glob(os.path.join(VERIF, 'drv', '*.c')):
    DRIVERS.setdefault(os.path.basename(_f)[:-2], [])
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'reallocarray', 'vasprintf', 'asprintf']
DRIVERS_WRAP = {'fault', 'build'}
ONLY = {'tsan': ['sched'], 'plain': ['parse']}
def drivers(flavour): return ONLY.get(flavour, list(DRIVERS))

def build(flavour='asan'):
    """Returns the directory with the built drivers."""
    srcs = sources()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, flavour + '-' + digest(flavour, srcs))
    with open(os.path.join(CACHE, '.lock-' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        for old in glob.glob(os.path.join(CACHE, flavour + '-*')):
            shutil.rmtree(old, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=CACHE)
        try:
            _build(flavour, srcs, tmp)
            open(os.path.join(tmp, 'ok'), 'w').close()
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return out

def _build(flavour, srcs, tmp):
    for k, v in srcs.items():
        p = os.path.join(tmp, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(v)
    lib = os.path.join(tmp, 'lib/src')
    cfg = os.path.join(REPO, 'config.h')
    if os.path.exists(cfg):
        shutil.copy(cfg, os.path.join(tmp, 'config.h'))
    else:
        open(os.path.join(tmp, 'config.h'), 'w').write(CONFIG_H)
    shutil.copy(os.path.join(tmp, 'config.h'), os.path.join(lib, 'config.h'))
    hin = os.path.join(lib, 'cypher-parser.h.in')
    t = open(hin).read()
    t = re.sub(r'@(\w+)@', lambda m: SUBST.get(m.group(1), '0'), t)
    open(os.path.join(lib, 'cypher-parser.h'), 'w').write(t)
    legs = glob.glob(os.path.join(lib, '*.leg'))
    for l in legs:
        sh(['leg', '-o', l[:-4] + '_leg.c', l], lib)
    gen = {os.path.basename(l)[:-4] + '_leg.c' for l in legs}
    flags = FLAVOURS[flavour] + ['-std=gnu11', '-w', '-DHAVE_CONFIG_H', '-I' + tmp, '-I' + lib]
    cs = [c for c in sorted(glob.glob(os.path.join(lib, '*.c'))) if os.path.basename(c) not in gen]
    cs.sort(key=lambda c: -os.path.getsize(c) - (10**7 if 'parser.c' in c else 0))
    def cc(c):
        o = c[:-2] + '.o'
        sh(['gcc'] + flags + ['-c', '-o', o, c], lib)
        return o
    dflags = FLAVOURS[flavour] + ['-std=gnu11', '-Wall', '-I' + lib, '-I' + os.path.join(VERIF, 'drv')]
    def cd(name):
        o = os.path.join(tmp, name + '.drv.o')
        sh(['gcc'] + dflags + ['-c', '-o', o, os.path.join(VERIF, 'drv', name + '.c')], tmp)
        return o
    with ThreadPoolExecutor(8) as ex:
        f1 = [ex.submit(cc, c) for c in cs]
        f2 = {n: ex.submit(cd, n) for n in drivers(flavour)}
        objs = [f.result() for f in f1]
        dobj = {n: f.result() for n, f in f2.items()}
    sh(['ar', 'rcs', os.path.join(tmp, 'libcp.a')] + objs, tmp)
    def ln(name):
        w = ['-Wl,' + ','.join('--wrap=' + x for x in WRAP)] if name in DRIVERS_WRAP else []
        sh(['gcc'] + FLAVOURS[flavour] + ['-o', os.path.join(tmp, name), dobj[name],
            os.path.join(tmp, 'libcp.a'), '-lm', '-lpthread'] + w, tmp)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(ln, drivers(flavour)))
    lint = sorted(glob.glob(os.path.join(tmp, 'linter/src', '*.c')))
    if lint:
        sh(['gcc'] + flags + ['-o', os.path.join(tmp, 'cypher-lint')] + lint +
           [os.path.join(tmp, 'libcp.a'), '-lm'], tmp)
    for o in objs + list(dobj.values()):
        os.unlink(o)

if __name__ == '__main__':
    for fl in (sys.argv[1:] or ['asan']):
        print(build(fl))
