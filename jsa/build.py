"""Front end: compile /repo's current sources to one LLVM-IR module (text).

Nothing of /repo is executed; only the compiler front end runs over it.
"""
import hashlib, os, subprocess, sys, tempfile, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('JSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18/bin'


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (exit 2, never 0 or 1)."""


def tool(n):
    p = os.path.join(LLVM, n)
    if os.path.exists(p):
        return p
    p = shutil.which(n) or shutil.which(n + '-18')
    if not p:
        raise AnalysisBroken('tool %s not found' % n)
    return p


def main_sources():
    """The translation units of the `jsonstroll` target, read from CMakeLists.txt."""
    import re
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    txt = re.sub(r'#[^\n]*', '', txt)
    m = re.search(r'add_executable\s*\(\s*jsonstroll\b([^)]*)\)', txt)
    if not m:
        raise AnalysisBroken('no jsonstroll target in CMakeLists.txt')
    srcs = [s for s in m.group(1).split() if s.endswith('.cpp')]
    out = []
    for s in srcs:
        p = os.path.join(REPO, s)
        if not os.path.exists(p):
            raise AnalysisBroken('source %s missing' % s)
        out.append(p)
    return out


def source_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/**/*', recursive=True) +
                   glob.glob(REPO + '/include/**/*', recursive=True) +
                   [REPO + '/CMakeLists.txt', os.path.abspath(__file__)])
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(REPO.encode())
    return h.hexdigest()[:24]


CXX = ['-std=gnu++17', '-I' + REPO + '/include', '-include', 'jsonContainer.hh', '-g', '-O1',
       '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-emit-llvm', '-c',
       '-fwhole-program-vtables', '-flto', '-fvisibility=hidden', '-w']


def _compile(args):
    src, out = args
    r = subprocess.run([tool('clang++')] + CXX + ['-o', out, src],
                       capture_output=True, text=True, timeout=300)
    return src, r.returncode, r.stderr


def prune(key):
    """keep the cache small"""
    old = []
    for f in glob.glob(CACHE + '/*.ll'):
        try:
            old.append((os.path.getmtime(f), f))
        except OSError:
            pass                        # another run was faster
    for t, f in sorted(old)[:-8]:
        if not os.path.basename(f).startswith(key) and t < time.time() - 120:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(kind='ssa'):
    """Return the path of the textual IR.  kind: 'ssa' (after sroa) or 'raw' (allocas kept)."""
    key = source_hash()
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, '%s.%s.ll' % (key, kind))
    if os.path.exists(final) and os.environ.get('JSA_NOCACHE') is None:
        return final
    tmp = tempfile.mkdtemp(prefix='jsa', dir=CACHE)
    try:
        jobs = [(s, os.path.join(tmp, 'u%d.bc' % i)) for i, s in enumerate(main_sources())]
        with ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(_compile, jobs):
                if rc:
                    raise AnalysisBroken('clang++ failed on %s:\n%s' % (src, err[-2000:]))
        allbc = os.path.join(tmp, 'all.bc')
        subprocess.run([tool('llvm-link')] + [j[1] for j in jobs] + ['-o', allbc], check=True,
                       timeout=300)
        for k, passes in (('raw', 'internalize,globaldce'),
                          ('ssa', 'internalize,globaldce,function(sroa),globaldce')):
            o = os.path.join(tmp, k + '.ll')
            subprocess.run([tool('opt'), '-passes=' + passes, '-internalize-public-api-list=main',
                            allbc, '-S', '-o', o], check=True, timeout=300)
            os.replace(o, os.path.join(CACHE, '%s.%s.ll' % (key, k)))
        prune(key)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return final


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'ssa'))
