"""Compile proof translation units from /repo's working tree to LLVM IR."""
import subprocess, os, hashlib, tempfile, shutil, atexit
CLANG = '/usr/lib/llvm-18/bin/clang++'
REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_dir = None
def workdir():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vc-icl-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
    return _dir
class BuildError(Exception): pass
def ll(src, flags):
    key = hashlib.sha1((src + ' '.join(flags)).encode()).hexdigest()[:12]
    out = os.path.join(workdir(), os.path.basename(src) + '.' + key + '.ll')
    if os.path.exists(out): return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [CLANG, '-std=c++17', '-w', '-O0', '-fno-discard-value-names', '-I' + REPO + '/include'] + list(flags) + ['-S', '-emit-llvm', '-o', tmp, os.path.join(HERE, 'tu', src)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[:3000])
    os.rename(tmp, out)
    return out
_nat = {}
def native(src, flags):
    key = hashlib.sha1((src + ' '.join(flags)).encode()).hexdigest()[:12]
    out = os.path.join(workdir(), src + '.' + key)
    if os.path.exists(out): return out
    cmd = [CLANG, '-std=c++17', '-w', '-O1', '-I' + REPO + '/include'] + list(flags) + ['-o', out + '.tmp%d' % os.getpid(), os.path.join(HERE, 'native', src)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr[:3000])
    os.rename(out + '.tmp%d' % os.getpid(), out)
    return out
