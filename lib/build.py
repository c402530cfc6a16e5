"""Compile harness text together with /repo's current headers to LLVM IR."""
import subprocess, os, tempfile, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang++'
if not os.path.exists(CLANG): CLANG = 'clang++'
FLAGS = ['-std=c++23', '-I' + REPO + '/src', '-I' + HERE + '/harness']
IRFLAGS = ['-O0', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-discard-value-names', '-S', '-emit-llvm', '-w']

class BuildError(Exception): pass

def ir(text, workdir, name):
    src = os.path.join(workdir, name + '.cpp'); out = os.path.join(workdir, name + '.ll')
    open(src, 'w').write(text)
    r = subprocess.run([CLANG] + FLAGS + IRFLAGS + [src, '-o', out], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return open(out).read()
