"""Builds the exporter and exports the resolved program of /repo's working tree.

Nothing of /repo is executed: the sources are parsed and type-checked by clang
(the same clang 17 and flags that /opt/vp/build.sh uses, taken from the CMake
files' include layout) and every function body is serialised to JSON.
"""
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DREDD_SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-17'
CACHE = os.path.join(VERIF, '.cache')
CXX = 'clang++-17'
DEFS = ['-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
        '-D__STDC_LIMIT_MACROS']


class AnalysisError(Exception):
    """The analysis could not be carried out (not a verdict)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError('command failed (%d): %s\n%s' %
                            (p.returncode, ' '.join(cmd)[:400], p.stdout[-3000:]))
    return p.stdout


def build_exporter():
    src = os.path.join(VERIF, 'exporter', 'export.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'exporter-' + h)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(CACHE, 'exporter-*')):
        os.remove(old)
    tmp = tempfile.mkdtemp(prefix='dredd-sa-')
    try:
        obj = os.path.join(tmp, 'e.o')
        run([CXX, '-std=c++17', '-fno-rtti', '-O1', '-w', '-isystem', LLVM + '/include',
             *DEFS, '-c', src, '-o', obj])
        run([CXX, obj, '-o', exe + '.tmp', LLVM + '/lib/libclang-cpp.so.17',
             '-L' + LLVM + '/lib', '-lLLVM-17'])
        os.replace(exe + '.tmp', exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def sources():
    """All translation units of the two shipped targets (library and tool)."""
    out = []
    for d in ('src/libdredd', 'src/dredd'):
        for p in sorted(glob.glob(os.path.join(REPO, d, '**', '*.cc'), recursive=True)):
            out.append(p)
    if not out:
        raise AnalysisError('no sources found under %s/src' % REPO)
    return out


def include_flags(gen):
    inc = ['-I' + os.path.join(REPO, 'src/libdredd/include_private/include'),
           '-I' + os.path.join(REPO, 'src/libdredd/include'),
           '-I' + os.path.join(REPO, 'src/dredd/include_private/include')]
    for d in ('src/libdredd', 'src/dredd'):
        for extra in sorted(glob.glob(os.path.join(REPO, d, '*'))):
            if os.path.isdir(extra) and ('-I' + extra) not in inc and 'include' in os.path.basename(extra):
                if '-I' + os.path.join(extra, 'include') not in inc:
                    inc.append('-I' + extra)
    return inc + ['-isystem', LLVM + '/include', '-isystem', gen]


def tree_hash():
    h = hashlib.sha256()
    pats = ['src/libdredd/**/*', 'src/dredd/**/*']
    fs = set()
    for p in pats:
        fs.update(f for f in glob.glob(os.path.join(REPO, p), recursive=True)
                  if os.path.isfile(f))
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    for f in [os.path.join(VERIF, 'exporter', 'export.cc'), os.path.abspath(__file__)]:
        h.update(open(f, 'rb').read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def gen_proto(gen):
    pd = os.path.join(REPO, 'src/libdredd/include/libdredd/protobufs')
    out = os.path.join(gen, 'libdredd/protobufs')
    os.makedirs(out, exist_ok=True)
    protos = sorted(glob.glob(os.path.join(pd, '*.proto')))
    if not protos:
        raise AnalysisError('no .proto file found in ' + pd)
    run(['protoc', '-I=' + pd, '--cpp_out=' + out, *protos])


def clang_flags(gen):
    return ['-xc++', '-std=c++20', '-fno-rtti', '-w', *DEFS, *include_flags(gen),
            '-resource-dir', LLVM + '/lib/clang/17']


def export(extra=()):
    """Returns the merged program (dict). Cached by content hash."""
    key = tree_hash() + ''.join(extra).replace('-', '')
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, 'program-%s.pickle' % key)
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    exe = build_exporter()
    tmp = tempfile.mkdtemp(prefix='dredd-sa-')
    try:
        gen = os.path.join(tmp, 'gen')
        gen_proto(gen)
        srcs = sources()

        def one(i_src):
            i, src = i_src
            out = os.path.join(tmp, 'o%d.json' % i)
            run([exe, out, REPO + '/src/', src, '--', *clang_flags(gen), *extra], cwd=tmp)
            with open(out) as f:
                return json.load(f)
        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(one, enumerate(srcs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog = {k: {} for k in ('types', 'callees', 'enums', 'records', 'functions', 'globals')}
    for p in parts:
        for k in prog:
            for n, v in p[k].items():
                if n not in prog[k] or (not prog[k][n] and v):
                    prog[k][n] = v
                elif k == 'records' and v and v.get('bases') is not None and \
                        (prog[k][n] or {}).get('bases') is None:
                    prog[k][n] = v
    prog['sources'] = srcs
    for old in glob.glob(os.path.join(CACHE, 'program-*.pickle')):
        try:
            if key[:24] not in old:
                os.remove(old)
        except OSError:
            pass
    with open(pk + '.tmp%d' % os.getpid(), 'wb') as f:
        pickle.dump(prog, f)
    os.replace(pk + '.tmp%d' % os.getpid(), pk)
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    p = export()
    print('exported: %d functions, %d callees, %d records in %.1fs' %
          (len(p['functions']), len(p['callees']), len(p['records']), time.time() - t))
    if len(sys.argv) > 1:
        for k in sorted(p['functions']):
            if sys.argv[1] in k:
                print(k)
                if len(sys.argv) > 2:
                    print(json.dumps(p['functions'][k], indent=1))
