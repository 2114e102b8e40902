"""Builds the extractor when needed, runs it on all translation units of /repo/cpp and loads the resulting facts."""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = os.path.join(REPO, 'cpp', 'subprojects')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
SUBPROJECTS = ('common', 'boosting', 'seco')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis could not be carried out (neither a pass nor a violation)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def build_extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    with open(src, 'rb') as f:
        digest = _sha(f.read())[:16]
    exe = os.path.join(BUILD, 'extract-' + digest)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisError('building the extractor failed:\n' + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


def source_files(sub):
    """The translation units of a sub-project, as listed in its meson.build."""
    base = os.path.join(CPP, sub)
    with open(os.path.join(base, 'meson.build')) as f:
        text = f.read()
    m = re.search(r'source_files\s*=\s*\[(.*?)\]', text, re.S)
    if not m:
        raise AnalysisError('no source_files in ' + sub + '/meson.build')
    files = re.findall(r"'([^']+)'", m.group(1))
    return [os.path.join(base, f) for f in files]


def all_cpp_files():
    res = []
    for sub in SUBPROJECTS:
        for d in ('include', 'src'):
            for root, _, names in os.walk(os.path.join(CPP, sub, d)):
                res += [os.path.join(root, n) for n in names]
        res.append(os.path.join(CPP, sub, 'meson.build'))
    return sorted(res)


def write_configs():
    dirs = {}
    for sub in SUBPROJECTS:
        d = os.path.join(BUILD, 'gen', sub)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(CPP, sub, 'include', 'mlrl', sub, 'config.hpp.in')) as f:
            text = f.read()
        text = re.sub(r'@(multi_threading|gpu)_support_enabled@', '1', text)
        text = re.sub(r'@\w+@', 'x', text)
        path = os.path.join(d, 'config.hpp')
        old = None
        if os.path.exists(path):
            with open(path) as f:
                old = f.read()
        if old != text:
            with open(path, 'w') as f:
                f.write(text)
        dirs[sub] = d
    return dirs


def clang_args(sub, gen):
    args = ['-std=c++20', '-fopenmp', '-w', '-D_GLIBCXX_ASSERTIONS=1', '-DMULTI_THREADING_SUPPORT_ENABLED=1', '-fparse-all-comments',
            '-resource-dir', LLVM + '/lib/clang/18', '-I' + gen[sub], '-I' + gen['common'],
            '-I' + os.path.join(CPP, sub, 'include'), '-I' + os.path.join(CPP, 'common', 'include'),
            '-I' + os.path.join(CPP, sub, 'src'), '-I' + os.path.join(VERIF, 'tool', 'stub')]
    return args


def _run(job):
    exe, out, files, args = job
    r = subprocess.run([exe, CPP + '/', out] + files + ['--'] + args, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def extract():
    """Runs the extractor on all translation units of the current tree. Returns the paths of the fact files."""
    exe = build_extractor()
    gen = write_configs()
    h = [os.path.basename(exe)]
    for f in all_cpp_files():
        with open(f, 'rb') as fh:
            h.append(f)
            h.append(hashlib.sha256(fh.read()).hexdigest())
    key = _sha(*h)[:24]
    outdir = os.path.join(BUILD, 'facts-' + key)
    done = os.path.join(outdir, 'done')
    if os.path.exists(done):
        return outdir
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):  # keep disk usage bounded
        if old.startswith('facts-') and old != 'facts-' + key:
            subprocess.run(['rm', '-rf', os.path.join(BUILD, old)])
    tmpdir = tempfile.mkdtemp(prefix='tmpfacts', dir=BUILD)
    jobs = []
    ncpu = os.cpu_count() or 8
    for sub in SUBPROJECTS:
        files = source_files(sub)
        n = max(1, min(len(files), ncpu * 3 if sub != 'seco' else ncpu))
        for i in range(n):
            chunk = files[i::n]
            if chunk:
                jobs.append((exe, os.path.join(tmpdir, '%s-%d.jsonl' % (sub, i)), chunk, clang_args(sub, gen)))
    with concurrent.futures.ThreadPoolExecutor(ncpu) as ex:
        results = list(ex.map(_run, jobs))
    for (rc, text), job in zip(results, jobs):
        if rc != 0:
            raise AnalysisError('extraction failed for %s:\n%s' % (job[2], text[-3000:]))
    with open(os.path.join(tmpdir, 'done'), 'w') as f:
        f.write('ok')
    if os.path.exists(outdir):
        subprocess.run(['rm', '-rf', tmpdir])
    else:
        os.replace(tmpdir, outdir)
    return outdir


if __name__ == '__main__':
    print(extract())
