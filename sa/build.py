"""Witness generation, parsing (tool/astdump) and caching."""
import os, subprocess, hashlib, sys, json, time, fcntl, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
REPO = '/repo'
L = '/usr/include/boost'
CXX = '/usr/include/c++/13'
PRE = '/repo/include/:%s/build/gen/:%s/witness/' % (VERIF, VERIF)
LAZY = ':'.join([L + '/fusion/', L + '/parameter/', L + '/mpl/', L + '/core/', L + '/utility/', L + '/iterator/', L + '/range/', L + '/tuple/', L + '/ref', L + '/bind/', L + '/serialization/split_free.hpp', L + '/detail/',
                 CXX + '/bits/stl_iterator.h', CXX + '/backward/binders.h', CXX + '/bits/stl_function.h', CXX + '/bits/refwrap.h', CXX + '/bits/stl_numeric.h', CXX + '/bits/stl_algo.h', CXX + '/complex'])
FLAGS = ['-std=gnu++17', '-DNDEBUG', '-I/repo/include', '-I' + VERIF + '/witness', '-w', '-ferror-limit=0', '-resource-dir=/usr/lib/llvm-18/lib/clang/18']


class BrokenAnalysis(Exception):
    pass


def ensure_tool():
    os.makedirs(os.path.join(BUILD, 'gen'), exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astdump-' + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + '.tmp%d' % os.getpid()
        cmd = ['/usr/bin/clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', src, '-o', tmp,
               '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BrokenAnalysis('cannot build the extractor: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


_rh = []


def wit_hash():
    d = os.path.join(VERIF, 'witness')
    return ''.join(hashlib.sha256(open(os.path.join(d, f), 'rb').read()).hexdigest() for f in sorted(os.listdir(d)))


def repo_hash():
    if _rh:
        return _rh[0]
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(REPO + '/include')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, 'rb').read())
    for f in sorted(os.listdir(VERIF + '/witness')):
        h.update(open(os.path.join(VERIF, 'witness', f), 'rb').read())
    _rh.append(h.hexdigest())
    return _rh[0]


def parse(name, source, defs=()):
    """-> (json path or None, error text)"""
    exe = ensure_tool()
    key = hashlib.sha256((repo_hash() + wit_hash() + exe + LAZY + source + ' '.join(defs)).encode()).hexdigest()[:20]
    gen = os.path.join(BUILD, 'gen')
    out = os.path.join(gen, '%s-%s.json' % (name, key))
    err = out[:-5] + '.err'
    if os.path.exists(out):
        return out, ''
    if os.path.exists(err):
        return None, open(err).read()
    src = os.path.join(gen, '%s-%s.cpp' % (name, key))
    with open(src, 'w') as f:
        f.write(source)
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run([exe, tmp, PRE + ';' + LAZY, '--', src] + FLAGS + list(defs), capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        if not first_errors(r.stderr):
            raise BrokenAnalysis('the extractor failed without a diagnostic: ' + r.stderr[-1000:])
        with open(err, 'w') as f:
            f.write(r.stderr)
        return None, r.stderr
    os.rename(tmp, out)
    return out, ''


def first_errors(text, n=3):
    out = []
    for l in text.splitlines():
        if ' error: ' in l or 'fatal error' in l:
            out.append(re.sub(r'boost::accumulators::', '', l)[:300])
            if len(out) >= n:
                break
    return out
