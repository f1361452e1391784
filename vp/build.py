"""Builds /repo's working tree out of tree (never touching /repo) and the preload shim.

A build lands in /verif/.build/<hash of the sources>; the same tree is not rebuilt.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))

FLAGS = {
    'plain': '-g0 -O0 -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0',
    # the same program under ThreadSanitizer / AddressSanitizer
    'tsan': '-g1 -O1 -w -fsanitize=thread -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0',
    'asan': '-g1 -O1 -w -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0',
}


def tree_hash():
    h = hashlib.sha256()
    roots = ['daemon', 'lib', 'posix']
    files = ['configure', 'configure.ac', 'Makefile.am', 'Makefile.in', 'config.h.in', 'aclocal.m4']
    for r in roots:
        for d, ds, fs in os.walk(os.path.join(REPO, r)):
            ds.sort()
            files += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs)]
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(kind='plain'):
    """returns (nzbget binary, shim library, build directory)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shim = build_shim()
        d = os.path.join(BUILD, tree_hash() + '-' + kind)
        done = os.path.join(d, '.done')
        if not os.path.exists(done):
            for old in sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)
                               if os.path.isdir(os.path.join(BUILD, x))), key=os.path.getmtime)[:-8]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
                   'HOME': os.environ.get('HOME', '/root'), 'LC_ALL': 'C.UTF-8', 'CC': 'gcc', 'CXX': 'g++'}
            log = open(os.path.join(d, 'build.log'), 'w')
            r = subprocess.run(['bash', os.path.join(REPO, 'configure'), '--with-tlslib=GnuTLS', 'CC=gcc', 'CXX=g++',
                                'CXXFLAGS=' + FLAGS[kind]], cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                r = subprocess.run(['make', '-j8'], cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT)
            if r.returncode:
                log.close()
                sys.stderr.write(open(os.path.join(d, 'build.log')).read()[-4000:])
                raise BuildError('build of %s failed' % REPO)
            open(done, 'w').close()
        os.utime(d)
        return os.path.join(d, 'nzbget'), shim, d


def build_shim():
    src = os.path.join(VERIF, 'shim', 'shim.c')
    out = os.path.join(BUILD, 'shim-%s.so' % hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12])
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'plain'), '%.1fs' % (time.time() - t))
