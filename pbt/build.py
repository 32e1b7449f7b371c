"""Builds bsdconv from a source tree (default /repo's working tree) into a content-addressed
directory: <cache>/<hash>/{asan,plain}/... laid out the way the Makefile lays out build/.

asan : library, modules, CLI tools and the request server, clang + AddressSanitizer
plain: library, modules and CLI tools, gcc -O2 as shipped

The tables are compiled by the tree's own bsdconv-mktable.  Nothing is written in the source tree.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBT_REPO', '/repo')
CACHE = os.environ.get('PBT_CACHE', os.path.join(os.path.dirname(HERE), 'build'))


class BuildError(Exception):
    pass


def source_files(repo):
    out = ['Makefile']
    for top in ('src', 'modules'):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return out


def tree_hash(repo):
    h = hashlib.sha256()
    for f in source_files(repo):
        h.update(f.encode() + b'\0')
        with open(os.path.join(repo, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ('server.c', 'build.py', 'fuzz_c03.cc'):
        p = os.path.join(HERE, f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def todo(repo):
    mk = open(os.path.join(repo, 'Makefile'), encoding='utf-8').read()
    codecs, filters, scorers = [], [], []
    for var, val in re.findall(r'^TODO_(\w+)\+=(\S+)\s*$', mk, re.M):
        if var.startswith('CODECS'):
            codecs.append(val)
        elif var == 'FILTERS':
            filters.append(val)
        elif var == 'SCORERS':
            scorers.append(val)
    return codecs, filters, scorers


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-4000:]))


def flavour(src, out, kind, pool):
    """src: private copy of the tree; out: build dir to create."""
    codecs, filters, scorers = todo(src)
    for d in ('bin', 'lib', 'include', *('share/bsdconv/' + s for s in ('filter', 'scorer', 'from', 'inter', 'to'))):
        os.makedirs(os.path.join(out, d), exist_ok=True)
    common = ['-D_BSDCONV_INTERNAL', '-DPREFIX="/usr/local"', '-DBSDCONV_PATH="/usr/local"', '-w']
    if kind == 'asan':
        cc = ['clang', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds'] + common
    elif kind == 'fuzz':
        cc = ['clang', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,fuzzer-no-link', '-fno-sanitize-recover=bounds'] + common
    elif kind == 'msan':
        cc = ['clang', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=memory'] + common
    else:
        cc = ['gcc', '-O2'] + common
    L = os.path.join(out, 'lib')
    shutil.copy(os.path.join(src, 'src/bsdconv.h'), os.path.join(out, 'include'))
    for t in ('from', 'inter', 'to', 'filter'):
        a = os.path.join(src, 'modules', t, 'alias')
        if os.path.exists(a):
            shutil.copy(a, os.path.join(out, 'share/bsdconv', t, 'alias'))
    mkt = os.path.join(out, 'bin/bsdconv-mktable')
    jobs = []
    jobs.append(pool.submit(sh, ['gcc', '-O2'] + common + ['-DUSE_FMALLOC', 'src/libfmalloc.c', 'src/bsdconv-mktable.c', '-o', mkt], src))
    jobs.append(pool.submit(sh, cc + ['src/libbsdconv.c', '-fPIC', '-shared', '-o', os.path.join(L, 'libbsdconv.so.11'), '-ldl'], src))
    for j in jobs:
        j.result()
    os.symlink('libbsdconv.so.11', os.path.join(L, 'libbsdconv.so'))
    jobs = []
    rp = '-Wl,-rpath,' + L
    for t in ('bsdconv', 'bsdconv-man', 'bsdconv-completion'):
        jobs.append(pool.submit(sh, cc + ['src/%s.c' % t, '-L' + L, rp, '-o', os.path.join(out, 'bin', t), '-lbsdconv', '-ldl'], src))
    if kind in ('asan', 'msan', 'plain'):
        jobs.append(pool.submit(sh, cc + ['-Isrc', os.path.join(HERE, 'server.c'), '-rdynamic', '-L' + L, rp, '-o', os.path.join(out, 'bin', 'server'), '-lbsdconv', '-ldl'], src))
    if kind == 'fuzz':
        jobs.append(pool.submit(sh, ['clang++', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,fuzzer'] + common + ['-Isrc', os.path.join(HERE, 'fuzz_c03.cc'), '-rdynamic', '-L' + L, rp, '-o', os.path.join(out, 'bin', 'fuzz'), '-lbsdconv', '-ldl'], src))
    so = ['filter/' + f for f in filters] + ['scorer/' + s for s in scorers] + [c for c in codecs if os.path.exists(os.path.join(src, 'modules', c + '.c'))]
    for m in so:
        jobs.append(pool.submit(sh, cc + ['modules/%s.c' % m, '-L' + L, '-fPIC', '-shared', '-o', os.path.join(out, 'share/bsdconv', m + '.so'), '-lbsdconv', '-ldl'], src))
    for c in codecs:
        if kind != 'plain' and os.path.isdir(os.path.join(os.path.dirname(out), 'plain', 'share')):
            continue
        jobs.append(pool.submit(sh, [mkt, 'modules/%s.txt' % c, os.path.join(out, 'share/bsdconv', c)], src))
    for j in jobs:
        j.result()


def build(repo=None, kinds=('asan', 'plain'), quiet=False):
    """Returns the build root; it contains one directory per kind and src/ (the copy built from)."""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash(repo)
    root = os.path.join(CACHE, h)
    lock = open(os.path.join(CACHE, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        want = [k for k in kinds if not os.path.exists(os.path.join(root, k, '.done'))]
        if not want:
            return root
        t0 = time.time()
        # keep at most the current tree's products
        for d in os.listdir(CACHE):
            p = os.path.join(CACHE, d)
            if os.path.isdir(p) and d != h and re.fullmatch(r'[0-9a-f]{20}', d) and time.time() - os.path.getmtime(p) > float(os.environ.get('PBT_KEEP_S', '0')):
                shutil.rmtree(p, ignore_errors=True)
        src = os.path.join(root, 'src')
        if not os.path.isdir(os.path.join(src, 'src')):
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(src)
            for f in source_files(repo):
                os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
                shutil.copyfile(os.path.join(repo, f), os.path.join(src, f))
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            order = sorted(set(want) | {'plain'}, key=lambda k: k != 'plain')
            for k in order:
                out = os.path.join(root, k)
                if os.path.exists(os.path.join(out, '.done')):
                    continue
                shutil.rmtree(out, ignore_errors=True)
                flavour(src, out, k, pool)
                if k != 'plain':
                    # same tables: link them instead of compiling them twice
                    for c in todo(src)[0]:
                        a = os.path.join(root, 'plain/share/bsdconv', c)
                        b = os.path.join(out, 'share/bsdconv', c)
                        if not os.path.exists(b):
                            os.link(a, b)
                open(os.path.join(out, '.done'), 'w').close()
        if not quiet:
            print('built %s in %.1fs' % (root, time.time() - t0), file=sys.stderr)
        return root
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == '__main__':
    print(build(kinds=sys.argv[1:] or ('asan', 'plain')))
