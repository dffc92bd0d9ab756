#!/usr/bin/env python3
"""Build /repo's current sources for the checks, out of tree, in /verif/build.

usage: build.py VARIANT [TARGET...]
  VARIANT: asan  - clang, ASan+UBSan, for harness binaries and the CLI
           fuzz  - the same plus libFuzzer coverage instrumentation
           plain - clang -O1, no sanitizers
  TARGET:  harness names (a src/<name>.cc file list in TARGETS) or 'parted', 'partprobe'
prints the directory that holds the products.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BASE = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CC, CXX = 'clang', 'clang++'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    'asan': ['-O1', '-gline-tables-only'] + SAN,
    'fuzz': ['-O1', '-gline-tables-only'] + SAN + ['-fsanitize=fuzzer-no-link'],
    'plain': ['-O1', '-g1'],
}
WRAP = ['open', 'close', 'read', 'write', 'lseek', 'fsync', 'ioctl', 'stat', 'fopen', 'opendir', 'readdir', 'closedir',
        'usleep', 'canonicalize_file_name', 'blkid_new_probe', 'blkid_free_probe', 'blkid_probe_set_device',
        'blkid_probe_get_topology', 'blkid_topology_get_alignment_offset', 'blkid_topology_get_minimum_io_size',
        'blkid_topology_get_optimal_io_size', 'blkid_topology_get_physical_sector_size']
WRAPFLAGS = ['-Wl,--wrap=' + w for w in WRAP]
# harness -> (sources, extra flags, extra link flags, extra lib groups)
TARGETS = {
    'core': (['core.cc', 'parsers.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], []),
    'formats': (['formats.cc', 'parsers.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], []),
    'pure': (['pure.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], []),
    'hostile': (['hostile.cc', 'parsers.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], ['fsr']),
    'cli': (['cli.cc', 'world.cc', 'parsers.cc', 'pbt.cc', 'memdev.cc'], [], [], ['cli']),
    'linuxio': (['linuxio.cc', 'sim.cc', 'pbt.cc', 'memdev.cc'], [], WRAPFLAGS, []),
    'kernel': (['kernel.cc', 'sim.cc', 'pbt.cc', 'memdev.cc'], [], WRAPFLAGS, ['pprobe_h']),
    'fsprobe': (['fsprobe.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], []),
    'fsresize': (['fsresize.cc', 'fatimg.cc', 'world.cc', 'pbt.cc', 'memdev.cc'], [], [], ['fsr']),
}
LIBS = ['-lblkid', '-luuid', '-ldevmapper', '-lreadline', '-ltinfo', '-lpthread']


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd)[:400], r.stdout[-4000:]))
        sys.exit(3)
    return r.stdout


def repo_sources():
    L = REPO + '/libparted'
    skip = {'dasd.c', 'fdasd.c', 'vtoc.c', 'pt-limit.c'}
    lib = glob.glob(L + '/*.c') + glob.glob(L + '/cs/*.c') + [L + '/arch/linux.c']
    lib += [f for f in glob.glob(L + '/labels/*.c') if os.path.basename(f) not in skip]
    fsr = glob.glob(L + '/fs/r/*.c') + glob.glob(L + '/fs/r/*/*.c')
    lib += [f for f in glob.glob(L + '/fs/*/*.c') if f not in fsr]
    fsr = [f for f in fsr if not f.endswith('/efs.c')]
    cli = glob.glob(REPO + '/parted/*.c')
    cli = [f for f in cli if os.path.basename(f) != 'version.c']
    return sorted(lib), sorted(fsr), sorted(cli), [REPO + '/partprobe/partprobe.c']


def tree_hash(variant):
    h = hashlib.sha256()
    for top in ('libparted', 'include', 'parted', 'partprobe'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            if os.path.basename(d) in ('tests', '.deps', '.libs'):
                ds[:] = []
                continue
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.gperf')) and f != 'pt-limit.c':
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read())
    h.update(open(__file__, 'rb').read() + variant.encode())
    return h.hexdigest()[:16]


def ensure_config():
    need = [REPO + '/_build/lib/config.h', REPO + '/_build/lib/.libs/libgnulib.a']
    if not all(map(os.path.exists, need)):
        sh(['bash', '/opt/vp/build.sh'])


def gen_headers(out):
    os.makedirs(out + '/include/parted', exist_ok=True)
    os.makedirs(out + '/gen', exist_ok=True)
    hash_if = '\n#if __GNUC__ > 2 || (__GNUC__ == 2 && __GNUC_MINOR__ >= 96)\n'
    for f in glob.glob(REPO + '/include/parted/*.in.h'):
        s = []
        for line in open(f):
            line = re.sub(r' _GL_ATTRIBUTE_CONST\b', lambda m: hash_if + '  __attribute ((__const__))\n#endif\n', line, count=1)
            line = re.sub(r' _GL_ATTRIBUTE_PURE\b', lambda m: hash_if + '  __attribute ((__pure__))\n#endif\n', line, count=1)
            s.append(line)
        open(out + '/include/parted/' + os.path.basename(f).replace('.in.h', '.h'), 'w').write(''.join(s))
    g = sh(['gperf', '-C', '-N', 'pt_limit_lookup', '-n', '-t', '-s', '6', '-k', '*',
            '--language=ANSI-C', REPO + '/libparted/labels/pt-limit.gperf'])
    o = []
    for line in g.splitlines(True):
        if '__GNUC_STDC_INLINE__' in line:
            o.append('static\n')
        o.append(line)
    open(out + '/gen/pt-limit.c', 'w').write(''.join(o))
    open(out + '/gen/version.c', 'w').write('#include <config.h>\nchar const *Version = "3.6.1";\n')
    open(out + '/gen/version.h', 'w').write('extern char const *Version;\n')


def main():
    variant, targets = sys.argv[1], sys.argv[2:]
    os.makedirs(BASE, exist_ok=True)
    lock = open(BASE + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ensure_config()
    out = os.path.join(BASE, '%s-%s' % (variant, tree_hash(variant)))
    os.makedirs(out + '/obj', exist_ok=True)
    os.utime(out)
    # keep the newest trees only
    olds = sorted((d for d in glob.glob(BASE + '/*-*') if os.path.isdir(d)), key=os.path.getmtime)
    for d in olds[:-4]:
        if d != out:
            shutil.rmtree(d, ignore_errors=True)
    flags = VARIANTS[variant]
    inc = ['-I' + out + '/gen', '-I' + out + '/include', '-I' + REPO + '/_build/lib', '-I' + REPO + '/lib',
           '-I' + REPO + '/include', '-I' + REPO + '/libparted', '-I' + REPO + '/libparted/labels']
    defs = ['-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-DLOCALEDIR="/usr/share/locale"', '-w']
    if not os.path.exists(out + '/gen/version.h'):
        gen_headers(out)
    lib, fsr, cli, pprobe = repo_sources()
    jobs = []

    def cobj(src, tag='', ex=[]):
        o = out + '/obj/' + os.path.relpath(src, REPO).replace('/', '_')[:-2] + '.o' if src.startswith(REPO) \
            else out + '/obj/' + os.path.basename(src)[:-2] + '.o'
        o = o[:-2] + tag + '.o'
        if not os.path.exists(o):
            # own directory first for "..." includes of generated headers
            jobs.append([CC, '-std=gnu11'] + flags + defs + ex + inc + ['-c', src, '-o', o + '.tmp', ';mv', o])
        return o

    groups = {'lib': [cobj(s) for s in lib], 'fsr': [], 'cli': []}
    want_cli = 'parted' in targets or 'cli' in targets
    if want_cli:
        groups['cli'] = [cobj(s) for s in cli] + [cobj(out + '/gen/version.c')]
    if 'partprobe' in targets:
        groups['pprobe'] = [cobj(s) for s in pprobe] + [cobj(out + '/gen/version.c')]
    if 'kernel' in targets:
        groups['pprobe_h'] = [cobj(s, '_h', ['-Dmain=partprobe_main']) for s in pprobe] + [cobj(out + '/gen/version.c')]
    for t in targets:
        if t in TARGETS and 'fsr' in TARGETS[t][3]:
            groups['fsr'] = [cobj(s) for s in fsr]
    hobjs = {}
    hdrs = sorted(glob.glob(VERIF + '/src/*.h'))
    hh = hashlib.sha256(b''.join(open(f, 'rb').read() for f in hdrs)).hexdigest()
    for t in targets:
        if t not in TARGETS:
            continue
        srcs, ex, lex, libs = TARGETS[t]
        hobjs[t] = []
        for s in srcs:
            p = VERIF + '/src/' + s
            k = hashlib.sha256((hh + ' '.join(ex)).encode() + open(p, 'rb').read()).hexdigest()[:12]
            o = out + '/obj/H_%s_%s.o' % (s.split('.')[0], k)
            if not os.path.exists(o) and not any(j[-1] == o for j in jobs):
                for old in glob.glob(out + '/obj/H_%s_*.o' % s.split('.')[0]):
                    os.unlink(old)
                cfl = [x for x in flags if x != '-fsanitize=fuzzer-no-link']
                jobs.append([CXX, '-std=c++20'] + cfl + ex + ['-D_GNU_SOURCE', '-w'] +
                            ['-I' + out + '/include', '-I' + REPO + '/libparted', '-I' + VERIF + '/src',
                             '-c', p, '-o', o + '.tmp', ';mv', o])
            hobjs[t].append(o)

    def run(j):
        i = j.index(';mv')
        sh(j[:i])
        os.rename(j[i + 1] + '.tmp', j[i + 1])

    jobs.sort(key=lambda j: 0 if CXX in j[0] else 1)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()
    gl = REPO + '/_build/lib/.libs/libgnulib.a'

    def link(name, objs, extra):
        o = out + '/' + name
        if os.path.exists(o) and all(os.path.getmtime(x) <= os.path.getmtime(o) for x in objs):
            return
        sh([CXX] + flags + ['-o', o + '.tmp'] + objs + extra + [gl] + LIBS)
        os.rename(o + '.tmp', o)

    def partial(g, objs):
        if g == 'pprobe_h':
            return objs
        if g == 'cli':
            outs = []
            for x in objs:
                o = x[:-2] + '.nm'
                if not (os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(x)):
                    sh(['objcopy', '--redefine-sym', 'main=parted_main', x, o])
                outs.append(o)
            return outs
        # libparted-fs-resize is a library of its own, with private copies of some of libparted's
        # functions: rename everything it does not export
        outs = [x[:-2] + '.ns' for x in objs]
        if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(x) for o, x in zip(outs, objs)):
            return outs
        names = [l.strip().rstrip(';') for l in open(REPO + '/libparted/fs/fsresize.sym')]
        keep = {n for n in names if re.fullmatch(r'\w+', n)}
        syms = set()
        for l in sh(['nm', '-g', '--defined-only'] + objs).splitlines():
            f = l.split()
            if len(f) == 3 and f[2] not in keep:
                syms.add(f[2])
        open(out + '/' + g + '.syms', 'w').write(''.join('%s fsr_%s\n' % (n, n) for n in sorted(syms)))
        for o, x in zip(outs, objs):
            sh(['objcopy', '--redefine-syms=' + out + '/' + g + '.syms', x, o])
        return outs

    for t in targets:
        if t in TARGETS:
            srcs, ex, lex, libs = TARGETS[t]
            objs = hobjs[t] + groups['lib']
            for g in libs:
                objs = objs + partial(g, groups[g])
            lx = list(lex)
            if variant == 'fuzz':
                lx.append('-fsanitize=fuzzer')
            link(t, objs, lx)
        elif t == 'parted':
            link('parted', groups['cli'] + groups['lib'], [])
        elif t == 'partprobe':
            link('partprobe', groups['pprobe'] + groups['lib'], [])
    print(out)


main()
