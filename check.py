#!/usr/bin/env python3
"""Runs the check of one property against the current tree of /repo.

check.py ID              search for a violation (VERIF_SEED, VERIF_TIER are honoured)
check.py ID --replay F   run a saved replay file against the current tree
check.py --build         build everything the checks need
Exit: 0 held, 1 violated (with a VIOLATION line), 2 error of the check.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
HARNESS = os.path.join(HERE, 'harness')

COMMON = ['-std=c++17', '-pthread', '-fsigned-char', '-fno-omit-frame-pointer', '-g1', '-w',
          '-DNDEBUG', '-D_GNU_SOURCE=1', '-D_FILE_OFFSET_BITS=64', '-D_REENTRANT',
          '-D_TKRZW_COMP_ZLIB', '-D_TKRZW_COMP_ZSTD', '-D_TKRZW_COMP_LZ4', '-D_TKRZW_COMP_LZMA',
          '-DVERIF', '-I' + REPO, '-I' + HARNESS]
LIBS = ['-llzma', '-llz4', '-lzstd', '-lz', '-lrt', '-latomic', '-lpthread']


def version_flags():
    # As configure does; the values are numbers stored in file headers.
    pkg, lib = '1.0.32', '1.75.0'
    try:
        text = open(REPO + '/configure', errors='replace').read()
        m = re.search(r"^PACKAGE_VERSION='([0-9.]+)'", text, re.M)
        if m:
            pkg = m.group(1)
        v = [re.search(r'^%s=([0-9]+)' % n, text, re.M) for n in ('MYLIBVER', 'MYLIBREV', 'MYLIBFMT')]
        if not all(v):
            v = [re.search(r'^%s=([0-9]+)' % n, text, re.M) for n in ('MYLIBVER', 'MYLIBREV', 'MYFORMATVER')]
        if all(v):
            lib = '.'.join(x.group(1) for x in v)
    except OSError:
        pass
    return ['-D_TKRZW_PKG_VERSION="%s"' % pkg, '-D_TKRZW_LIB_VERSION="%s"' % lib]


COMMON += version_flags()
FLAVORS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-DVT_ASAN', '-fsanitize=address', '-fsanitize=bounds,null,return,unreachable,vla-bound',
             '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
}
CXX = 'clang++'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def header_digest():
    h = hashlib.sha256()
    for p in sorted(glob.glob(REPO + '/*.h')) + sorted(glob.glob(HARNESS + '/*.h')):
        h.update(os.path.basename(p).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


_inc_cache = {}


def includes(path, seen):
    """Transitive quoted includes found in /repo or the harness directory."""
    if path in seen:
        return
    seen.add(path)
    if path not in _inc_cache:
        text = open(path, errors='replace').read()
        _inc_cache[path] = (re.findall(r'^\s*#\s*include\s*"([^"]+)"', text, re.M), text)
    for name in _inc_cache[path][0]:
        for d in (os.path.dirname(path), REPO, HARNESS):
            p = os.path.join(d, name)
            if os.path.exists(p):
                includes(p, seen)
                break


def lib_sources():
    out = []
    for p in sorted(glob.glob(REPO + '/tkrzw_*.cc')):
        b = os.path.basename(p)
        if b.endswith('_test.cc'):
            continue
        text = open(p, errors='replace').read()
        if re.search(r'^int main\(', text, re.M):
            continue
        out.append(p)
    return out


def tool_sources():
    return [p for p in sorted(glob.glob(REPO + '/tkrzw_*.cc'))
            if not p.endswith('_test.cc') and
            re.search(r'^int main\(', open(p, errors='replace').read(), re.M)]


def compile_one(src, flags, objdir):
    seen = set()
    includes(src, seen)
    h = hashlib.sha256()
    h.update(' '.join(flags).encode())
    for p in sorted(seen):
        h.update(os.path.basename(p).encode() + b'\0' + _inc_cache[p][1].encode('utf8', 'replace') + b'\0')
    obj = os.path.join(objdir, os.path.basename(src) + '.' + h.hexdigest()[:20] + '.o')
    if os.path.exists(obj):
        return obj, None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh([CXX] + flags + ['-c', src, '-o', tmp])
    if r.returncode != 0:
        return obj, r.stdout
    for old in glob.glob(os.path.join(objdir, os.path.basename(src) + '.*.o')):
        try:
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
        except OSError:
            pass
    os.rename(tmp, obj)
    return obj, None


def build(targets):
    """targets: list of (flavor, name, sources, extra link flags, with_lib). Returns paths."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    _inc_cache.clear()
    jobs = {}
    lib = lib_sources()
    for flavor, name, srcs, link, _ in targets:
        objdir = os.path.join(BUILD, flavor)
        os.makedirs(objdir, exist_ok=True)
        flags = FLAVORS[flavor] + COMMON
        for s in srcs + lib:
            jobs[(flavor, s)] = (s, flags, objdir)
    order = sorted(jobs, key=lambda k: -os.path.getsize(k[1]))
    objs = {}
    with ThreadPoolExecutor(8) as ex:
        futs = {k: ex.submit(compile_one, *jobs[k]) for k in order}
        for k, f in futs.items():
            obj, err = f.result()
            if err:
                print('build error in %s (%s):\n%s' % (k[1], k[0], err[-4000:]))
                sys.exit(2)
            objs[k] = obj
    bins = []

    def link_one(t):
        flavor, name, srcs, link, _ = t
        ob = [objs[(flavor, s)] for s in srcs + lib]
        h = hashlib.sha256(' '.join(ob + link).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, flavor, 'bin-%s-%s' % (name, h))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, flavor, 'bin-%s-*' % name)):
                if time.time() - os.path.getmtime(old) > 1800:
                    os.unlink(old)
            tmp = out + '.tmp%d' % os.getpid()
            r = sh([CXX] + FLAVORS[flavor] + ['-fuse-ld=lld'] * HAVE_LLD + ['-o', tmp] + ob + link + LIBS)
            if r.returncode != 0:
                return out, r.stdout
            os.rename(tmp, out)
        return out, None
    with ThreadPoolExecutor(8) as ex:
        for out, err in ex.map(link_one, targets):
            if err:
                print('link error:\n' + err[-4000:])
                sys.exit(2)
            bins.append(out)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return bins


HAVE_LLD = 1 if any(os.path.exists(p) for p in ('/usr/bin/ld.lld', '/usr/bin/ld.lld-18')) else 0


def target_of(run):
    flavor = run.get('flavor', 'asan')
    name = run['bin']
    from checks import BINS
    spec = BINS[name]
    srcs = [os.path.join(HARNESS, 'vt.cc')] + [os.path.join(HARNESS, s) for s in spec['sources']]
    link = list(spec.get('link', []))
    return (flavor, name, srcs, link, True)


def tool_targets(names):
    """Command-line tools, linked against the library objects (no harness)."""
    return [('plain', 'tool-' + n, [os.path.join(REPO, n + '.cc')], [], True) for n in names]


def known_entries(prop):
    """Lines 'known: property=<id> suite=<s> cls=<c> replay=<file> | what fails'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) run=(\d+) replay=(\S+) \| (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append({'run': int(m.group(2)), 'replay': os.path.join(HERE, m.group(3)), 'text': m.group(4)})
    return out


ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0:hard_rss_limit_mb=6000'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:exitcode=66:second_deadlock_stack=1:history_size=4'
for k in ('LD_LIBRARY_PATH', 'LD_PRELOAD'):
    ENV.pop(k, None)


def main():
    from checks import CHECKS, BINS, TOOLS
    t0 = time.time()
    args = sys.argv[1:]
    if args and args[0] == '--build':
        ts = {}
        for spec in CHECKS.values():
            for run in spec['runs']:
                t = target_of(run)
                ts[(t[0], t[1])] = t
        targets = list(ts.values())
        if any(spec.get('tools') for spec in CHECKS.values()):
            targets += tool_targets(TOOLS)
        build(targets)
        print('built %d targets in %.1f s' % (len(targets), time.time() - t0))
        return 0
    prop = args[0]
    spec = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    thorough = tier == 'thorough'
    targets = [target_of(r) for r in spec['runs']]
    n = len(targets)
    if spec.get('tools'):
        targets = targets + tool_targets(TOOLS)
    bins = build(targets)
    tool_paths = bins[n:]
    bins = bins[:n]
    build_s = time.time() - t0
    env = dict(ENV)
    if spec.get('tools'):
        for name, path in zip(TOOLS, tool_paths):
            env['VT_TOOL_' + name] = path
    if len(args) >= 3 and args[1] == '--replay':
        for run, b in zip(spec['runs'], bins):
            suites = sh([b, 'list'], env=env).stdout.split()
            m = re.search(r'^suite (\S+)', open(args[2], errors='replace').read(), re.M)
            if m and m.group(1) in suites:
                return subprocess.run([b, 'replay', args[2], args[3] if len(args) > 3 else '3'], env=env).returncode
        print('no suite for this replay file')
        return 2
    replay_dir = os.path.join(HERE, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    workers = int(os.environ.get('VT_WORKERS', '8'))
    scale = float(os.environ.get('VT_SCALE', '1'))
    cov = {'evaluations': 0, 'cases': 0, 'distinct_nontrivial': 0, 'rule': spec['rule'], 'samples': [],
           'unreproduced': 0, 'slow': 0, 'labels': {}}
    failures = []
    for known in known_entries(prop):
        r = subprocess.run([bins[known['run']], 'replay', known['replay'], '3'], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            print('KNOWN-FINDING: property=%s %s' % (prop, known['text']), flush=True)
    for idx, (run, b) in enumerate(zip(spec['runs'], bins)):
        secs = run['thorough_secs' if thorough else 'secs'] * scale
        out = os.path.join(BUILD, 'result-%s-%d-%d.json' % (prop, idx, os.getpid()))
        cmd = [b, 'run', '--prop', prop, '--suites', run['suites'], '--seed', str(seed + 1000003 * idx),
               '--secs', str(secs), '--shrink', str(60 if thorough else 30),
               '--workers', str(run.get('workers', workers)),
               '--thorough', '1' if thorough else '0', '--out', out, '--replay-dir', replay_dir]
        key = 'thorough_cases' if thorough else 'cases'
        if run.get(key):
            cmd += ['--max-cases', str(run[key])]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            print('harness error (exit %s):\n%s' % (r.returncode, r.stdout.decode(errors='replace')[-4000:]))
            return 2
        res = json.load(open(out, errors='replace'))
        os.unlink(out)
        cov['evaluations'] += res['evals']
        cov['cases'] += res['cases']
        cov['distinct_nontrivial'] += res['distinct_nontrivial']
        cov['unreproduced'] += res['unreproduced']
        cov['slow'] += res['slow']
        for k, v in res['tags'].items():
            cov['labels'][k] = cov['labels'].get(k, 0) + v
        cov['samples'] += [s[:3000] for s in res['samples'][:3]]
        if os.environ.get('VT_VERBOSE'):
            sys.stderr.write(r.stdout.decode(errors='replace')[-20000:])
        if res['failure']:
            failures.append(res['failure'])
            break
    cov['samples'] = cov['samples'][:8]
    if cov['cases'] == cov['evaluations']:
        ncases = cov.pop('cases')
    else:
        ncases = cov['cases']
    wall = time.time() - t0
    cov['build_s'] = round(build_s, 2)
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed,
          'level': spec.get('level', 'exploration'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': len(failures)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d cases, %d evaluations, %d distinct non-trivial, %d unreproduced, %d slow, build %.1f s, wall %.1f s'
          % (prop, ncases, cov['evaluations'], cov['distinct_nontrivial'], cov['unreproduced'], cov['slow'], build_s, wall))
    if os.environ.get('VT_VERBOSE'):
        print(json.dumps(cov['labels'], indent=1))
    if failures:
        f = failures[0]
        print('suite=%s kind=%s class=%s note=%s' % (f['suite'], f['kind'], f['cls'], f['note']))
        print(f['msg'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, f['replay']))
        return 1
    if ncases == 0:
        print('no case was run')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
