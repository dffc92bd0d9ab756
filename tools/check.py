#!/usr/bin/env python3
"""usage: check.py ID [--thorough] [--seed N] [--replay FILE]
Builds /repo's current tree and decides property ID.  Exit 0 or 1 (with a VIOLATION line)."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import C

EVID = os.path.join(VERIF, 'evidence')
REPL = os.path.join(EVID, 'replays')


def findings(pid):
    """(signature, text) of the findings listed for this property; fixed entries suppress nothing"""
    out = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) signature=(\S+) (.*)', line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def build(variant, *targets):
    r = subprocess.run([sys.executable, os.path.join(HERE, 'build.py'), variant, *targets], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        sys.exit(3)
    return r.stdout.strip().splitlines()[-1]


def write_evidence(pid, tier, seed, res, wall, violations):
    k = C[pid]
    cov = {x: res[x] for x in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')}
    for x in ('discards', 'classes', 'planned', 'unreproduced', 'fuzz_execs', 'extra'):
        if x in res:
            cov[x] = res[x]
    ev = dict(property=pid, tier=tier, seed=seed, level=k['level'], coverage=cov, assumptions=k['assumptions'],
              wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVID, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, pid + '.json'))


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    extra = []
    while args:
        a = args.pop(0)
        if a == '--thorough':
            tier = 'thorough'
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--replay':
            replay = os.path.abspath(args.pop(0))
        else:
            extra.append(a)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.makedirs(REPL, exist_ok=True)
    k = C[pid]
    t0 = time.time()
    os.environ['VERIF_ROOT'] = VERIF
    if k['binary'].endswith('.py'):
        bdir = build('asan', 'parted')
        env = dict(os.environ, PARTED=os.path.join(bdir, 'parted'), VERIF_REPL=REPL, VERIF_SEED=str(seed), VERIF_TIER=tier)
        resf = os.path.join(EVID, '.%s.res' % pid)
        if replay:
            return subprocess.run(['python3-vt', os.path.join(VERIF, 'src', k['binary']), pid, '--replay', replay], env=env).returncode
        fl = known_file(pid)
        rc = subprocess.run(['python3-vt', os.path.join(VERIF, 'src', k['binary']), pid, '--result', resf, '--known', fl] + extra, env=env).returncode
    else:
        bdir = build(k['variant'], k['binary'])
        exe = os.path.join(bdir, k['binary'])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', VERIF_TIER=tier)
        if replay:
            return subprocess.run([exe, '--replay', replay], env=env).returncode
        resf = os.path.join(EVID, '.%s.res' % pid)
        fl = known_file(pid)
        rc = subprocess.run([exe, pid, '--seed', str(seed), '--tier', tier, '--result', resf, '--out', REPL, '--known', fl] + extra, env=env).returncode
    if rc not in (0, 1) or not os.path.exists(resf):
        print('check %s: the harness ended with %s' % (pid, rc))
        return 3
    res = json.load(open(resf))
    os.unlink(resf)
    write_evidence(pid, tier, seed, res, time.time() - t0, 1 if rc else 0)
    for sig, text in findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s %s: %d evaluations, %d distinct non-trivial (%s), %.1f s' %
          (pid, 'held' if rc == 0 else 'VIOLATED', res['evaluations'], res['distinct_nontrivial'], res['rule'], time.time() - t0))
    return rc


def known_file(pid):
    p = os.path.join(EVID, '.%s.known' % pid)
    with open(p, 'w') as f:
        f.write(''.join(s + '\n' for s, _ in findings(pid)))
    return p


sys.exit(main())
