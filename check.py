#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source.

exit 0  the property held on everything analysed (known findings are printed)
exit 1  a VIOLATION line was printed
exit 2  the analysis could not be carried out (the tree does not build, an anchor is missing)
"""
import fcntl
import json
import os
import subprocess
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(20000)

T0 = time.time()


class Broken(Exception):
    pass


def build(what):
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    with open(os.path.join(V, 'build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['bash', os.path.join(V, 'dump.sh'), what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = os.path.join(V, 'build', what + '.json')
        if p.returncode or not os.path.exists(out):
            sys.stdout.write(p.stdout[-4000:])
            raise Broken('could not compile and dump /repo (%s)' % what)
        from mir import Program
        return Program(out)


def messages(flags, what):
    """type-checks the witness crate (and with it /repo's crate): [(package, code, rendered message)] of the errors"""
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    env = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(V, 'build', 'target-' + what), CARGO_NET_OFFLINE='true',
               CARGO_INCREMENTAL='0')
    with open(os.path.join(V, 'build', 'lock-' + what), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=os.path.join(V, 'witness'), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    r = []
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error'):
            code = (m['message'].get('code') or {}).get('code') or ''
            r.append((m['target']['name'], code, m['message']))
    if p.returncode and not r:
        sys.stdout.write(p.stderr[-3000:])
        raise Broken('could not type-check /repo')
    return r


def forbid():
    """uses of unsafe code in /repo's crate, as the compiler sees them"""
    out = []
    for pkg, code, m in messages('-Funsafe_code', 'forbid'):
        if code == 'unsafe_code' or code == 'E0453' and 'unsafe_code' in m['rendered']:
            out.append(m['rendered'])
        elif pkg == 'wadec' and not m['message'].startswith('aborting'):
            raise Broken('/repo does not compile: ' + m['message'])
    return '\n'.join(out)


def witness():
    """(violated bounds, number of bounds)"""
    out = []
    for pkg, code, m in messages('', 'witness'):
        if m['message'].startswith('aborting') or m['message'].startswith('could not compile'):
            continue
        if pkg == 'witness' and code in ('E0277', 'E0310', 'E0309', 'E0597', 'E0515', 'E0505', 'E0521', 'E0716', 'E0373', 'E0499', 'E0502'):
            out.append(('%s: %s' % (code, m['message']), m['rendered']))
        else:
            raise Broken('the witness does not compile: ' + m['message'])
    src = open(os.path.join(V, 'witness', 'src', 'lib.rs')).read()
    return out, src.count('shared::<') + 4


build.forbid = forbid
build.witness = witness


def findings():
    """known findings: {(property, key): text}"""
    r = {}
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: '):
                parts = l[len('finding: '):].split(' | ')
                r[(parts[0].split('=', 1)[1], parts[1])] = parts[2] if len(parts) > 2 else parts[1]
    return r


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []          # (key, text)
        self.obl = 0            # rule instances examined
        self.und = []           # instances that could not be decided
        self.samples = []
        self.cov = {}
        self.rule = []

    def violation(self, key, text):
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def ok(self, what=None, n=1):
        self.obl += n
        if what is not None and len(self.samples) < 12:
            self.samples.append(what)

    def undecided(self, what):
        self.und.append(what)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import lints
    R = Report(pid)
    lints.run(pid, R, build, tier)
    known = findings()
    bad = []
    for key, text in R.viol:
        if (pid, key) in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, key)]))
        else:
            bad.append((key, text))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'build', 'replay'), exist_ok=True)
    cov = dict(R.cov)
    cov['explanation'] = ' '.join(R.rule)
    cov['obligations'] = R.obl
    cov['discharged'] = R.obl - len(R.und) - len(R.viol) if R.obl else 0
    cov['undecided'] = [str(u) for u in R.und[:40]]
    cov['undecided_count'] = len(R.und)
    cov['samples'] = R.samples
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': lints.ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': len(bad)}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for i, (key, text) in enumerate(bad):
        path = os.path.join(V, 'build', 'replay', '%s-%d.txt' % (pid, i))
        with open(path, 'w') as f:
            f.write('property: %s\nkey: %s\n\n%s\n' % (pid, key, text))
        print(text)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%s: %d obligations, %d undecided, %d violations, %.1f s' % (pid, R.obl, len(R.und), len(bad), time.time() - T0))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as e:
        print('ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
