"""Try a planted bug: python3 tools/try_seed.py ID [...] [--no-check]
Applies it to /repo, builds, runs the stable tests, its demonstration and its
check, and undoes it.  Development only; no check uses this."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def tests():
    if sh(['bash', '/opt/vp/build.sh']).returncode:
        return 'build fails'
    sh(['bash', '/opt/vp/test.sh', '/tmp/seed-tests.json'])
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = set(json.load(open('/tmp/seed-tests.json'))['passed'])
    return ('missing tests %s' % sorted(b - o)[:3]) if b - o else 'tests pass'


def demo(d):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO, timeout=300)
    return r.returncode, r.stdout.decode('utf8', 'replace')[-300:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--no-check' not in sys.argv
    if not args:
        args = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in args:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        patch = os.path.join(d, 'patch.diff')
        assert not sh(['git', '-C', REPO, 'status', '--short',
                       '--untracked-files=no']).stdout.strip()
        clean, out0 = demo(d)
        r = sh(['git', '-C', REPO, 'apply', patch])
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout.decode())
            continue
        try:
            t = tests()
            bad, out1 = demo(d)
            res = ''
            if check:
                start = time.time()
                c = sh([sys.executable, 'check.py', meta['property']],
                       cwd=HERE, env=dict(os.environ, VERIF_SEED='1',
                                          VERIF_TIER='quick'))
                text = c.stdout.decode('utf8', 'replace')
                hit = [l for l in text.splitlines()
                       if l.startswith('violated:')]
                res = 'check exit %d (%.0f s) %s' % (
                    c.returncode, time.time() - start,
                    hit[0][:150] if hit else text[-300:]
                    if c.returncode else 'NOT CAUGHT')
        finally:
            sh(['git', '-C', REPO, 'checkout', '--', '.'])
        ok = clean == 0 and bad != 0 and t == 'tests pass'
        print(i, meta['property'], 'VALID' if ok else
              'INVALID clean=%s bad=%s %s\n%s\n%s' % (clean, bad, t, out0,
                                                      out1), '|', res)
        sys.stdout.flush()


if __name__ == '__main__':
    main()
