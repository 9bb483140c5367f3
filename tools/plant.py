"""Plant a bug: build patch, confirm tests pass and the demonstration separates the trees, run the checks.

usage: plant.py SPEC.py [id ...]     (SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)])
Keeps what is confirmed under /verif/seeded/<id>/ and prints what the property's check says about it."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$here/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='plant-')
        try:
            one(b, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(b, d):
    w = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    out = os.path.join(d, 'seed')
    os.makedirs(out)
    open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    env = dict(os.environ)
    r0 = sh(['bash', out + '/demo.sh'], w, env, 100)
    for f, o, n in b['edits']:
        p = w + '/src/niapy/' + f
        s = open(p).read()
        if s.count(o) != 1:
            print(b['id'], 'OLD TEXT COUNT', s.count(o), f)
            return
        open(p, 'w').write(s.replace(o, n))
    diff = sh(['git', 'diff'], w).stdout
    open(out + '/patch.diff', 'w').write(diff)
    r1 = sh(['bash', out + '/demo.sh'], w, env, 100)
    e = dict(env, PYTHONPATH=w + '/src', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-p', 'no:cacheprovider', '-n', '8', '--dist', 'loadfile', '--timeout=60'], w, e)
    tail = t.stdout.strip().splitlines()[-1]
    ok = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in tail and 'error' not in tail
    msg = '%s demo %d/%d tests %s' % (b['id'], r0.returncode, r1.returncode, tail)
    if not ok:
        print('REJECTED', msg, (r0.stderr or r0.stdout)[-300:] if r0.returncode else '', t.stdout[-300:] if 'failed' in tail else '', flush=True)
        return
    dst = HERE + '/seeded/' + b['id']
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    t0 = time.time()
    e = dict(env, MC_REPO=w, MC_EVID=d + '/ev', **({} if b['prop'] == 'C17' else {'MC_FAST': '1'}))
    res = []
    for p in [b['prop']] + list(b.get('also', ())):
        r = sh(['python3', HERE + '/check.py', p, '--tier', 'quick'], HERE, e)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + p)]
        det = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith('  ')][:1]
        res.append('%s %s(%d) %.0fs %s' % (p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t0, det))
    print('KEPT', msg, '|', ' ; '.join(res), flush=True)


main()
