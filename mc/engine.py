"""Parallel exhaustive explorer front end: job distribution, findings, evidence, verdict.

Workers are plain forks (not multiprocessing children) so that niapy sees an ordinary main
thread of a main process, exactly like a user's script.
"""
import fcntl
import fnmatch
import json
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, 'known_findings.json')
EVID = os.environ.get('MC_EVID') or os.path.join(VERIF, 'evidence')

FAST = os.environ.get('MC_FAST')     # development only: stop at the first violation


class Out:
    """Result of one job."""

    def __init__(self):
        self.execs = 0          # complete executions of the real code
        self.trans = 0          # steps executed (choice points + evaluations + operations)
        self.states = set()     # hashes of distinct observed states
        self.nstates = 0
        self.outcomes = set()
        self.viol = {}          # signature -> (detail, replay)
        self.nviol = 0
        self.samples = []
        self.notes = {}

    def bad(self, sig, detail, replay):
        self.nviol += 1
        if sig not in self.viol:
            self.viol[sig] = (str(detail)[:600], replay)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def trace(self, run, salt=0):
        """Account the states (evaluation-history prefixes) of one observed run."""
        h = hash(('s', salt))
        st = self.states
        for x, f in zip(run.prob.xs, run.prob.fs):
            h = hash((h, x.tobytes(), float(f)))
            st.add(h)
        self.outcomes.add(hash((h, run.hang is None, type(run.err).__name__)))
        self.execs += 1
        self.trans += len(run.prob.fs) + len(run.points)

    def pack(self):
        self.nstates = len(self.states)
        self.states = None
        self.outcomes = len(self.outcomes)
        return self


def load_findings(pid):
    try:
        with open(FINDINGS) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return []
    return [e for e in data.get('findings', []) if e['property'] == pid]


def _worker(wid, nw, jobs, run_job, path, lockpath, deadline):
    out = open(path, 'wb')
    fd = os.open(lockpath, os.O_RDWR)
    while True:
        fcntl.flock(fd, fcntl.LOCK_EX)
        i = struct.unpack('<q', os.pread(fd, 8, 0))[0]
        if i < len(jobs):
            os.pwrite(fd, struct.pack('<q', i + 1), 0)
        fcntl.flock(fd, fcntl.LOCK_UN)
        if i >= len(jobs):
            break
        if time.time() > deadline or (FAST and os.path.exists(lockpath + '.stop')):
            pickle.dump((i, None, 'deadline'), out)
            continue
        try:
            o = run_job(jobs[i]).pack()
            if FAST and o.viol:
                open(lockpath + '.stop', 'w').close()
            pickle.dump((i, o, None), out)
        except BaseException:
            pickle.dump((i, None, traceback.format_exc()), out)
        out.flush()
    out.close()


def run(mod, tier, seed, jobs=None, procs=None, budget=None, quiet=False):
    t0 = time.time()
    pid = mod.ID
    jobs = list(mod.jobs(tier)) if jobs is None else jobs
    budget = budget or (600 if tier == 'quick' else 3000)
    deadline = t0 + budget
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % pid)
    lock = os.path.join(tmp, 'next')
    with open(lock, 'wb') as fh:
        fh.write(struct.pack('<q', 0))
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for w in range(procs):
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                _worker(w, procs, jobs, mod.run_job, os.path.join(tmp, 'o%d' % w), lock, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        pids.append(p)
    alive = set(pids)
    hard = deadline + 60
    killed = False
    while alive:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p in alive:
            alive.discard(p)
            continue
        if time.time() > hard:
            killed = True
            for q in list(alive):
                try:
                    os.killpg(q, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            for q in list(alive):
                try:
                    os.waitpid(q, 0)
                except ChildProcessError:
                    pass
            break
        time.sleep(0.02)
    # merge
    execs = trans = states = outcomes = nviol = done = 0
    viol, samples, notes, errors, skipped = {}, [], {}, [], 0
    for w in range(procs):
        path = os.path.join(tmp, 'o%d' % w)
        if not os.path.exists(path):
            continue
        with open(path, 'rb') as fh:
            while True:
                try:
                    i, o, err = pickle.load(fh)
                except EOFError:
                    break
                except Exception:
                    break
                if o is None:
                    if err == 'deadline':
                        skipped += 1
                    else:
                        errors.append((i, err))
                    continue
                done += 1
                execs += o.execs
                trans += o.trans
                states += o.nstates
                outcomes += o.outcomes
                nviol += o.nviol
                for s, d in o.viol.items():
                    if s not in viol:
                        viol[s] = d + (i,)
                for k, v in o.notes.items():
                    notes[k] = notes.get(k, 0) + v
                if o.samples and len(samples) < 12:
                    samples.extend(o.samples[:2])
        os.unlink(path)
    os.unlink(lock)
    if os.path.exists(lock + '.stop'):
        os.unlink(lock + '.stop')
    os.rmdir(tmp)
    if hasattr(mod, 'finish') and skipped == 0 and not killed:      # judges what all jobs together have shown
        for sig, det, rep in mod.finish(tier, notes):
            viol.setdefault(sig, (det, rep, -1))
    # verdict
    finds = load_findings(pid)
    hit, fresh = {}, []
    for s in sorted(viol):
        f = next((e for e in finds if fnmatch.fnmatchcase(s, e['match'])), None)
        if f is not None:
            hit.setdefault(f['id'], (f, []))[1].append(s)
        else:
            fresh.append(s)
    # an error of the harness itself on code it could not drive is reported, never silently dropped
    complete = (done == len(jobs)) and not killed
    wall = time.time() - t0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    cov = {
        'states': states, 'transitions': trans, 'traces_validated_against_impl': execs,
        'evaluations': execs, 'distinct_nontrivial': outcomes,
        'rule': getattr(mod, 'RULE', ''), 'samples': samples[:8] or ['(none)'],
        'exhaustive': bool(complete and not errors), 'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
        'jobs': len(jobs), 'jobs_completed': done, 'jobs_not_reached': skipped, 'counters': notes,
    }
    if mod.LEVEL == 'model_checking':
        del cov['evaluations'], cov['distinct_nontrivial']
        cov['distinct_outcomes'] = outcomes
    else:
        del cov['states'], cov['traces_validated_against_impl']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(fresh),
          'known_findings': {k: len(v[1]) for k, v in hit.items()}}
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, (f, sigs) in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%d signature(s) in this run)' % (pid, f['what'], len(sigs)))
    if not quiet:
        print('%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, %d/%d jobs, %.1fs%s'
              % (pid, tier, execs, states, trans, outcomes, done, len(jobs), wall, '' if complete else ' (CAPPED)'))
        for k in sorted(notes):
            print('   %s: %s' % (k, notes[k]))
    for i, e in errors[:3]:
        print('HARNESS-ERROR job %r\n%s' % (jobs[i], e))
    if errors and not fresh:
        # the harness could not observe the code through its public interface
        print('%s: %d job(s) could not be driven' % (pid, len(errors)))
        if os.environ.get('MC_STRICT'):
            return 3
    if fresh:
        for n, s in enumerate(fresh[:40]):
            det, rep, ji = viol[s]
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, n))
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'signature': s, 'detail': det, 'replay': rep,
                           'job': repr(jobs[ji]) if ji >= 0 else None, 'tier': tier}, fh, indent=1, default=str)
            print('  %s: %s' % (s, det))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
