#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by deterministic simulation of /repo's current sources:
builds the simulator, searches seeds with eight workers (seed k is handled by
worker k mod 8, so the set explored does not depend on the number of workers,
only on how far each gets), and reports.  VERIF_SEED is the only source of
randomness.  Exit 0: held; 1: violation (confirmed, minimised, and reproduced
identically from the replay file in a fresh process); 2: the check failed."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build

QUICK, THOROUGH = 60, 660
SCRATCH = os.path.join(VERIF, 'work')
REAL = ['src/*.c, src/grammar.y, src/lex.l (all of asm6809, unmodified, main() included)', 'dt101 (containers)', 'gnulib modules linked by asm6809',
        'C library stdio formatting and buffering, strtol, qsort, getopt parsing']
STUB = ['file system and descriptors (in-memory, with faults)', 'malloc/realloc/free (checked arenas, with faults)', 'process life cycle: exit, atexit, kill',
        'clock, pid, environment variables', 'stdin/stdout/stderr end points']


def fail(msg):
    sys.stdout.write('check failed: %s\n' % msg)
    sys.exit(2)


class Worker:
    def __init__(self, exe, prop, base, k, n, tier):
        self.exe, self.prop, self.base, self.k, self.n = exe, prop, base, k, n
        tag = '%s-%s-%d' % (prop, tier, k)
        self.out = os.path.join(SCRATCH, tag + '.json')
        self.replay = os.path.join(SCRATCH, tag + '.replay')
        self.progress = os.path.join(SCRATCH, tag + '.progress')
        self.next, self.proc, self.parts, self.single, self.relaunches, self.done = k, None, [], False, 0, False
        self.given_up, self.deadline = [], 0

    def launch(self, end, single=False):
        for f in (self.out, self.replay):
            if os.path.exists(f): os.remove(f)
        self.single = single
        env = dict(os.environ, SIM_PROGRESS=self.progress)
        env.pop('SIM_FORK', None)
        if single: env['SIM_FORK'] = '1'
        secs = max(1.0, end - time.time())
        self.deadline = time.time() + secs + 180
        count = self.next + 1 if single else 1 << 40
        self.proc = subprocess.Popen([self.exe, 'worker', self.prop, str(self.base), str(self.next), str(self.n), str(count), str(secs), self.out, self.replay],
                                     stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=VERIF)

    def collect(self):
        """None while running is over; a string is an error."""
        out = self.proc.communicate()[0].decode('utf8', 'replace')
        if self.proc.returncode == 0 and os.path.exists(self.out):
            d = json.load(open(self.out))
            self.parts.append(d)
            if d['error']: return d['error']
            self.next = d['next']
            return None
        if self.single and self.relaunches < 20: # the oracles themselves cannot cope: leave that seed out, and say so
            self.given_up.append('seed %d ends the worker (%s)' % (self.next, self.proc.returncode)); self.next += self.n; return None
        if self.single: return 'seed %d ends the worker (%s): %s' % (self.next, self.proc.returncode, out[-400:])
        # what was simulated brought the worker down: look at that seed again,
        # with every case in a process of its own
        try: self.next = int(open(self.progress).read().split()[0])
        except (OSError, ValueError, IndexError): return 'worker ended with %s: %s' % (self.proc.returncode, out[-400:])
        self.relaunches += 1
        return 'single'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): fail('unknown tier ' + tier)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    secs = float(os.environ.get('SIM_SECONDS', QUICK if tier == 'quick' else THOROUGH))
    n = int(os.environ.get('SIM_WORKERS', '8'))
    os.makedirs(SCRATCH, exist_ok=True)
    t0 = time.time()
    exe, _ = build.build()
    built = time.time() - t0
    unknown = open(exe.replace('/sim-', '/unk-')).read().split()
    base = (seed * 0x9e3779b97f4a7c15 + 0x1234567) & ((1 << 62) - 1)
    sys.stdout.write('%s %s: VERIF_SEED=%d, base seed %d, %d workers, %.0f s\n' % (prop, tier, seed, base, n, secs)); sys.stdout.flush()
    start = time.time(); end = start + secs
    ws = [Worker(exe, prop, base, k, n, tier) for k in range(n)]
    for w in ws: w.launch(end)
    error, vio = None, None
    while True:
        busy = False
        for w in ws:
            if w.done: continue
            busy = True
            if w.proc.poll() is None:
                if time.time() > w.deadline: w.given_up.append('a worker was still busy 180 s after its time'); w.proc.kill(); w.done = True
                continue
            was_single = w.single
            e = w.collect()
            if e == 'single': w.launch(time.time() + 60, True); continue
            if e: error = error or e; w.done = True; continue
            v = w.parts[-1]['violation'] if w.parts else None
            if v: vio = vio or (w, v); w.done = True; continue
            if was_single: w.next = max(w.next, w.k)
            if time.time() < end - 0.5: w.launch(end)
            else: w.done = True
        if vio or not busy: break
        time.sleep(0.05)
    for w in ws:
        if w.proc.poll() is None: w.proc.kill()
        if not w.done:
            try: w.proc.communicate(timeout=20)
            except subprocess.TimeoutExpired: pass
    wall = time.time() - t0
    parts = [d for w in ws for d in w.parts]
    tot = lambda k: sum(d[k] for d in parts)
    merge = lambda k: {x: sum(d[k].get(x, 0) for d in parts) for d in parts for x in d[k]}
    searched = max(0.001, sum(d['wall'] for d in parts) / n)
    keys = set(k for d in parts for k in d['keys'])
    cov = set(c for d in parts for c in d['cov'])
    fired = merge('fired')
    rule = subprocess.run([exe, 'rule', prop], stdout=subprocess.PIPE, text=True).stdout.strip()
    samples = [s for d in parts[:n] for s in d['samples'][:1]][:5]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot('cases'), 'distinct_nontrivial': len(keys), 'rule': rule, 'samples': samples,
            'simulated_process_runs': tot('runs'), 'seeds': sum(max(0, (w.next - w.k) // n) for w in ws),
            'seeds_per_hour': int(sum(max(0, (w.next - w.k) // n) for w in ws) / searched * 3600), 'runs_per_hour': int(tot('runs') / searched * 3600),
            'simulated_seconds': round(tot('sim_ns') / 1e9, 3), 'events_scheduled': tot('events'), 'process_switches': tot('switches'), 'allocations': tot('allocs'),
            'faults_fired': fired, 'crashes_injected_or_seen': tot('crashes'), 'hangs_seen': tot('hangs'),
            'short_reads': tot('short_reads'), 'short_writes': tot('short_writes'), 'disk_full': tot('nospc'), 'opens_refused_by_the_limit_on_open_files': tot('emfile'), 'reallocs_moved': tot('moved_reallocs'),
            'case_kinds': merge('kinds'), 'code_edges_reached': len(cov),
            'distinct_measure': 'distinct_nontrivial counts distinct 52-bit hashes of the observed history (system calls, outcomes, outputs) of non-trivial cases',
            'same_seed_executed_twice_and_compared': tot('verified'), 'workers': n, 'worker_relaunches': sum(w.relaunches for w in ws), 'given_up': [g for w in ws for g in w.given_up], 'build_s': round(built, 2),
            'real_components': REAL, 'stubbed_components': STUB, 'imports_not_intercepted': unknown,
        },
        'assumptions': ['Single process: the assembler has no threads; interleaving arises between simulated processes sharing a file system.',
                        'Search samples seeds; a clean batch is evidence, not proof.'],
        'wall_s': round(wall, 2), 'violations': 1 if vio else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1); f.write('\n')
    if vio:
        w, v = vio
        r = subprocess.run([exe, 'replay', w.replay, 'q'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=VERIF)
        if r.returncode != 1: fail('the replay of %s in a fresh process does not reproduce it (%d): %s' % (v['what'], r.returncode, r.stdout[-500:]))
        sys.stdout.write('seed %d: %s\n%s\n' % (v['seed'], v['what'], v['case']))
        sys.stdout.write('replay with: %s replay %s\n' % (os.path.relpath(exe, VERIF), os.path.relpath(w.replay, VERIF)))
        sys.stdout.write('VIOLATION property=%s replay=%s\n' % (prop, w.replay))
        sys.exit(1)
    if error: fail(error)
    if not keys: fail('nothing was explored')
    sys.stdout.write('%s held: %d cases (%d distinct and non-trivial), %d simulated runs, %d edges, %.1f s\n' % (prop, tot('cases'), len(keys), tot('runs'), len(cov), wall))
    sys.exit(0)


main()
