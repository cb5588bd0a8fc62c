#!/usr/bin/env python3
"""Seeded search for violations of one property by deterministic simulation.

  check.py C05 --tier quick            search, exit 0 or 1
  check.py C05 --replay replays/x.json reproduce a recorded violation

Exit codes: 0 the property held on everything explored, 1 violation, 2 the
machinery could not decide.
"""
import argparse
import collections
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import profile, shrink  # noqa: E402

PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
RUN_LIMIT = 150      # seconds a single run may take


def worker_env():
  env = {k: v for k, v in os.environ.items()
         if k in ('HOME', 'LANG', 'PATH', 'TMPDIR', 'VERIF_REPO',
                  'VERIF_GPU_LIB')}
  env.update(LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED=os.environ.get('VERIF_HASHSEED', '0'),
             PYTHONPATH=REPO, TF_USE_LEGACY_KERAS='1',
             CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3',
             TF_ENABLE_ONEDNN_OPTS='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             TF_CUDNN_DETERMINISTIC='1')
  env.setdefault('PATH', '/usr/local/bin:/usr/bin:/bin')
  env.setdefault('HOME', '/root')
  return env


class Died(Exception):
  pass


class Worker:

  def __init__(self, backend):
    self.backend = backend
    self.history = []
    r, w = os.pipe()
    self.p = subprocess.Popen(
        [PYTHON, os.path.join(HERE, 'sim', 'worker.py'), backend, str(w)],
        stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL, env=worker_env(), pass_fds=(w,), cwd=HERE,
        start_new_session=True, text=True)
    os.close(w)
    self.out = os.fdopen(r)
    self.ready = None

  def start(self):
    doc = self._read(300)
    if not doc.get('ready'):
      raise RuntimeError(doc.get('error', 'worker did not start'))

  def _read(self, limit):
    timer = threading.Timer(limit, self.kill)
    timer.start()
    try:
      line = self.out.readline()
    finally:
      timer.cancel()
    if not line:
      raise Died(f'exit code {self.p.wait()}')
    return json.loads(line)

  def ask(self, req, limit=RUN_LIMIT):
    try:
      self.p.stdin.write(json.dumps(req) + '\n')
      self.p.stdin.flush()
    except (BrokenPipeError, OSError):
      raise Died('gone')
    return self._read(limit)

  def kill(self):
    try:
      os.killpg(self.p.pid, 9)
    except ProcessLookupError:
      pass

  def stop(self):
    self.kill()
    self.p.wait()
    self.out.close()


def fresh(backend, reqs):
  """Answers of a new worker process to the requests."""
  w = Worker(backend)
  try:
    w.start()
    res = []
    for r in reqs:
      t = time.time()
      try:
        res.append(w.ask(r))
      except Died as e:
        res.append(dict(status='died', msg=str(e), wall=time.time() - t))
        break
    return res
  finally:
    w.stop()


def final(backend, plan, prefix):
  """Outcome of a plan in a new process after the given earlier plans."""
  reqs = [dict(cmd='run', **p) for p in prefix]
  reqs.append(dict(cmd='run', plan=plan, full=True))
  res = fresh(backend, reqs)
  r = res[-1]
  if r['status'] == 'died' and len(res) == len(reqs):
    hang = r['wall'] > RUN_LIMIT - 5
    return dict(status='violation', kind='hang' if hang else 'process-died',
                msg='no progress within %d s' % RUN_LIMIT if hang else
                'the process died: ' + r['msg'], digest=None, taken=[])
  return r


class Search:

  def __init__(self, prop, tier, base):
    self.prop, self.tier, self.base = prop, tier, base
    self.prof = profile.PROFILE[prop]
    self.backends = self.prof['backends']
    self.lock = threading.Lock()
    self.results = {}          # index -> report
    self.found = None          # lowest index with a violation
    self.harness = []
    self.died = []
    self.deadline = None
    self.origin = {}           # index -> earlier indices of the process

  def backend_of(self, i):
    w = self.prof['weights']
    k = i % sum(w)
    for b, n in zip(self.backends, w):
      if k < n:
        return b
      k -= n
    raise AssertionError

  def run(self, count, budget):
    t0 = time.time()
    self.deadline = t0 + budget
    todo = {b: collections.deque(i for i in range(count)
                                 if self.backend_of(i) == b)
            for b in self.backends}
    per = {}
    total = sum(self.prof['weights'])
    for b, n in zip(self.backends, self.prof['weights']):
      per[b] = max(1, round(WORKERS * n / total))
    threads = []
    errors = []

    def loop(backend):
      w = None
      try:
        w = Worker(backend)
        w.start()
        while True:
          with self.lock:
            if not todo[backend] or time.time() > self.deadline:
              break
            i = todo[backend].popleft()
            if self.found is not None and i > self.found:
              continue
          req = dict(cmd='run', prop=self.prop, tier=self.tier, base=self.base,
                     index=i)
          try:
            rep = w.ask(req)
          except Died as e:
            w.stop()
            rep = dict(status='died', msg=str(e))
            w = Worker(backend)
            w.start()
          with self.lock:
            if rep['status'] == 'violation':
              if self.found is None or i < self.found:
                self.found = i
              self.origin[i] = list(w.history)
            elif rep['status'] == 'harness':
              self.harness.append((i, rep['msg']))
            elif rep['status'] == 'died':
              self.died.append(i)
              if self.found is None or i < self.found:
                self.found = i
              self.origin[i] = []
            self.results[i] = rep
          w.history.append(i)
      except Exception as e:  # pylint: disable=broad-except
        errors.append(f'{backend}: {type(e).__name__}: {e}')
      finally:
        if w is not None:
          w.stop()

    for b in self.backends:
      for _ in range(per[b]):
        th = threading.Thread(target=loop, args=(b,), daemon=True)
        th.start()
        threads.append(th)
    for th in threads:
      th.join()
    self.errors = errors
    self.wall = time.time() - t0
    return self.found


def get_plan(prop, backend, tier, base, index):
  return fresh(backend, [dict(cmd='plan', prop=prop, tier=tier, base=base,
                              index=index)])[0]['plan']


def minimise(plan, rep, backend, seconds):
  """Greedy reduction that keeps the kind of the violation."""
  kind = rep['kind']
  end = time.time() + seconds
  pool = [Worker(backend) for _ in range(WORKERS)]
  for w in pool:
    w.start()
  best, taken = plan, rep.get('taken') or []
  tried, kept = 0, 0
  try:
    progress = True
    while progress and time.time() < end:
      progress = False
      gen = shrink.candidates(best, taken)
      done = False
      while not done and time.time() < end:
        batch = []
        for c in gen:
          batch.append(c)
          if len(batch) == len(pool):
            break
        if not batch:
          break
        res = [None] * len(batch)

        def one(k):
          try:
            res[k] = pool[k].ask(dict(cmd='run', plan=batch[k], full=True))
          except Died:
            pool[k].stop()
            pool[k] = Worker(backend)
            pool[k].start()
        ths = [threading.Thread(target=one, args=(k,))
               for k in range(len(batch))]
        for t in ths:
          t.start()
        for t in ths:
          t.join()
        tried += len(batch)
        for c, r in zip(batch, res):
          if r and r['status'] == 'violation' and r['kind'] == kind:
            # the same switches written out are no simplification twice
            best, taken = c, r.get('taken') or []
            kept += 1
            progress = done = True
            break
  finally:
    for w in pool:
      w.stop()
  return best, tried, kept


def reproduce(search, index):
  """(plan, prefix, report) that violates in a new process, or None."""
  backend = search.backend_of(index)
  plan = search.results[index].get('plan')
  if plan is None:
    plan = get_plan(search.prop, backend, search.tier, search.base, index)
  rep = final(backend, plan, [])
  if rep['status'] == 'violation':
    return plan, [], rep
  # state that outlives the objects of one run: replay the earlier runs too
  prefix = [dict(prop=search.prop, tier=search.tier, base=search.base, index=i)
            for i in search.origin.get(index, [])][-200:]
  if not prefix:
    return None
  rep = final(backend, plan, prefix)
  if rep['status'] != 'violation':
    return None
  end = time.time() + 150
  n = 2
  while len(prefix) > 1 and time.time() < end:
    size = max(1, len(prefix) // n)
    for a in range(0, len(prefix), size):
      cut = prefix[:a] + prefix[a + size:]
      r = final(backend, plan, cut)
      if r['status'] == 'violation':
        prefix, rep = cut, r
        n = max(2, n - 1)
        break
      if time.time() > end:
        break
    else:
      if size == 1:
        break
      n = min(len(prefix), n * 2)
  return plan, prefix, rep


def load_findings(prop):
  path = os.path.join(HERE, 'known_findings.jsonl')
  out = []
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if line and line.startswith('{'):
          d = json.loads(line)
          if d.get('property') == prop and d.get('status') == 'known':
            out.append(d)
  return out


def matches(finding, rep):
  return rep['kind'] == finding['kind'] and re.search(
      finding.get('pattern', ''), rep['msg']) is not None


def evidence(search, args, count, found, extra_assumptions=()):
  res = search.results
  status = collections.Counter(r['status'] for r in res.values())
  fired = collections.Counter()
  probes = collections.Counter()
  digests = set()
  nontrivial = set()
  steps = checks = draws = switches = ops = 0
  per = collections.Counter()
  for i, r in res.items():
    fired.update(r.get('fired') or {})
    probes.update(r.get('probes') or {})
    per[search.backend_of(i)] += 1
    steps += r.get('steps', 0)
    checks += r.get('checks', 0)
    draws += r.get('draws', 0)
    switches += r.get('switches', 0)
    ops += r.get('ops_ok', 0)
    if r.get('digest'):
      digests.add(r['digest'])
      if r.get('checks') and r.get('steps'):
        nontrivial.add(r['digest'])
  n = len(res)
  prof = search.prof
  hours = max(search.wall, 1e-9) / 3600
  samples = [dict(index=i, steps=r.get('steps'), calls=r.get('ops_ok'),
                  checks=r.get('checks'), faults=r.get('fired'),
                  switches=r.get('switches'), history=r.get('digest'),
                  plan=r.get('plan'))
             for i, r in sorted(res.items())[:3]]
  doc = dict(
      property=search.prop, tier=args.tier, seed=search.base,
      level='exploration',
      coverage=dict(
          evaluations=n, distinct_nontrivial=len(nontrivial),
          rule='a run is one seeded plan (objects, calls, schedule, faults, '
          'random draws); two runs are distinct if the SHA-1 of their event '
          'logs (calls, context switches, faults, results) differ; a run is '
          'non-trivial if code under test took at least one step and at '
          'least one result was compared with its oracle',
          samples=samples, planned_runs=count, runs_per_engine=dict(per),
          status=dict(status),
          runs_per_hour='%d (one seed per run)' % round(n / hours),
          simulated_steps=steps,
          simulated_time='%d steps; a step is one eager tensor operation, '
          'simulated GPU block step, file system call or traced source line'
          % steps,
          completed_calls=ops, oracle_checks=checks, random_draws=draws,
          context_switches=switches, faults_injected=dict(fired),
          distinct_histories=len(digests), probes=dict(probes),
          real_components=prof['real'], stub_components=prof['stub']),
      assumptions=list(prof['assumptions']) + list(extra_assumptions),
      wall_s=round(search.wall, 2), violations=found)
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  path = os.path.join(HERE, 'evidence', f'{search.prop}.json')
  tmp = path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(doc, f, indent=1)
  os.replace(tmp, path)
  return doc


def write_replay(prop, backend, plan, prefix, rep, meta):
  os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
  doc = dict(property=prop, backend=backend, kind=rep['kind'], msg=rep['msg'],
             digest=rep.get('digest'), steps=rep.get('steps'),
             schedule=rep.get('taken'), faults=rep.get('fault_log'),
             trace=rep.get('trace'), prefix=prefix, plan=plan, meta=meta)
  key = hashlib.sha1(json.dumps([plan, prefix]).encode()).hexdigest()[:10]
  path = os.path.join(HERE, 'replays', f'{prop}-{key}.json')
  with open(path, 'w') as f:
    json.dump(doc, f, indent=1)
  return path


def replay(path, prop):
  with open(path) as f:
    doc = json.load(f)
  rep = final(doc['backend'], doc['plan'], doc['prefix'])
  if rep['status'] == 'violation':
    same = rep['kind'] == doc['kind'] and rep.get('digest') == doc['digest']
    print(f"{rep['kind']}: {rep['msg']}")
    print('history', rep.get('digest'),
          'identical to the recorded one' if same else
          'differs from the recorded one')
    for line in rep.get('trace') or []:
      print('  ', line)
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1
  print(rep['status'], rep.get('msg', ''))
  return 0 if rep['status'] in ('ok', 'skip') else 2


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED') or 1))
  ap.add_argument('--replay')
  ap.add_argument('--runs', type=int)
  ap.add_argument('--budget', type=float)
  ap.add_argument('--dump')
  args = ap.parse_args()
  if args.replay:
    return replay(args.replay, args.prop)
  prof = profile.PROFILE[args.prop]
  for b in prof['backends']:
    if b == 'gpu':
      from sim import gpubuild
      err = gpubuild.build(REPO)
      if err:
        if prof.get('needs_gpu'):
          print('the GPU sources cannot be built for simulation:\n' + err)
          return 2
        print('warning: GPU engine left out:', err.split('\n')[0])
        k = prof['backends'].index('gpu')
        prof = dict(prof, backends=prof['backends'][:k] +
                    prof['backends'][k + 1:],
                    weights=prof['weights'][:k] + prof['weights'][k + 1:])
        profile.PROFILE[args.prop] = prof
  runs, budget = prof[args.tier]
  if args.runs:
    runs = args.runs
  if args.budget:
    budget = args.budget
  s = Search(args.prop, args.tier, args.seed)
  known = load_findings(args.prop)
  started = time.time()
  s.run(runs, budget)
  if args.dump:
    with open(args.dump, 'w') as f:
      json.dump({i: [r['status'], r.get('digest'), r.get('steps')]
                 for i, r in sorted(s.results.items())}, f)
  for kf in known:
    with open(os.path.join(HERE, kf['replay'])) as f:
      doc = json.load(f)
    r = final(doc['backend'], doc['plan'], doc.get('prefix') or [])
    if r['status'] == 'violation' and matches(kf, r):
      print(f"KNOWN-FINDING: property={args.prop} {kf['what']}")
  bad = sorted(i for i, r in s.results.items()
               if r['status'] in ('violation', 'died'))
  new = [i for i in bad if s.results[i]['status'] == 'died' or
         not any(matches(k, s.results[i]) for k in known)]
  code, unstable = 0, []
  for i in new[:3]:
    got = reproduce(s, i)
    if got is None:
      unstable.append(i)
      continue
    plan, prefix, rep = got
    if any(matches(k, rep) for k in known):
      continue
    backend = s.backend_of(i)
    meta = dict(tier=args.tier, seed=args.seed, index=i,
                original_calls=sum(len(c) for c in plan.get('clients', [])))
    if not prefix and rep['kind'] not in ('hang', 'process-died'):
      left = max(20, min(120, 600 - (time.time() - started)))
      small, tried, kept = minimise(plan, rep, backend, left)
      r2 = final(backend, small, [])
      if r2['status'] == 'violation' and r2['kind'] == rep['kind']:
        plan, rep = small, r2
        meta.update(minimised=dict(candidates=tried, accepted=kept))
    path = write_replay(args.prop, backend, plan, prefix, rep, meta)
    print(f"{rep['kind']}: {rep['msg']}")
    print(f"seed={args.seed} index={i} engine={backend} steps="
          f"{rep.get('steps')} faults={rep.get('fault_log')} switches="
          f"{len(rep.get('taken') or [])}")
    print(f'VIOLATION property={args.prop} replay={path}')
    code = 1
    break
  doc = evidence(s, args, runs, code)
  cov = doc['coverage']
  print(f"{args.prop} {args.tier}: {cov['evaluations']} of {runs} runs, "
        f"{cov['distinct_histories']} distinct histories, "
        f"{cov['simulated_steps']} steps, {cov['oracle_checks']} checks, "
        f"faults {cov['faults_injected']}, {s.wall:.0f} s")
  if code:
    return 1
  if s.errors:
    print('workers failed:', s.errors[:2])
    return 2
  if unstable:
    print('runs', unstable, 'failed once and not again: no verdict',
          s.results[unstable[0]].get('msg', '')[:500])
    return 2
  if s.harness:
    print('harness errors:', len(s.harness), s.harness[0][1][-1500:])
    return 2
  if cov['evaluations'] < min(runs, prof.get('least', 20)) or \
      not cov['distinct_nontrivial']:
    print('too little was explored for a verdict')
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
