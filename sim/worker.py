"""Worker process: executes plans, one JSON document per line.

Requests come on standard input, answers go to the file descriptor given on the
command line.
"""
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def setup(backend):
  repo = os.environ.get('VERIF_REPO', '/repo')
  if repo in sys.path:
    sys.path.remove(repo)
  sys.path.insert(0, repo)
  import warnings
  warnings.filterwarnings('ignore')
  if backend == 'gpu':
    from sim import gpu
    gpu.install()
  import tensorflow as tf
  tf.config.threading.set_inter_op_parallelism_threads(1)
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.get_logger().setLevel('ERROR')
  from sim import core
  core.BACKEND = backend
  core.install_tf_seam()
  if backend == 'gpu':
    from sim import gpu
    gpu.connect()
  from sim import scenarios
  return core, scenarios


def make_plan(core, scenarios, prop, backend, tier, base, index):
  seed = core.mix(prop, base, index)
  sc = scenarios.get(prop)
  core.BACKEND = backend
  plan = sc.gen(random.Random(seed), seed, tier)
  plan['prop'] = prop
  plan['backend'] = backend
  return json.loads(json.dumps(plan))


def main():
  backend, fd = sys.argv[1], int(sys.argv[2])
  out = os.fdopen(fd, 'w')

  def send(doc):
    out.write(json.dumps(doc) + '\n')
    out.flush()
  try:
    core, scenarios = setup(backend)
  except BaseException:  # pylint: disable=broad-except
    send(dict(ready=False, error=traceback.format_exc()))
    return
  send(dict(ready=True))
  for line in sys.stdin:
    req = json.loads(line)
    try:
      if req['cmd'] == 'plan':
        send(dict(plan=make_plan(core, scenarios, req['prop'], backend,
                                 req['tier'], req['base'], req['index'])))
        continue
      if req.get('plan') is not None:
        plan = req['plan']
      else:
        plan = make_plan(core, scenarios, req['prop'], backend, req['tier'],
                         req['base'], req['index'])
      rep = core.run_plan(scenarios.get(plan['prop']), plan)
      if not req.get('full'):
        rep.pop('taken', None)
      if req.get('plan') is None and (
          rep['status'] in ('violation', 'harness') or req['index'] < 3):
        rep['plan'] = plan
    except BaseException:  # pylint: disable=broad-except
      rep = dict(status='harness', msg=traceback.format_exc())
    send(rep)


if __name__ == '__main__':
  main()
