"""Candidates of simpler plans; a plan stays a plain JSON document."""
import copy


def chunks(n):
  """Index ranges to drop: halves first, single items last."""
  size = n
  while size >= 1:
    i = 0
    while i < n:
      yield i, min(n, i + size)
      i += size
    size //= 2


def without(lst, a, b):
  return lst[:a] + lst[b:]


def names_used(plan):
  used = set()

  def walk(x):
    if isinstance(x, dict):
      for v in x.values():
        walk(v)
    elif isinstance(x, list):
      for v in x:
        walk(v)
    elif isinstance(x, str):
      used.add(x)
  walk(plan['clients'])
  for o in reversed(plan['objs']):
    if o['name'] in used:
      walk({k: v for k, v in o.items() if k != 'name'})
  return used


def drop_point(spec, b, i):
  """Removes point i of element b of a cloud."""
  s = spec
  del s['els'][b][i]
  if s['kind'] == 'ids':
    s['give_batch_size'] = True
    k = -1
    for pos, e in enumerate(s['order']):
      if e == b:
        k += 1
        if k == i:
          del s['order'][pos]
          break
  if s['kind'] == 'padded':
    s['nosizes'] = False


def generic(plan):
  """Simpler variants of a plan over objects and clients."""
  cl = plan['clients']
  for i in range(len(cl)):
    if len([c for c in cl if c]) > 1 and cl[i]:
      p = copy.deepcopy(plan)
      p['clients'][i] = []
      yield p
  for i in range(len(cl)):
    for a, b in chunks(len(cl[i])):
      if b - a < len(cl[i]) or len(cl) > 1:
        p = copy.deepcopy(plan)
        p['clients'][i] = without(cl[i], a, b)
        yield p
  for i, ops in enumerate(cl):
    for k, o in enumerate(ops):
      if o.get('faults'):
        p = copy.deepcopy(plan)
        del p['clients'][i][k]['faults']
        p['clients'][i][k].pop('between', None)
        yield p
      for a, b in chunks(len(o.get('between', ()))):
        p = copy.deepcopy(plan)
        p['clients'][i][k]['between'] = without(o['between'], a, b)
        yield p
      for key, val in (('padded', False), ('pad', False), ('srt', False),
                       ('extra', 0), ('grad', False), ('norm', False),
                       ('ds', False)):
        if o.get(key):
          p = copy.deepcopy(plan)
          p['clients'][i][k][key] = val
          yield p
  used = names_used(plan)
  if any(o['name'] not in used for o in plan['objs']):
    p = copy.deepcopy(plan)
    p['objs'] = [o for o in p['objs'] if o['name'] in used]
    yield p
  for i, o in enumerate(plan['objs']):
    if o['t'] != 'cloud':
      continue
    for e, pts in enumerate(o['els']):
      for a, b in chunks(len(pts)):
        if sum(len(x) for x in o['els']) - (b - a) < 1:
          continue
        p = copy.deepcopy(plan)
        for k in reversed(range(a, b)):
          drop_point(p['objs'][i], e, k)
        yield p
    if o.get('extra'):
      p = copy.deepcopy(plan)
      p['objs'][i]['extra'] = 0
      yield p


def schedules(plan, taken):
  """Explicit schedules with fewer context switches."""
  sched = dict(plan.get('sched') or {})
  if sched.get('switches') is None:
    if not taken:
      return
    p = copy.deepcopy(plan)
    p['sched'] = dict(sched, switches=taken)
    yield p
    return
  sw = sched['switches']
  for a, b in chunks(len(sw)):
    p = copy.deepcopy(plan)
    p['sched'] = dict(sched, switches=without(sw, a, b))
    yield p


def candidates(plan, taken):
  if 'objs' in plan and 'clients' in plan:
    yield from generic(plan)
  for k, v in (plan.get('lists') or {}).items():
    for a, b in chunks(len(v)):
      p = copy.deepcopy(plan)
      p['lists'][k] = without(v, a, b)
      yield p
  yield from schedules(plan, taken)
