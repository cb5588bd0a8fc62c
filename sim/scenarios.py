"""All scenarios by property."""
from sim import scen, scen2  # noqa: F401  pylint: disable=unused-import


def get(prop):
  if prop == 'C19':
    import sim.scen_gpu  # noqa: F401  pylint: disable=unused-import
  elif prop == 'C22':
    import sim.scen_fn  # noqa: F401  pylint: disable=unused-import
  elif prop == 'C23':
    import sim.scen_grad  # noqa: F401  pylint: disable=unused-import
  elif prop == 'C24':
    import sim.scen_ckpt  # noqa: F401  pylint: disable=unused-import
  elif prop == 'C25':
    import sim.scen_train  # noqa: F401  pylint: disable=unused-import
  elif prop == 'C27':
    import sim.scen_args  # pylint: disable=unused-import
  elif prop == 'C26':
    import sim.scen_batch  # noqa: F401  pylint: disable=unused-import
  elif prop not in scen.SCENARIOS:
    import sim.scen_io  # noqa: F401  pylint: disable=unused-import
  return scen.SCENARIOS[prop]
