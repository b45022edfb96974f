"""Entry point: main.py <PROPERTY> <tier>   |   main.py --replay <file>."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import harness  # noqa: E402  (sets sys.path for the repo and hypothesis)


def main(argv):
  if argv and argv[0] == '--replay':
    return harness.replay(argv[1])
  prop = argv[0]
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  only = argv[2] if len(argv) > 2 else None
  os.environ['VERIF_TIER'] = tier
  mod = importlib.import_module('checks.' + prop.lower())
  return harness.run(mod, prop, tier, only)


if __name__ == '__main__':
  try:
    rc = main(sys.argv[1:])
  except SystemExit:
    raise
  except BaseException as e:  # harness error: neither 0 nor 1
    import traceback
    traceback.print_exc()
    print('HARNESS-ERROR:', repr(e)[:500])
    rc = 2
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
