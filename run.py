#!/opt/venv/bin/python
"""Entry point of every check.

  run.py C01 [--tier quick|thorough]     decide one property on /repo's current tree
  run.py replay FILE                     run the failing input of a replay file again
  run.py setup                           sanity checks of the tool chain
"""
import os, sys
for _k, _v in (('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('MPLBACKEND', 'Agg'), ('PYTHONDONTWRITEBYTECODE', '1'), ('TQDM_DISABLE', '0'), ('PYTHONHASHSEED', '0')):
    os.environ[_k] = _v
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from kv import driver        # noqa: E402

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
