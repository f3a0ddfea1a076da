#!/opt/venv/bin/python
"""Entry point of the verification machinery.

  run.py check C01           decide one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE         re-run one saved case without Hypothesis
  run.py selftest            check that the machinery can start
  run.py worker ...          (internal) one shard of a check
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def _env():
  env = dict(os.environ)
  env.update(
      PYTHONPATH='/opt/optax-compat', JAX_PLATFORMS='cpu',
      PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
      OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3',
      PYTHONWARNINGS='ignore', VF_CHILD='1',
      XLA_FLAGS=('--xla_cpu_multi_thread_eigen=false '
                 'intra_op_parallelism_threads=1 '
                 '--xla_force_host_platform_device_count=1'))
  return env


if __name__ == '__main__':
  sys.path.insert(0, HERE)
  if os.environ.get('VF_CHILD') != '1' and sys.argv[1:2] != ['check']:
    os.chdir(HERE)
    os.execve(PY, [PY, os.path.join(HERE, 'run.py')] + sys.argv[1:], _env())
  cmd = sys.argv[1] if len(sys.argv) > 1 else ''
  if cmd == 'check':
    from vf import runner
    sys.exit(runner.check(sys.argv[2], _env()))
  elif cmd == 'worker':
    from vf import worker
    sys.exit(worker.main(sys.argv[2:]))
  elif cmd == 'replay':
    from vf import worker
    sys.exit(worker.replay(sys.argv[2]))
  elif cmd == 'selftest':
    from vf import worker
    sys.exit(worker.selftest())
  else:
    print(__doc__)
    sys.exit(2)
