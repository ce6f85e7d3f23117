#!/opt/venv/bin/python
"""check.py run <property> | replay <file> | hash <property> (prints the digest of all event logs)"""
import os
import sys

os.environ.update(JAX_PLATFORMS='cpu', XLA_FLAGS='--xla_cpu_multi_thread_eigen=false',
                  OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                  TF_CPP_MIN_LOG_LEVEL='3', PYTHONWARNINGS='ignore')
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vsim import core  # noqa: E402


def main():
    cmd = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if cmd == 'run':
        return core.check(sys.argv[2], seed, sys.argv[3] if len(sys.argv) > 3 else tier)
    if cmd == 'replay':
        return core.replay(sys.argv[2])
    raise SystemExit(__doc__)


if __name__ == '__main__':
    sys.exit(main())
