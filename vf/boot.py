"""Makes optax (from /repo's working tree) and Hypothesis importable."""
import os
import sys
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')

sys.path.insert(0, REPO)
sys.path.append(os.path.join(HERE, 'third_party'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
if '/opt/optax-compat' not in sys.path:
  sys.path.append('/opt/optax-compat')

import jax_removed_names  # pylint: disable=unused-import
import logging
import jax
import optax

logging.getLogger().setLevel(logging.CRITICAL)
logging.getLogger('absl').setLevel(logging.CRITICAL)
warnings.filterwarnings('ignore')

assert os.path.realpath(optax.__file__) == os.path.realpath(
    os.path.join(REPO, 'optax', '__init__.py')), optax.__file__


def set_x64(on):
  jax.config.update('jax_enable_x64', bool(on))
