"""C02: Adam and AdamW."""
from hypothesis import strategies as st

from vf import optcheck
from vf import spec as specs

ID = 'C02'
RULE = optcheck.RULE
NAMES = ['scale_by_adam', 'adam', 'adamw', 'adamw']


@st.composite
def low(draw):
  """Settings whose intermediate values fit into 16 bits."""
  s = draw(specs.any_of(NAMES))
  s['kw'].update(b1=draw(st.sampled_from([0.0, 0.5, 0.9])),
                 b2=draw(st.sampled_from([0.5, 0.9, 0.99, 0.999])),
                 eps=draw(st.sampled_from([1e-3, 1e-2, 1e-8])))
  s['kw'].pop('eps_root', None)
  return s


LEGS = optcheck.legs(NAMES, 1600, low_specs=low())
