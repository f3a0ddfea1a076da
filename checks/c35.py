"""C35: identity, scale, decayed weights, centralisation."""
from hypothesis import strategies as st

from vf import optcheck
from vf import spec as specs

ID = 'C35'
RULE = optcheck.RULE
NAMES = ['identity', 'scale', 'scale', 'add_decayed_weights',
         'add_decayed_weights', 'additive_weight_decay', 'centralize',
         'centralize', 'centralize']
LEGS = optcheck.legs(NAMES, 2400, low_specs=specs.any_of(NAMES))
