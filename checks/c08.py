"""C08: joined, warm-up, restart, piecewise-interpolated, one-cycle."""
from checks import c07
from vf import sched
from vf.core import Leg

ID = 'C08'
RULE = c07.RULE
LEGS = [Leg('values', lambda ctx: sched.case(sched.composite()), c07.run, 4000,
            x64=None)]
