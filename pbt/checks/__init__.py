import sys

import starks
from pbt.core import REPO

starks.__path__.append(REPO + '/misc')  # misc modules import each other as starks.X
sys.path.append(REPO + '/misc')  # the blockchain node is a script of that folder

from pbt.checks import numbers, polys, multi, interp, binary, fft, merkle, proofs, misc, chain, large, processes, placement, concurrent, longer, bigger, refusals, similar, repeats, reach  # noqa
