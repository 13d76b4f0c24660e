"""P17: attention backward."""
from .common import *
from vp.cxx import *
from .attnspec import *

PROOFS = list(BACKWARD_OPS)
