from .core import Spec  # noqa: F401
from .specs import fluid, aniso, avo, bw, emp, perm, em, gm, qi, sized, si  # noqa: F401
