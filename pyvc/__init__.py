"""pyvc -- contract-based deductive verification of the real Python code.

See DESIGN.md.  `ctx` (mode-independent API, concrete mode) has no
dependency on z3; `sym` holds the symbolic proxies and the path explorer.
"""
from .ctx import (  # noqa: F401
    harness, REGISTRY, and_, or_, not_, implies, if_, eq_, iff, min_, max_,
    AssumeFailed, ContractViolation, Unsupported, PathAbort,
)
