"""Where things are. The code under test is /repo's working tree (VERIF_REPO overrides it for development only)."""
import os
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
FAKE = VERIF / "fakefem"


def use_repo():
    """Make `import dxss` load the working tree, without the finite element library."""
    for p in (str(SRC),):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def use_standin():
    """... and with the DOLFINx stand-in."""
    use_repo()
    p = str(FAKE)
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
