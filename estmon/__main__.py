import logging
import os
import sys

from estmon import core

sys.path.insert(0, core.REPO)
import estrade  # noqa

if not os.path.realpath(estrade.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
    sys.exit(f"estrade was imported from {estrade.__file__}, not from {core.REPO}")
logging.disable(logging.CRITICAL)
sys.exit(core.main(sys.argv[1:]))
