"""Common start of every check script."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from acv import env  # noqa: E402

env.load()
