import sys

from mc.core import replay

sys.exit(replay(sys.argv[1]))
