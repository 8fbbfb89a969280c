import sys

from vlib.core import main

sys.exit(main(sys.argv[1:]))
