import sys
from .core import main
# Avoid the module being known as __main__.core in forked children.
sys.exit(main(sys.argv[1:]))
