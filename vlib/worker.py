import sys
from vlib.harness import worker
worker(sys.argv[1:])
