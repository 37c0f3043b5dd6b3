import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from llvc import check
sys.exit(check.main(sys.argv[1:]))
