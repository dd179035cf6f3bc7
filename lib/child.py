import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
harness.child_main(sys.argv[1:])
