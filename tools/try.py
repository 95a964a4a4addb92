"""build and run one explorer by hand: try.py harness variant [arguments]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
os.execv(*(lambda b: (b, [b] + sys.argv[3:]))(run.harness(sys.argv[1], sys.argv[2])))
