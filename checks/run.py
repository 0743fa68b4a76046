"""run.py CHECK [quick|thorough] [--only=PATTERN]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner

if __name__ == '__main__':
    runner.main(sys.argv[1], sys.argv[2:])
