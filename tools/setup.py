"""builds the SSA front end (offline); checks rebuild it themselves when it is missing"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
print(run.build_dumper())
