"""nothing to build: only checks that the tools the checks need are here"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, pydv.verify
subprocess.run(['cvc5', '--version'], check=True, stdout=subprocess.DEVNULL)
print('ok')
