"""import the real agentspeak from /repo (never writing byte code there)"""
import sys, os
sys.dont_write_bytecode = True
REPO = os.environ.get('PYDV_REPO', '/repo')
sys.path.insert(0, REPO)
if '/opt/venv/lib/python3.12/site-packages' not in sys.path: sys.path.append('/opt/venv/lib/python3.12/site-packages')
import agentspeak, agentspeak.runtime, agentspeak.stdlib, agentspeak.parser, agentspeak.lexer, agentspeak.util
assert os.path.realpath(agentspeak.__file__).startswith(os.path.realpath(REPO)), agentspeak.__file__
