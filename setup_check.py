"""nothing is compiled; this confirms that the interpreters and solvers are there"""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import ZODB, BTrees, persistent, pyld'])
q = subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-c', 'import z3'])
sys.exit(1 if r.returncode or q.returncode else 0)
