"""checks that what the checks need is there; nothing is built in /repo"""
import sys, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True); os.makedirs(os.path.join(H, 'replay'), exist_ok=True)
import z3
print('z3', z3.get_version_string())
for c in (['/opt/venv/bin/python', '-c', 'import numpy, scipy; print("numpy", numpy.__version__)'],):
    print(subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout.strip())
s = z3.Solver(); x = z3.Real('x'); s.add(x * x < 0); assert s.check() == z3.unsat
print('setup ok')
