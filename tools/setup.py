"""Nothing is compiled: checks that the tools the framework needs are there."""
import subprocess, sys
a = subprocess.run(['python3-vt', '-c', 'import z3, sys; sys.path.insert(0, "."); import pyvc.core; print(z3.get_version_string())'])
b = subprocess.run(['/opt/venv/bin/python', '-c', 'import cryptography, idna; print(cryptography.__version__)'])
sys.exit(a.returncode or b.returncode)
