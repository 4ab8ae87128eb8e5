'checks that the tools the framework needs are present; nothing has to be built'
import os, shutil, subprocess, sys
vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
subprocess.check_call([vt, '-c', 'import z3'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, swiglpk'])
print('ok')
