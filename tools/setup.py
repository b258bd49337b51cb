"""setup_cmd: nothing to build; checks that the tools are there and that the
verifier's term layer agrees with CPython integers."""
import os, subprocess, sys, shutil
here = os.path.dirname(os.path.abspath(__file__))
exe = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
sys.exit(subprocess.call([exe, os.path.join(here, 'selftest.py')]))
