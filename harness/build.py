"""Compile the fault injection shim into the given directory."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(os.path.dirname(HERE), 'native', 'faultshim.c')
out = os.path.join(sys.argv[1], 'faultshim.so')
pre = os.path.join(os.path.dirname(HERE), 'build', 'faultshim.so')
if os.path.exists(pre) and os.path.getmtime(pre) >= os.path.getmtime(src):
    import shutil
    if os.path.abspath(pre) != os.path.abspath(out):
        shutil.copy(pre, out)
else:
    os.makedirs(sys.argv[1], exist_ok=True)
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', out, src,
                           '-ldl'])
os.chmod(out, 0o755)
