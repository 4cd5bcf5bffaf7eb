import os
import sys


def install():
    """plain CPython on the untouched code"""
    sys.dont_write_bytecode = True
    src = os.environ.get('VC_SRC', '/repo/src')
    vs = '/opt/venv/lib/python3.12/site-packages'
    sys.path.insert(0, src)
    if vs not in sys.path:
        sys.path.append(vs)
