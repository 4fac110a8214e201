# -*- coding: utf-8 -*-
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(1, os.path.join(os.path.dirname(here), 'checks'))
import vh
import importlib
if __name__ == '__main__':
    pid = sys.argv[1]
    vh.import_repo()
    check = importlib.import_module(pid.lower())
    code = vh.main(check, sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
