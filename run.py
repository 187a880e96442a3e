#!/opt/venv/bin/python
"""Entry point of every check:  run.py Cnn [--tier quick|thorough] [--job N] | --replay FILE"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# only z3 (and cvc5) come from the tools' environment; numpy & co. are the project's own
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
if __name__ == '__main__':
    from sym import runner
    sys.exit(runner.main(sys.argv[1:]))
