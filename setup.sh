#!/bin/bash
# nothing to install: verify that the interpreter, solver and compilers are there
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONPATH=/repo:$PWD PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import vf.boot, z3, sympy, numpy; print('z3', z3.get_version_string())" || exit 1
clang++ --version | head -1 && g++ --version | head -1
