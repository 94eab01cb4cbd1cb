#!/bin/bash
# nothing to install: checks that the interpreter, the solver and the compilers are there
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import numpy, Cython
from vsym import core, llvm, cyx, snp
" && clang --version >/dev/null && gcc --version >/dev/null && echo ready
