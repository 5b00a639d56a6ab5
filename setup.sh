#!/bin/bash
# Nothing to install: the verifier is Python run by the sandbox's own interpreters. Check that they are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
python3-vt -c 'import z3, sys; print("z3", z3.get_version_string())'
/opt/mllm-venv/bin/python -c 'import torch; print("torch", torch.__version__)'
python3-vt -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "."); import dv.driver, dv.pyexec; print("engine ok")'
