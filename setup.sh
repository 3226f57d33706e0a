#!/bin/bash
# nothing to compile: the framework is Python run by the interpreter of the repository's own environment
cd "$(dirname "$0")" && mkdir -p evidence/replay && /opt/venv/bin/python -m py_compile gv/core.py && rm -rf gv/__pycache__
