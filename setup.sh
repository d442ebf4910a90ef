#!/bin/sh
# Everything is interpreted Python; only check that the interpreter and PyX are there.
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pyx, numpy'
