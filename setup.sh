#!/bin/bash
# nothing to build: the checks import the code under test from /repo.  Fails early if the interpreter or the library is missing.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -W ignore -c 'import sys; sys.path[:0] = [".", "/repo"]; import mc.adapter'
