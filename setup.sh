#!/bin/bash
# Nothing to build: pure Python run from /repo/src.  Checks that the interpreter can import what the checks need.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
from sim import boot, core, spec, build
import gym_electric_motor, gem_controllers
print('ready:', gym_electric_motor.__file__)"
