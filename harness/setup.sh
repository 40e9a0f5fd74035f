#!/bin/bash
# compiles the Java override of spec/Fx.tla (checks do it themselves if it is missing)
cd "$(dirname "$0")/.." && /opt/venv/bin/python -c 'import sys; sys.path.insert(0,"harness"); import core; core.ensure_java()'
