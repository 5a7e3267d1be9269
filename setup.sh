#!/bin/sh
# builds the IR dumper (engine/irdump.cpp); the checks build it themselves too when it is missing
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 -c "import sys; sys.path.insert(0,'engine'); import units; print(units.tool())"
