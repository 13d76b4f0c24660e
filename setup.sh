#!/bin/bash
# nothing to install: checks use the pre-installed z3 venv and /opt/venv; just verify they are there
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/veriftools/pyvenv/bin/python3 -c "import z3" && test -x /opt/venv/bin/python && echo setup ok
