#!/bin/bash
# Build the harness and the command line tool from /repo's working tree.
cd "$(dirname "$0")" && exec python3 -c "
from vlib import core
print(core.build_harness()); print(core.build_cli())"
