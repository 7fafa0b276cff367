#!/bin/bash
# Checks the tools and builds the conformance drivers once (every check builds
# them again from /repo's working tree).
set -e
cd "$(dirname "$0")"
command -v java cargo python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import sys; sys.path.insert(0, "."); import check; check.os.makedirs(check.BUILD, exist_ok=True); [check.cargo_build(c) for c in check.CRATES]; [check.cargo_build("harness", *v) for v in check.VARIANTS.values()]; check.cargo_build("harness", ("--features", "threads")); check.program_build(); check.sim_library()'
echo ok
