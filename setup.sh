#!/bin/bash
# setup_cmd: builds the analysers and warms their caches
set -e
export V=$(cd "$(dirname "$0")" && pwd)
"$V/build_ir.sh"
python3 -c 'import os, sys; V = os.environ["V"]; sys.path.insert(0, V + "/lib"); import caches; caches.build(V, V + "/build")'
