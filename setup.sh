#!/bin/bash
# Warms the build cache; every check builds what it needs itself from /repo's current tree.
set -e
cd "$(dirname "$0")"
python3 -c "import lib, tempfile; c = lib.Check('setup', 'quick'); c.build(); import shutil; shutil.rmtree(c.work)"
