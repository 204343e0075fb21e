#!/bin/bash
# Builds the analyser and the standard-library metadata for the other targets (offline).
set -e
cd "$(dirname "$0")"
(cd engine && cargo +nightly build --release --offline)
python3 -c "
import harness, os
from concurrent.futures import ThreadPoolExecutor
os.makedirs(os.path.join(harness.VERIF, 'target'), exist_ok=True)
def more(t):
    try: harness.target_sysroot(t)
    except harness.BuildError as e: print(e)
with ThreadPoolExecutor(5) as ex:
    m = ex.map(more, harness.MORE_TARGETS)
    list(ex.map(harness.target_sysroot, harness.TARGETS))
    list(m)
"
