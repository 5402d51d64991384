#!/bin/bash
# Build the monitors (plain, release, AddressSanitizer, ThreadSanitizer) and the examples once; the checks rebuild them when /repo changes.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
import check, examples
sys.exit(0 if all(check.build(k) for k in ("plain", "release", "asan", "tsan")) and examples.build(check) else 1)
P
