#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed n] [--only group:case]
exec python3 "$(dirname "$(readlink -f "$0")")/check.py" "$@"
