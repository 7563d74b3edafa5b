#!/bin/sh
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
exec python3 "$(dirname "$0")/dv/main.py" "$@"
