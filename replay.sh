#!/bin/sh
# replay a violation file: exit 1 and a VIOLATION line if it happens again
exec python3 "$(dirname "$0")/check.py" replay "$1"
