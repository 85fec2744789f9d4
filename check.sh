#!/bin/bash
# Decide one property on /repo's current working tree.
set -u
cd "$(dirname "$0")"
source ./extract.sh
W=$(mktemp -d /tmp/rspolib-sa.XXXXXX) || exit 3
trap 'case "$W" in /tmp/rspolib-sa.*) rm -rf -- "$W";; esac' EXIT
extract "$W" || { echo "extraction failed"; exit 3; }
python3 sa/main.py "$1" "$W/facts/rspolib.json" "$W/facts/py-rspolib.json"
