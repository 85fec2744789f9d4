#!/bin/bash
# Build the fact extractor.
set -eu
cd "$(dirname "$0")"
source ./extract.sh
build_driver
