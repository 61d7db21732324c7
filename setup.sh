#!/bin/bash
# builds the analyzer from the committed sources
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
build_dxa
