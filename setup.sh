#!/bin/bash
# Builds the checker once (also proves that the committed files suffice).
cd "$(dirname "$0")" || exit 1
./run.sh selfcheck
