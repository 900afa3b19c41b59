#!/bin/bash
# check.sh PROP | setup | replay FILE
cd "$(dirname "$0")" && exec python3 run.py "$@"
