#!/bin/bash
# usage: check.sh P01   (run in /verif)
cd "$(dirname "$0")" && exec python3 sa/main.py "$@"
