#!/bin/sh
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" && exec python3 driver/main.py "$1" "$2"
