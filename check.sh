#!/bin/bash
# check.sh PROPERTY quick|thorough
exec python3-vt "$(dirname "$(realpath "$0")")/vc/driver.py" "$1" "$2"
