#!/bin/bash
# run.sh Cxx : run one check (from /verif)
cd "$(dirname "$0")" || exit 3
p=$(echo "$1" | tr 'A-Z' 'a-z')
exec python3-vt -m "checks.$p"
