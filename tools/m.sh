#!/bin/bash
# tools/m.sh PROP file <<< 'old\n====\nnew'
exec python3 /verif/tools/mut.py "$1" "$2"
