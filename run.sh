#!/bin/bash
# run.sh ID... : runs quick checks, short output
cd /verif
for i in "$@"; do echo "=== $i"; python3 check.py $i ${TIER:-quick} 2>&1 | grep -v "rate:\|Save into\|restart read\|^(/\|ccache g++\|^    #.*std::\|pbt.cc:" | cut -c1-400 | head -${LINES_MAX:-30}; done
