#!/bin/bash
# dev helper: run.sh MOD PROP [VARIANT]
B=/verif/build/dev$3; mkdir -p $B
make -s -j8 -f /verif/harness/Makefile B=$B MOD=$1 ${3:+VARIANT=$3} && T=$(mktemp -d) && $B/mc_$1 $2 /verif $T; echo "exit $?"; 
