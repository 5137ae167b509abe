#!/bin/bash
# dev helper
cd /verif; E=$1; shift
engine/target/release/symex --ll .build/a.ll --entry $E --replay .build/replay --workers 8 --time 100 --out .build/o.json "$@" 2>&1 | tail -30 | cut -c1-600
