#!/bin/bash
# dev helper: run entries and summarise
cd /verif
for e in "$@"; do bash tools/run.sh $e --stop-on 400; python3 tools/show.py | cut -c1-1500; done
