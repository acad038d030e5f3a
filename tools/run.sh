#!/bin/bash
# run.sh Cxx [tier] [seed]: run and summarise
cd "$(dirname "$0")/.."; t=$SECONDS
/opt/venv/bin/python check.py $1 --tier ${2:-quick} --seed ${3:-1} > /tmp/run_$1.log 2>&1; rc=$?
echo "$1 tier=${2:-quick} seed=${3:-1} rc=$rc t=$((SECONDS-t))"; tail -${4:-12} /tmp/run_$1.log | cut -c1-600
