#!/bin/bash
# build.sh OUTDIR HARNESS [units...]: builds one harness from /repo's working tree
set -e
