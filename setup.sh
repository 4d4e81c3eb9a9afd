#!/bin/bash
# Checks that everything needed to build offline is here (each check builds what it needs itself).
cd /verif && . ./env.sh && cd harness && cargo build --offline --target-dir "$VT"
