#!/bin/bash
# Builds the model checker once, to show that it builds and to warm the build
# cache. Every check builds what it needs by itself.
bash /verif/run.sh --build-only
