#!/bin/bash
# setup.sh: build the explorers from the committed files.
cd "$(dirname "$0")" && ./build.sh mc mcpy && { ./build.sh mcx || true; }
