#!/bin/bash
# builds the extractor and the native harnesses from the committed files
set -e
cd "$(dirname "$0")/.."
(cd extract && cargo build --offline --release -q)
for h in harness/*/; do (cd "$h" && cargo build --offline -q); done
