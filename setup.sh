#!/bin/bash
# builds the checker and everything the generated programs depend on
set -eu
ROOT="$(cd "$(dirname "$0")" && pwd)"
"$ROOT/run.sh" prepare
