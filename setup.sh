#!/bin/bash
# Nothing to build: magnopy is pure Python and is imported from /repo/src.
cd "$(dirname "${BASH_SOURCE[0]}")" && mkdir -p evidence && bash run.sh --self-test
