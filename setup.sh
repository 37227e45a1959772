#!/bin/bash
# builds the harness (debug and release) from the current /repo tree
cd "$(dirname "$(readlink -f "$0")")/lib" && exec python3-vt -c "
import common
common.build('dev'); common.build('release'); print('ok')"
