#!/bin/bash
# run one file through the harness, showing the panic message
echo "{\"id\":\"x\",\"op\":\"decode\",\"path\":\"$1\"}" > /tmp/one.jobs
: > /tmp/one.out
RLH_PANIC=1 /verif/target/${P:-debug}/rlharness /tmp/one.jobs /tmp/one.out 2>&1 | grep -v RUST_BACKTRACE | head -8
cut -c1-300 /tmp/one.out
