#!/bin/bash
# Builds every harness command once, so that the checks find a warm build cache.
exec bash "$(dirname "$0")/build.sh" dump dump-race rd net cli gpgpdump
