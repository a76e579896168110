#!/bin/bash
# Builds the driver, the command-line tool and TLC's arithmetic class from /repo's working tree.
cd "$(dirname "$0")" && exec python3 -B -c 'from lib import core; core.build()'
