#!/bin/bash
# Builds the framework once, so that an environment in which it cannot be
# built is found before any check runs.
here=$(cd "$(dirname "$0")" && pwd)
VERIF_TIER=quick "$here/check.sh" SELF
