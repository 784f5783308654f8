#!/bin/bash
# Nothing to install: checks build what they need. This warms the build of both harnesses.
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" core >/dev/null && bash "$V/build.sh" bevy >/dev/null
