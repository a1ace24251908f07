#!/bin/sh
# nothing to download: only checks that the specifications parse
cd "$(dirname "$0")/../spec" && exec tla-sany DaemonTrace.tla >/dev/null
