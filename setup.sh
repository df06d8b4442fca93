#!/bin/bash
# Nothing is installed: every check builds its harness from /repo itself. This
# only warms the Go build cache, so that the first check is not slowed down.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
command -v go >/dev/null && command -v python3 >/dev/null || { echo "go or python3 missing"; exit 1; }
(cd "$here/mc/gen" && GO111MODULE=off go vet . >/dev/null 2>&1 || true)
exit 0
