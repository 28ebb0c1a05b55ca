#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] [--replay FILE] : decide one property against /repo's working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
exec /opt/venv/bin/python -I "$HERE/mc/launch.py" "$@"
