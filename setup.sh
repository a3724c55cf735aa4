#!/bin/sh
# Nothing to build: checks that the code under test can be imported.
cd "$(dirname "$0")" || exit 1
for py in /opt/venv/bin/python /opt/veriftools/pyvenv/bin/python3 python3; do
    if command -v "$py" >/dev/null 2>&1 &&
        "$py" -B -c 'import typing_extensions' >/dev/null 2>&1; then
        exec "$py" -B -c 'import sys; sys.path.insert(0, "/repo/src")
import reparsec; print("reparsec from", reparsec.__file__)'
    fi
done
exit 1
