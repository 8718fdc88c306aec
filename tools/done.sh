#!/bin/bash
# done.sh PROPERTY "message": regenerate the manifest and commit
cd /verif && python3-vt tools/manifest.py && python3-vt tools/design.py && git add -A && git commit -qm "$1" && git status --short | head -3
