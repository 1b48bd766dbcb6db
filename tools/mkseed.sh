#!/bin/bash
# mkseed.sh ID : stores the working-tree diff of the scratch copy ${SEEDREPO:-/tmp/sd} as seeded/ID/patch.diff and resets the copy
set -e
d=/verif/seeded/$1; mkdir -p "$d"
git -C ${SEEDREPO:-/tmp/sd} diff > "$d/patch.diff"
git -C ${SEEDREPO:-/tmp/sd} checkout -q -- .
wc -l "$d/patch.diff"
