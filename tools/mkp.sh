#!/bin/bash
# mkp.sh <args of mkpatch.py>: the same, on a private copy of /repo that only this process sees.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/mkp.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"
unshare -Urm bash -c 'mount --bind "$0/repo" /repo; mount --bind "$0/vp" /opt/vp; w=$0; shift 0; cd "$1"; shift; exec python3 tools/mkpatch.py "$@"' "$w" "$root" "$@"
