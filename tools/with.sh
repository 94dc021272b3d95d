#!/bin/bash
# with.sh PATCH CMD...: run CMD with /repo replaced, in a mount namespace of its own, by a patched copy; the real one is not touched
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/with.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo" && git -C "$d/repo" apply "$p" || { echo "does not apply"; exit 2; }
cp -a /verif/. "$d/verif" 2>/dev/null
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && exec "$@"' "$d" "$@"
