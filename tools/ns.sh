#!/bin/bash
# Runs a command with scratch copies of /repo and /verif mounted over both, in a mount namespace of its own:
# several planted bugs can be tried at once and the real trees stay as they are.
set -u
W=$(mktemp -d /tmp/ns.XXXXXX); cp -a /repo "$W/repo"; cp -a /verif "$W/verif"
trap 'find "$W" -depth -delete' EXIT
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && shift 0 && exec "$@"' "$W" "$@"
