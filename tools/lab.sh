#!/bin/bash
# lab.sh N COMMAND...: run a command in private copies of /repo and /verif (a mount namespace of its own; the
# copies live in /tmp/lab/N and are refreshed from the working trees, target/ is kept). For trying out changes.
n=$1; shift
L=/tmp/lab/$n; mkdir -p "$L/repo" "$L/verif"
rsync -a --delete --exclude /target /repo/ "$L/repo/" && rsync -a --delete --exclude /target --exclude /.git /verif/ "$L/verif/" || exit 2
export LAB=$L
exec unshare -m bash -c 'mount --bind "$LAB/repo" /repo && mount --bind "$LAB/verif" /verif && cd /verif && exec "$@"' lab "$@"
