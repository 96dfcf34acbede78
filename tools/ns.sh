#!/bin/bash
# Development tool: tools/ns.sh DIR COMMAND... - runs COMMAND in a mount namespace of its own where /verif and /repo are
# scratch copies kept in DIR, so that planted bugs can be tried while something else uses the real ones.
d=$1; shift
mkdir -p $d/verif $d/repo
rsync -a --delete --exclude target --exclude .git /verif/ $d/verif/
[ -d $d/verif/target ] || cp -a /verif/target $d/verif/ 2>/dev/null
rsync -a --delete --exclude target /repo/ $d/repo/
exec unshare -Urm bash -c 'mount --bind '$d'/verif /verif && mount --bind '$d'/repo /repo && cd /verif && exec "$@"' x "$@"
