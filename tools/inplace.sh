#!/bin/bash
# inplace.sh CMD... : runs CMD where /repo is a copy of the repository (a private mount namespace); the real one is not touched
# with VSNAP=1, /verif is a copy as well, so editing can go on meanwhile
d=$(mktemp -d /tmp/inplace.XXXXXX) || exit 1
cp -a /repo "$d/repo"
if [ -n "$VSNAP" ]; then cp -a /verif "$d/verif"; fi
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && { [ ! -d "$0/verif" ] || mount --bind "$0/verif" /verif; } && cd /verif && "$@"' "$d" "$@"
rc=$?
python3 -c "import shutil,sys; shutil.rmtree(sys.argv[1])" "$d"
exit $rc
