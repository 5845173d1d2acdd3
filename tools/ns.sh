#!/bin/bash
# development helper: ns.sh COMMAND...   runs it with scratch copies of /repo and /verif mounted over the real ones
# (so that planted bugs can be tried while something else uses /repo)
set -e
w=${NS_DIR:-/tmp/w}
mkdir -p $w
[ -d $w/repo ] || cp -a /repo $w/repo
[ -d $w/verif ] || cp -a /verif $w/verif
if [ "$(git -C /repo rev-parse HEAD)" != "$(git -C $w/repo rev-parse HEAD)" ]; then
  git -C $w/repo fetch -q /repo HEAD && git -C $w/repo reset -q --hard FETCH_HEAD
fi
cp -a --no-preserve=timestamps -u /verif/tools /verif/*.sh /verif/KNOWN_FINDINGS.txt $w/verif/
cp -u --no-preserve=timestamps /verif/harness/Cargo.* $w/verif/harness/
for d in harness/src harness/shim seeded; do
  mkdir -p $w/verif/$d
  # keep times of unchanged files, for cargo
  (cd /verif/$d; find . -type f) | while read -r f; do
    cmp -s "/verif/$d/$f" "$w/verif/$d/$f" || { mkdir -p "$(dirname "$w/verif/$d/$f")"; cp "/verif/$d/$f" "$w/verif/$d/$f"; }
  done
done
exec unshare -m bash -c 'mount --bind "$0"/repo /repo; mount --bind "$0"/verif /verif; cd /verif; exec "$@"' $w "$@"
