#!/bin/bash
# tools/slot.sh SLOT PATCH ID...   run checks against a patched scratch copy of /repo
# (development only; the registered checks run against /repo itself).
set -u
S=/tmp/slot/$1 P=$(realpath "$2"); shift 2
mkdir -p "$S"
rsync -a --delete --exclude target --exclude .git /repo/ "$S/repo/"
rsync -a --exclude target --exclude .git --exclude evidence --exclude seeded /verif/ "$S/verif/"
find "$S/repo" -name "*.rs" -exec touch {} +
sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" "$S/verif/harness/Cargo.toml" "$S/verif/harness/transcript/Cargo.toml"
(cd "$S/repo" && git init -q 2>/dev/null; patch -p1 -s --no-backup-if-mismatch < "$P") || { echo "patch does not apply"; exit 2; }
for id in "$@"; do
    (cd "$S/verif" && ./check.sh "$id" quick) > "$S/out.$id" 2>&1
    rc=$?
    echo "$id rc=$rc $(grep -E '^(shrunk|VIOLATION)' "$S/out.$id" | head -2 | tr '\n' ' ' | cut -c1-220)"
done
