#!/bin/bash
# prep.sh OUT [with-tests]: lay out a buildable copy of /repo's integrator (src/) in OUT, with the stand-ins it needs.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
mkdir -p "$out/new/src"
cp -r "$repo/src/." "$out/new/src/"
[ "$2" = with-tests ] || rm -rf -- "$out/new/src/tests"
[ -e "$out/new/src/linear.rs" ] || [ -e "$out/new/src/linear/mod.rs" ] || cp "$here/overlay/linear.rs" "$out/new/src/"
[ -e "$out/new/src/nonlinear.rs" ] || [ -e "$out/new/src/nonlinear/mod.rs" ] || cp "$here/overlay/nonlinear.rs" "$out/new/src/"
if [ -e "$here/overlay/verif_hooks.rs" ]; then
    cp "$here/overlay/verif_hooks.rs" "$out/new/src/"
    python3 "$here/overlay/adapt.py" apply "$out/new/src" "$here/overlay/fields.txt" "$out/new/src/verif_hooks.rs" || true
    printf '\n#[cfg(feature = "verif_hooks")]\npub mod verif_hooks;\n' >>"$out/new/src/lib.rs"
fi
sed "s#@SHIMS@#$here/shims#; s#@REPO@#$repo#" "$here/overlay/Cargo.toml" >"$out/new/Cargo.toml"
# keep time stamps of unchanged files, so that nothing is rebuilt needlessly
mkdir -p "$out/src"
rsync -rc --delete "$out/new/src/" "$out/src/" 2>/dev/null || { rm -rf -- "$out/src"; cp -r "$out/new/src" "$out/src"; }
cmp -s "$out/new/Cargo.toml" "$out/Cargo.toml" || cp "$out/new/Cargo.toml" "$out/Cargo.toml"
rm -rf -- "$out/new"
