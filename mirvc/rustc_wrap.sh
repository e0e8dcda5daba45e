#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: dump the MIR of the repository's library crates, then compile normally.
rustc="$1"; shift
name=""; prev=""; lib=0
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$prev" = "--crate-type" ] && [ "$a" = lib ] && lib=1
  prev="$a"
done
if [ $lib = 1 ]; then
  case "$name" in
    utils|logic_formula|cryptovampire)
      RUSTC_BOOTSTRAP=1 "$rustc" "$@" -Zunpretty=mir -Copt-level=0 -Cdebug-assertions=off -Coverflow-checks=off \
        -Ztrim-diagnostic-paths=no --cap-lints allow -o "$MIRVC_OUT/$name.mir" || exit 3;;
  esac
fi
exec "$rustc" "$@"
