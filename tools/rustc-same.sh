#!/bin/bash
# RUSTC_WRAPPER for the builds with randomised layouts: the layout of a type depends on the crate's metadata, which has to be
# the same in the build that is analysed and in the native one.
args=() p= h=
for a in "$@"; do
    if [ "$p" = --crate-name ] && [ "$a" = harness ]; then h=1; fi
    if [ "$h" ] && [ "$p" = -C ] && [ "${a#metadata=}" != "$a" ]; then a=metadata=0123456789abcdef; fi
    args+=("$a"); p=$a
done
exec "${args[@]}"
