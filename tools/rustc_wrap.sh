#!/bin/bash
# RUSTC_WRAPPER for the MIR build: drops two nightly-only cfgs that ahash's build script switches on, and records the
# command line of the harness crate for the MIR server.
args=("$@")
if [ "$CARGO_PKG_NAME" = ahash ]; then
  out=(); i=0
  while [ $i -lt ${#args[@]} ]; do
    a="${args[$i]}"; b="${args[$((i+1))]}"
    if [ "$a" = --cfg ] && { [ "$b" = 'feature="stdsimd"' ] || [ "$b" = 'feature="specialize"' ]; }; then i=$((i+2)); continue; fi
    out+=("$a"); i=$((i+1))
  done
  exec "${out[@]}"
fi
if [ "$CARGO_CRATE_NAME" = verif_harness ] && [ -n "$VF_ARGS_FILE" ]; then printf '%s\0' "${args[@]}" > "$VF_ARGS_FILE"; fi
exec "${args[@]}"
