#!/bin/bash
# RUSTC_WRAPPER of the harness builds: makes pinocchio's syscalls real external
# symbols (the harness defines them) and switches on the program's event hook.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  pinocchio|pinocchio_log|pinocchio_pubkey|pinocchio_system|pinocchio_token|pinocchio_associated_token_account)
    exec "$rustc" "$@" -Aexplicit_builtin_cfgs_in_flags --cfg 'target_os="solana"' ;;
  xorca_staking_program)
    exec "$rustc" "$@" --cfg xorca_verif ;;
  *) exec "$rustc" "$@" ;;
esac
