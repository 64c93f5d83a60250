#!/bin/bash
# Builds the harness a property needs from /repo's current working tree and runs it.
#   tools/run.sh check <property> | thorough <property> | replay <file> | list
# Exit 0: held; 1: VIOLATION printed; anything else: the check could not decide (build failure, stuck).
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
cmd=${1:-}; arg=${2:-}
case $cmd in
  check) prop=$arg ;;
  thorough) prop=$arg; export VERIF_TIER=thorough ;;
  replay) prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$arg") || exit 2 ;;
  build) prop=$arg ;;
  *) echo "usage: run.sh check|thorough|replay ..." >&2; exit 2 ;;
esac
bin=vf; dir=harness; extra=
case $prop in
  P10|P11|P12|P13) # one build per property: only the hook it needs is compiled
    bin=vfi; dir=harness_int; low=${prop/P/p}
    export CARGO_TARGET_DIR="$PWD/target_int_$low" RUSTFLAGS="--cfg verif_hooks=\"$low\""
    case $prop in P11|P12) extra="--features sim" ;; esac ;;
  P09|P16|P17|P22) bin=vfl; dir=harness_lib ;;
  P18|P19) bin=vfn; dir=harness_net ;;
  P21) bin=vfs; dir=harness_db ;;
esac
t0=$SECONDS
if ! cargo +stable build --locked --manifest-path $dir/Cargo.toml $extra >/tmp/vf_build.$$ 2>&1; then
  # a failure that is not the compiler's (an interrupted or raced build) gets one more try
  if ! cargo +stable build --locked --manifest-path $dir/Cargo.toml $extra >/tmp/vf_build.$$ 2>&1; then
    tail -60 /tmp/vf_build.$$ >&2; rm -f /tmp/vf_build.$$
    echo "ERROR: the harness does not build against /repo" >&2
    exit 4
  fi
fi
rm -f /tmp/vf_build.$$
if [ "$prop" = P21 ]; then
  # two crates have a gen_cert
  mkdir -p target_repo/tools
  for c in mpc-net iris-mpc plain-reference; do
    cargo +stable build --offline --manifest-path /repo/Cargo.toml --target-dir "$PWD/target_repo" -p $c --bins >/tmp/vf_build.$$ 2>&1 || {
      tail -60 /tmp/vf_build.$$ >&2; rm -f /tmp/vf_build.$$; echo "ERROR: the tools do not build" >&2; exit 4; }
    case $c in
      mpc-net) cp target_repo/debug/gen_cert target_repo/tools/gen_cert_net ;;
      iris-mpc) cp target_repo/debug/gen_cert target_repo/debug/create_sample_data target_repo/tools/ ;;
      *) cp target_repo/debug/create_sample_data_plain target_repo/debug/find_match target_repo/tools/ ;;
    esac || exit 4
  done
  rm -f /tmp/vf_build.$$
fi
echo "build: $((SECONDS - t0)) s" >&2
exe="${CARGO_TARGET_DIR:-$PWD/target}/debug/$bin"
case $cmd in
  check|thorough) exec "$exe" check "$prop" ${3:-} ;;
  replay) exec "$exe" replay "$arg" ;;
  build) exit 0 ;;
esac
