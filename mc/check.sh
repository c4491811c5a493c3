#!/bin/bash
# usage: check.sh PROP [quick|thorough] [replay JOB CASE]
# Builds the explorer that decides PROP from /repo's working tree and runs it.
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export MC_ROOT=$(dirname "$HERE") CARGO_TARGET_DIR=$HERE/target
unset CARGO_INCREMENTAL
cd "$HERE" || exit 2
case $P in
  P02|P03|P04|P05|P06) BIN=gram ;;
  P07|P08|P09|P10|P11|P12|P13|P14|P21|P23) BIN=parse ;;
  P15|P16|P17|P24|P26) BIN=sets ;;
  P18) BIN=hist ;;
  P01) BIN=lexing ;;
  P19) BIN=sched ;;
  P20|P22|P25) BIN=prog ;;
  *) echo "no check for $P" >&2; exit 2 ;;
esac
LOG=$(mktemp)
if ! cargo build --offline --quiet --bin $BIN >"$LOG" 2>&1; then
  cat "$LOG" >&2; rm -f "$LOG"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
if [ $BIN = prog ]; then
  # the library that the generated programs are compiled against
  PROG_RLIB=$(cargo build --offline --quiet --bin prog --message-format=json 2>/dev/null | grep '"name":"teleparse"' | grep -o '"[^"]*/libteleparse[^"]*\.rlib"' | tr -d '"' | tail -1)
  [ -f "$PROG_RLIB" ] || { echo "cannot find the built library" >&2; exit 2; }
  export PROG_RLIB
fi
rm -f "$LOG"
exec "$CARGO_TARGET_DIR/debug/$BIN" "$P" "$TIER" "$@"
