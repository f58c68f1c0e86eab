#!/bin/bash
# run.sh <property-id>          rebuild from /repo's working tree and run that check
# run.sh replay <replay-file>   rebuild and re-run one recorded case
# run.sh build                  rebuild only
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough, default quick)
export VERIF_DIR
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR/harness" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# never trust time stamps: the library is always compiled from the present working tree
cargo clean --release --offline -p visdom >/dev/null 2>&1
log="$(mktemp)"
if ! cargo build --release --offline >"$log" 2>&1; then
	cat "$log" >&2
	rm -f "$log"
	echo "error: the harness does not build against /repo" >&2
	exit 2
fi
rm -f "$log"
case "$1" in
	build) exit 0 ;;
	replay) exec ./target/release/vh replay "$2" ;;
	"") echo "usage: run.sh <property-id> | replay <file> | build" >&2; exit 2 ;;
	*) exec ./target/release/vh run "$1" ;;
esac
