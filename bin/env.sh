. /opt/vp/env.sh 2>/dev/null || true
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
