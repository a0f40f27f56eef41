# build environment of the harness (offline, pinned toolchain)
. /opt/vp/env.sh >/dev/null 2>&1
here_env="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export CARGO_TARGET_DIR="$here_env/target"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS="--cfg verif_hooks"
unset RUSTC_WRAPPER
