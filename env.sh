VROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=$PATH:/root/.cargo/bin:/usr/local/bin
export CARGO_TARGET_DIR=$VROOT/.build/target
export CARGO_NET_OFFLINE=true
