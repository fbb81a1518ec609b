#!/bin/sh
export VERIF_DIR=/verif CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
exec "$@"
