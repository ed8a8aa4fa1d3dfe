#!/bin/sh
# check.sh PROPERTY TIER: rebuilds the simulator from /repo's working tree and
# searches for violations of the property.
cd /verif || exit 3
sh /verif/build.sh >/verif/build.log 2>&1 || { tail -40 /verif/build.log >&2; exit 3; }
exec /verif/sim/target/release/ksim check --property "$1" --tier "$2"
