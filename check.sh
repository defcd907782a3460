#!/bin/sh
# usage: check.sh <property>; decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec python3 -m yx.check "$@"
