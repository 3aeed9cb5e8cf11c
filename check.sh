#!/bin/bash
# usage: check.sh PROPERTY
# Decides one property on the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/govc" ]; then
  bash "$here/setup.sh" || exit 2
fi
exec "$here/bin/govc" check -verif "$here" -repo /repo -property "$1"
