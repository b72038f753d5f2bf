#!/bin/bash
# check.sh <property> quick|thorough: decides one property on /repo's current working tree.
root=$(cd "$(dirname "$0")" && pwd)
case $1 in
  C06|C07|C08) bin=simmp ;;
  C01|C03|C04|C05|C10|C15|C16|C17) bin=simcore ;;
  C02|C09|C11|C12|C13|C14|C18|C19|C20) bin=simhost ;;
  *) echo "unknown property $1" >&2; exit 2 ;;
esac
"$root/build.sh" $bin || exit 3
export VERIF_ROOT=$root
exec "$root/target/release/$bin" "$@"
