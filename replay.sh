#!/bin/bash
# replay.sh <replay file>: repeats a recorded violation exactly.
root=$(cd "$(dirname "$0")" && pwd)
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1")
case $id in
  C06|C07|C08) bin=simmp ;;
  C01|C03|C04|C05|C10|C15|C16|C17) bin=simcore ;;
  C02|C09|C11|C12|C13|C14|C18|C19|C20) bin=simhost ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
"$root/build.sh" $bin || exit 3
export VERIF_ROOT=$root
exec "$root/target/release/$bin" replay "$1"
