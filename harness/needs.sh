#!/bin/sh
# executables a property's check uses besides the release one
case "$1" in
  C11|C13|C23) echo "" ;;
  C19) echo "ship miri" ;;
  C20) echo "asan miri" ;;
  C21) echo "ship asan" ;;
  C24) echo "miritree" ;;
  C26) if [ "${VERIF_TIER:-quick}" = thorough ]; then echo "orders:4,5,6,7,9,10,12,16,24"; else echo "orders:4,5,7,16"; fi ;;
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C12|C14|C15|C16|C17|C18|C22|C25) echo "ship" ;;
  all) echo "ship asan miri miritree" ;;
  *) exit 1 ;;
esac
