#!/bin/bash
# regenerate anchors/src/lib.rs from the rule modules present
cd /verif/anchors/src
{ echo '#![allow(dead_code, unused_imports, non_snake_case, unused_variables, unused_mut)]'; echo 'pub mod smrt;'
  echo 'pub mod refm; pub mod qh;'
  for f in c[0-9][0-9].rs; do m=${f%.rs}; echo "#[cfg(any($m, dev))]"; echo "pub mod $m;"; done; } > lib.rs
