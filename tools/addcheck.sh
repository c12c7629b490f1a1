#!/bin/bash
# addcheck.sh c02: register a check module
m=$1; P=${m^^}
cd /verif/mc/src/checks
grep -q "pub mod $m;" mod.rs || { sed -i "0,/^use crate::explore/s//pub mod $m;\nuse crate::explore/" mod.rs; sed -i "s|^        _ => return false,|        \"$P\" => $m::run(c),\n        _ => return false,|" mod.rs; }
