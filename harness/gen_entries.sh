#!/bin/bash
# regenerates src/entries.rs from the #[no_mangle] entry points
cd "$(dirname "$0")/src" || exit 1
{ echo "pub const ENTRIES: &[(&str, extern \"C\" fn())] = &["
for f in ver op spec tree repo long hist dict parts kf; do [ -f $f.rs ] && grep -oE 'extern "C" fn h_[a-z0-9_]+' $f.rs | awk -v m=$f '{print "    (\"" $4 "\", " m "::" $4 "),"}'; done
echo "];"; } > entries.rs
