#!/bin/bash
# developer helper: run one property, show only what is not discharged
cd "$(dirname "$0")/.."; timeout ${T:-900} python3-vt gv/check.py "$@" -v > /tmp/run.$1.log 2>&1
awk '/^H_/{if($2!=$4||$0~/[A-Z][a-z]+Error|vacuous/)print substr($0,1,230);next} /^     (fail|unknown)/{if(n++<'${N:-14}')print substr($0,1,'${W:-170}');next} /^note|^KNOWN|^VIOL|^ERROR|obligations,|Error:/{print substr($0,1,230)}' /tmp/run.$1.log | tail -${L:-40}
