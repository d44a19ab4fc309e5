#!/bin/bash
# regression: every claimed check on the unchanged tree
cd /verif; rm -f /tmp/reg.txt
for p in ${@:-$(ls contracts/c*.py | sed 's/.*\/c\([0-9]*\).py/C\1/')}; do t=$(date +%s); timeout 900 /opt/venv/bin/python -m vc.run $p > /tmp/reg_$p.txt 2>&1; echo "$p rc=$? $(( $(date +%s)-t ))s $(grep "^$p:" /tmp/reg_$p.txt)" >> /tmp/reg.txt; done
echo done >> /tmp/reg.txt
