#!/bin/bash
# developer helper: run checks and print the time split
cd /verif
for i in "$@"; do ./check.sh $i ${TIER:-quick} ; echo "exit $?"; python3 -c "
import json;e=json.load(open('evidence/$i.json'))['coverage']
for k,n in e['evaluations_by_subcheck'].items(): print('   ',k,n,'%.1fs'%e['cpu_seconds_by_subcheck'][k],{a.split(':')[1]:b for a,b in e['case_classes'].items() if a.split(':')[0]==k})"; done
