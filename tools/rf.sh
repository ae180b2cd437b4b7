#!/bin/bash
# rf.sh [kind...]: runs all rules on behaviour-preserving variants of the whole repository (checker -refactor), one kind of rewriting at a time
D=${RF:-/tmp/rf}; CK=${CK:-/tmp/ck}
ALL="arith capacity demorgan elseify errsplit errmerge flip ifinit ifswitch iftemp incr invif lenzero litsplit outbody outcall outcond outline rangeidx rangetemp splitand splitor swap switchif tempasg temparg tempret unelse whilebrk"
for k in ${@:-$ALL}; do
  [ -d $D/$k ] || $CK -repo /repo -verif /verif -refactor $k:$D > /dev/null
  [ -d $D/$k ] || continue
  $CK -all -repo /repo -verif /verif -replace $D/$k > $D/$k.log 2>&1; rc=$?
  echo "$k rc=$rc $(grep -o '^FAIL [^ ]*' $D/$k.log | sort | uniq -c | awk '{printf "%s(%s) ",$3,$1}')"
done
