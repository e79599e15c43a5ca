cd /verif
for c in ${CS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24}; do timeout 900 ./check $c ${T:-quick} > /tmp/out_$c.txt 2>&1; echo "$c rc=$? $(grep "$c ${T:-quick}:" /tmp/out_$c.txt)"; done
