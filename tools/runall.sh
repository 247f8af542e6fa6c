cd /verif
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C25 C26 C27 C28 C29}; do s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $p > /tmp/ra_$p.log 2>&1; rc=$?; echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOL /tmp/ra_$p.log) viol; $(tail -1 /tmp/ra_$p.log | cut -c1-150)"; done
