cd /verif; export ASAN_OPTIONS=detect_leaks=0:handle_abort=1
rm -f /tmp/o.txt
PBT_STDOUT=/tmp/o.txt .work/$1 replay .work/r/$2.json .work/sw | cut -c1-300 | head -60
cat /tmp/o.txt
