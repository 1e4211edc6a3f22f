bash /tmp/mka.sh "$@" > /tmp/cc.log 2>&1; r=$?; [ $r = 0 ] || grep -E "error|required from here" /tmp/cc.log | cut -c1-400 | head -${L:-14}; exit $r
