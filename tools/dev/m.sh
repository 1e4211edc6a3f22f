# m.sh harness prop runs file old new
MK=${MK:-/tmp/mka.sh} python3 /tmp/mut.py "$@"
