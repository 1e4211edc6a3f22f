# rn.sh harness runs props...
h=$1; n=$2; shift 2
for p in "$@"; do echo "== $p"; ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:symbolize=0" UBSAN_OPTIONS=exitcode=78 /tmp/b/$h run --prop $p --seed ${SEED:-1} --runs $n --out /tmp/b/$p.json --replaydir /tmp/b --known /verif/known_findings.txt 2>&1 | head -${LINES_:-60};  python3 -c "
import json;d=json.load(open('/tmp/b/$p.json'));d.pop('samples');print({k:d[k] for k in ['runs','distinct_nontrivial','wall_s','det_checked','det_mismatch','faults','probes','known','violation']})"; done
