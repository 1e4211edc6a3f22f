set -e
cd /verif
H=$1
INC=${INC:-/repo/include}
mkdir -p /tmp/b
SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
[ "$P" = 1 ] && SAN=""
T=a; [ "$P" = 1 ] && T=p
[ -f /tmp/b/core.$T.o ] && [ /tmp/b/core.$T.o -nt sim/core.cpp ] && [ /tmp/b/core.$T.o -nt sim/core.hpp ] || g++-14 -std=c++23 -O1 -g1 ${SAN:+-fsanitize=address} -c sim/core.cpp -o /tmp/b/core.$T.o
[ -f /tmp/b/seq.$T.o ] && [ /tmp/b/seq.$T.o -nt sim/seq.cpp ] && [ /tmp/b/seq.$T.o -nt sim/sched.hpp ] || g++-14 -std=c++23 -O1 -g1 ${SAN:+-fsanitize=address} -c sim/seq.cpp -o /tmp/b/seq.$T.o
g++-14 -std=c++23 -O1 -g1 -Wall -Wextra $SAN -I$INC $CF -c harness/$H.cpp -o /tmp/b/$H.o
g++-14 $SAN /tmp/b/core.$T.o /tmp/b/seq.$T.o /tmp/b/$H.o -ldl $LF -o /tmp/b/$H
