set -e
cd /verif
H=$1
INC=${INC:-/repo/include}
mkdir -p /tmp/b
[ -f /tmp/b/core.o ] && [ /tmp/b/core.o -nt sim/core.cpp ] && [ /tmp/b/core.o -nt sim/core.hpp ] || g++-14 -std=c++23 -O1 -g -c sim/core.cpp -o /tmp/b/core.o
[ -f /tmp/b/sched.o ] && [ /tmp/b/sched.o -nt sim/sched.cpp ] && [ /tmp/b/sched.o -nt sim/sched.hpp ] || g++-14 -std=c++23 -O2 -g -fno-threadsafe-statics -c sim/sched.cpp -o /tmp/b/sched.o
g++-14 -std=c++23 -O1 -g -Wall -Wextra -fsanitize=thread -I$INC -c harness/$H.cpp -o /tmp/b/$H.o
g++-14 -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset /tmp/b/core.o /tmp/b/sched.o /tmp/b/$H.o -o /tmp/b/$H
