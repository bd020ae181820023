#!/bin/bash
# gdbseed.sh PROP SEED [gdb commands...]: stop at the crash of a server process
cat > /tmp/gdbcmds <<X
set pagination off
set follow-fork-mode child
set detach-on-fork on
set breakpoint pending on
set confirm off
set print thread-events off
handle SIGSEGV stop nopass
handle SIGUSR1 SIGCHLD SIGSTOP SIGCONT nostop noprint pass
run run --prop $1 --seed $2
bt 8
info locals
X
shift 2; for c in "$@"; do echo "$c" >> /tmp/gdbcmds; done; echo quit >> /tmp/gdbcmds
timeout 100 gdb -q -batch -x /tmp/gdbcmds /verif/build/simdrv 2>&1 | sed -n '/received signal/,$p' | cut -c1-400
