#!/bin/bash
# Builds the simulator from /repo's working tree: build.sh OUTDIR
set -e
O=$1; V=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}
mkdir -p "$O"; cd "$V/sim"
pids=; bg() { "$@" & pids="$pids $!"; }
CX="clang++ -std=c++17 -O1 -g -Wall -Wno-unused-function -fno-stack-protector -fPIE"
simo() { $CX -I"$REPO/include" -c "$1.cc" -o "$O/$1.o"; }
for f in *.cc; do bg simo "${f%.cc}"; done
# the library itself: real code, every access and branch a scheduling point, imports redirected
lib() {
	clang -O1 -g -fPIE -fno-builtin -fno-delete-null-pointer-checks -fwrapv -U_FORTIFY_SOURCE -fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores -D_GNU_SOURCE -DHAVE_LIBNUMA=1 -I"$REPO/include" -I"$REPO/src" -c "$1" -o "$2" &&
	objcopy --redefine-syms=redefine.map --rename-section .init_array=simctor --rename-section .fini_array=simdtor "$2"
}
for f in "$REPO"/src/*.c; do bg lib "$f" "$O/lib_$(basename "$f" .c).o"; done
# the inline operations, compiled in several ways
tabs=
opt() { n=$1; shift; "$@" -D_GNU_SOURCE -I"$REPO/include" -I. -DOPTAB=optab_$n -DOPTNAME="\"$n\"" -c optu.c -o "$O/optu_$n.o" && objcopy --redefine-syms=optu.map "$O/optu_$n.o"; }
mk() { bg opt "$@"; tabs="$tabs $1"; }
mk gcc0 gcc -O0; mk gcc2 gcc -O2; mk gccs gcc -Os; mk gcc2pic gcc -O2 -fPIC; mk gcc1tw gcc -O1 -DRSEQ_COMPARE_TWICE
mk clang0 clang -O0; mk clang2 clang -O2; mk clang3 clang -O3; mk clang1tw clang -O1 -DRSEQ_COMPARE_TWICE
mk gpp2 g++ -x c++ -O2; mk clangpp2 clang++ -x c++ -O2; mk gcc3 gcc -O3 -fomit-frame-pointer
# the same operations compiled for other processors, run by the emulators; one that does not build is left out,
# unless it is the assembly that is refused: guests_broken.txt says of which part
guest() {
	a=$1; o=$2; t=$3; base=$4; shift 4; f=$O/guest_${a}_$o
	cc="clang --target=$t"; [ $a != i386 ] || cc="gcc -m32"	# clang finds too few registers for it
	if [ $a = arm ]; then	# clang's own assembler refuses %r0
		run() { $cc -$o "$@" -fno-integrated-as -S optg.c -o $f.s && sed -i 's/%r0\b/r0/g' $f.s && $cc -c $f.s -o $f.go; }
	else run() { $cc -$o "$@" -c optg.c -o $f.go; }; fi
	all() { run -w -ffunction-sections -fno-stack-protector -D_GNU_SOURCE -I"$REPO/include" -Iginc -isystem /usr/include/x86_64-linux-gnu -I. "$@" >$f.log 2>&1; }
	refused() { grep -qE '<inline asm>|Error: |\.s:[0-9]+:[0-9]+: error' $f.log; }
	{ all "$@" || { refused && e=$(grep -iE 'error: ' $f.log | head -1 | tr -d '\n') && k=ops && { all -DOPT_NOMEM "$@" && k=mem || refused; } && echo "$a-$o $k $e" >>"$O/guests_broken.txt"; [ "$k" = mem ]; }; } &&
	ld.lld-18 -static -T ginc/near.ld --defsym=GBASE=$base --unresolved-symbols=ignore-all -e 0 -o $f.elf $f.go >>$f.log 2>&1 &&
	! { llvm-nm-18 $f.elf | grep -q 'long_branch\|[Tt]hunk'; } || { rm -f $f.elf; echo "$a-$o"; } >>"$O/guests_missing.txt"
}
: > "$O/guests_missing.txt"; : > "$O/guests_broken.txt"
bg guest aarch64 O2 aarch64-linux-gnu 0x20000000 -mgeneral-regs-only; bg guest aarch64 O1 aarch64-linux-gnu 0x21000000 -mgeneral-regs-only
bg guest ppc64le O2 powerpc64le-linux-gnu 0x24000000; bg guest ppc64le O1 powerpc64le-linux-gnu 0x25000000
bg guest s390x O2 s390x-linux-gnu 0x26000000 -march=z10; bg guest s390x Os s390x-linux-gnu 0x27000000 -march=z10
bg guest riscv64 O2 riscv64-linux-gnu 0x22000000 -march=rv64ima -mno-relax; bg guest riscv64 Os riscv64-linux-gnu 0x23000000 -march=rv64ima -mno-relax
bg guest loongarch64 O2 loongarch64-linux-gnu 0x28000000; bg guest loongarch64 O1 loongarch64-linux-gnu 0x29000000
bg guest mips64el O2 mips64el-linux-gnuabi64 0x2a000000 -march=mips64r2 -mno-abicalls -fno-pic -G0; bg guest mips64el Os mips64el-linux-gnuabi64 0x2b000000 -march=mips64r2 -mno-abicalls -fno-pic -G0
bg guest riscv32 O2 riscv32-linux-gnu 0x2c000000 -march=rv32ima -mabi=ilp32 -mno-relax; bg guest riscv32 Os riscv32-linux-gnu 0x2d000000 -march=rv32ima -mabi=ilp32 -mno-relax
bg guest mipsel O2 mipsel-linux-gnu 0x2e000000 -march=mips32r2 -mno-abicalls -fno-pic -G0; bg guest mipsel O1 mipsel-linux-gnu 0x2f000000 -march=mips32r2 -mno-abicalls -fno-pic -G0
bg guest i386 O2 - 0x30000000 -march=i686 -mno-sse -fno-pic -fno-pie -fomit-frame-pointer; bg guest i386 Os - 0x31000000 -march=i686 -mno-sse -fno-pic -fno-pie -fomit-frame-pointer; bg guest i386 O1 - 0x32000000 -march=i686 -mno-sse -fno-pic -fno-pie -fomit-frame-pointer -DRSEQ_COMPARE_TWICE
ARM='-mcpu=cortex-a15 -marm -mfloat-abi=soft -mfpu=none -mtp=cp15'; bg guest arm O2 arm-linux-gnueabi 0x33000000 $ARM; bg guest arm Os arm-linux-gnueabi 0x34000000 $ARM
PPC='-mcpu=ppc -fno-pic -fno-jump-tables' MIPS='-mno-abicalls -fno-pic -G0 -fno-jump-tables'
bg guest powerpc O2 powerpc-linux-gnu 0x35000000 $PPC; bg guest powerpc O1 powerpc-linux-gnu 0x36000000 $PPC; bg guest mips O2 mips-linux-gnu 0x37000000 -march=mips32r2 $MIPS; bg guest mips64 O1 mips64-linux-gnuabi64 0x3b000000 -march=mips64r2 $MIPS
for p in $pids; do wait $p; done
{
	echo '#include "sim.h"'; echo 'extern "C" {'; for t in $tabs; do echo "extern const struct optab optab_$t;"; done
	echo '}'; echo 'namespace sim { const struct optab *const optabs[] = {'; for t in $tabs; do echo "&optab_$t,"; done
	echo '}; const int noptabs = sizeof(optabs)/sizeof(optabs[0]); }'
} > "$O/tabs.cc"
$CX -I. -c "$O/tabs.cc" -o "$O/tabs.o"
clang++ -pie -g -o "$O/simrun.tmp" "$O"/*.o -lpthread -ldl
mv "$O/simrun.tmp" "$O/simrun"; rm -f "$O"/*.o
