#!/bin/bash
# build_generator.sh OUTDIR REPO: EasyMockGenerate from REPO's working tree, built in OUTDIR (nothing is written to REPO).
set -e
out=$1 repo=$2
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
mkdir -p "$out/obj"
cat > "$out/Makefile" <<MK
OUT := $out
SRCS := \$(shell find $repo/src/easyMockGenerate/src -name '*.cpp' | sort)
OBJS := \$(patsubst $repo/src/easyMockGenerate/src/%.cpp,\$(OUT)/obj/%.o,\$(SRCS))
D := -DC_IMPLICIT_INCLUDE_DIRECTORIES='"/usr/lib/gcc/x86_64-linux-gnu/13/include:/usr/local/include:/usr/include/x86_64-linux-gnu:/usr/include"'
\$(OUT)/EasyMockGenerate: \$(OBJS)
	g++ \$^ -o \$@ -L/usr/lib/llvm-14/lib -Wl,-rpath,/usr/lib/llvm-14/lib -L/usr/lib/x86_64-linux-gnu -lctemplate -lboost_filesystem -lboost_system -lclang -lclang-cpp -lLLVM -lpthread -lunwind -ldw -lelf
\$(OUT)/obj/%.o: $repo/src/easyMockGenerate/src/%.cpp
	@mkdir -p \$(dir \$@)
	g++ -std=gnu++17 -O0 -w -DBACKTRACE_SUPPORT \$(D) -I$repo/src/easyMockGenerate/include -I/usr/lib/llvm-14/include -MMD -c \$< -o \$@
-include \$(OBJS:.o=.d)
MK
make -C "$out" -j8 -f "$out/Makefile"
