// Included by the generated programs, see checks/sourceloc.py.
#pragma once
extern volatile int verif_sink;
extern "C" void verif_rec(int id);
__attribute__((cold)) void verif_cold();
// Two instructions; their addresses are put in a table.
#define MARK(id) asm volatile("8: nop\n9: nop\n.pushsection verif_tab,\"aw?\",@progbits\n.quad 8b,9b,%c0\n.popsection" :: "i"(id))
#define INL inline __attribute__((always_inline))
#define NOI __attribute__((noinline))
