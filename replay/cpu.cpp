// what the redirected instructions do; compiled without vector registers, so that only the architectural results change
#include <cstdint>
struct Cpu { uint32_t maxleaf, c1, d1, b7, xcr; };
namespace sim { Cpu *state(); bool *trap(); }
extern "C" void vp_cpuid_c(uint32_t leaf, uint32_t sub, uint32_t *o)
{
    Cpu *c = sim::state();
    o[0] = o[1] = o[2] = o[3] = 0x5a5a5a5a;
    if (leaf == 0) o[0] = c->maxleaf;
    else if (leaf > c->maxleaf) return;
    else if (leaf == 1) { o[2] = c->c1; o[3] = c->d1; }
    else if (leaf == 7 && sub == 0) o[1] = c->b7;
}
extern "C" void vp_xgetbv_c(uint32_t x, uint32_t *o)
{
    Cpu *c = sim::state();
    if (!(c->maxleaf >= 1 && (c->c1 >> 27 & 1)) || x != 0) *sim::trap() = true;
    o[0] = c->xcr; o[1] = 0;
}
#define SAVE "pushq %rbp\n movq %rsp, %rbp\n pushq %rdi\n pushq %rsi\n pushq %r8\n pushq %r9\n pushq %r10\n pushq %r11\n subq $32, %rsp\n andq $-16, %rsp\n"
#define REST "leaq -48(%rbp), %rsp\n popq %r11\n popq %r10\n popq %r9\n popq %r8\n popq %rsi\n popq %rdi\n popq %rbp\n ret\n"
asm(".text\n.globl vp_cpuid\nvp_cpuid:\n" SAVE "movl %eax, %edi\n movl %ecx, %esi\n movq %rsp, %rdx\n call vp_cpuid_c\n"
    "movl (%rsp), %eax\n movl 4(%rsp), %ebx\n movl 8(%rsp), %ecx\n movl 12(%rsp), %edx\n" REST);
asm(".globl vp_xgetbv\nvp_xgetbv:\n" SAVE "pushq %rcx\n pushq %rcx\n subq $16, %rsp\n movl %ecx, %edi\n movq %rsp, %rsi\n call vp_xgetbv_c\n"
    "movl (%rsp), %eax\n movl 4(%rsp), %edx\n addq $16, %rsp\n popq %rcx\n popq %rcx\n" REST);
