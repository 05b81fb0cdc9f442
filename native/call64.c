/* Calls the real stack switch routine with given registers (x86-64). */
#include <stdint.h>
#include <string.h>

uint64_t rc_in[16], rc_after[16], rc_out[16], rc_fill, rc_calls, rc_sp, rc_arg, rc_sp0, rc_keep, rc_bad;
static uint64_t stack[2048] __attribute__ ((aligned (4096)));
static struct { void *top, *x[7]; } obj;
void *rc_obj = &obj;
void rc_go (void);

__asm__ (
    ".text\n"
    "rc_go:\n"
    " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov $8, %ecx\n"
    "1: pushq $0x5a5a5a5a\n dec %ecx\n jnz 1b\n"
    " sub $8, %rsp\n"
    " mov %rsp, rc_keep\n"
    " lea -8(%rsp), %rax\n mov %rax, rc_sp0\n"
    " mov rc_in+0*8, %rax\n mov rc_in+1*8, %rcx\n mov rc_in+2*8, %rdx\n mov rc_in+3*8, %rbx\n mov rc_in+5*8, %rbp\n"
    " mov rc_in+8*8, %r8\n mov rc_in+9*8, %r9\n mov rc_in+10*8, %r10\n mov rc_in+11*8, %r11\n"
    " mov rc_in+12*8, %r12\n mov rc_in+13*8, %r13\n mov rc_in+14*8, %r14\n mov rc_in+15*8, %r15\n"
    " mov rc_obj, %rdi\n lea rc_entry(%rip), %rsi\n"
    " call hev_task_execute\n"
    " mov %rsp, rc_out+4*8\n mov %rbx, rc_out+3*8\n mov %rbp, rc_out+5*8\n"
    " mov %r12, rc_out+12*8\n mov %r13, rc_out+13*8\n mov %r14, rc_out+14*8\n mov %r15, rc_out+15*8\n"
    " mov rc_keep, %rsp\n add $8, %rsp\n"
    " mov $8, %ecx\n"
    "1: pop %rax\n cmp $0x5a5a5a5a, %rax\n je 2f\n incq rc_bad\n"
    "2: dec %ecx\n jnz 1b\n"
    " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n"
    " ret\n"
    "rc_entry:\n"
    " incq rc_calls\n mov %rdi, rc_arg\n lea 8(%rsp), %rax\n mov %rax, rc_sp\n"
    " mov rc_fill, %rax\n mov $64, %ecx\n lea -512(%rsp), %rdx\n"
    "1: mov %rax, (%rdx)\n add $8, %rdx\n dec %ecx\n jnz 1b\n"
    " mov rc_after+0*8, %rax\n mov rc_after+1*8, %rcx\n mov rc_after+2*8, %rdx\n mov rc_after+6*8, %rsi\n mov rc_after+7*8, %rdi\n"
    " mov rc_after+8*8, %r8\n mov rc_after+9*8, %r9\n mov rc_after+10*8, %r10\n mov rc_after+11*8, %r11\n"
    " ret\n");

int real_switch (const uint64_t *in, const uint64_t *after, uint64_t fill, uint64_t *out)
{
    memcpy (rc_in, in, sizeof (rc_in));
    memcpy (rc_after, after, sizeof (rc_after));
    memset (stack, 0x5a, sizeof (stack));
    memset (&obj, 0x5a, sizeof (obj));
    obj.top = stack + 1024;
    rc_fill = fill;
    rc_go ();
    memcpy (out, rc_out, sizeof (rc_out));
    for (int i = 1024; i < 2048; i++) rc_bad += stack[i] != 0x5a5a5a5a5a5a5a5aull;
    for (int i = 0; i < 7; i++) rc_bad += obj.x[i] != (void *)0x5a5a5a5a5a5a5a5aull;
    rc_bad += obj.top != stack + 1024;
    out[16] = rc_calls;
    out[17] = rc_sp;
    out[18] = rc_arg;
    out[19] = rc_bad;
    out[20] = (uint64_t)&obj;
    out[21] = (uint64_t)(stack + 1024);
    out[22] = rc_sp0;
    return 0;
}
