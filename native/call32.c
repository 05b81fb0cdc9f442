/* A program of its own: calls the real stack switch routine (i386) with the
 * registers read from its input and writes what it saw. */
typedef unsigned int u32;
u32 rc_in[8], rc_after[8], rc_fill, rc_calls, rc_sp, rc_arg, rc_sp0, rc_keep, rc_bad, rc_out[8];
static u32 stack[2048] __attribute__ ((aligned (4096)));
static u32 obj[8];
u32 *rc_obj = obj;
void rc_go (void);

__asm__ (
    ".text\n"
    "rc_go:\n"
    " push %ebx\n push %ebp\n push %esi\n push %edi\n"
    " mov %esp, %eax\n and $-16, %esp\n push %eax\n push %eax\n push %eax\n push %eax\n"
    " mov $8, %ecx\n"
    "1: pushl $0x5a5a5a5a\n dec %ecx\n jnz 1b\n"
    " mov %esp, rc_keep\n"
    " push %eax\n push %eax\n pushl $rc_entry\n pushl rc_obj\n"
    " lea -4(%esp), %eax\n mov %eax, rc_sp0\n"
    " mov rc_in+0, %eax\n mov rc_in+4, %ecx\n mov rc_in+8, %edx\n mov rc_in+12, %ebx\n mov rc_in+20, %ebp\n mov rc_in+24, %esi\n mov rc_in+28, %edi\n"
    " call hev_task_execute\n"
    " mov %esp, rc_out+16\n mov %ebx, rc_out+12\n mov %ebp, rc_out+20\n mov %esi, rc_out+24\n mov %edi, rc_out+28\n"
    " mov rc_keep, %esp\n"
    " mov $8, %ecx\n"
    "1: pop %eax\n cmp $0x5a5a5a5a, %eax\n je 2f\n incl rc_bad\n"
    "2: dec %ecx\n jnz 1b\n"
    " pop %esp\n"
    " pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n"
    " ret\n"
    "rc_entry:\n"
    " incl rc_calls\n mov 4(%esp), %eax\n mov %eax, rc_arg\n lea 4(%esp), %eax\n mov %eax, rc_sp\n"
    " mov rc_fill, %eax\n mov %eax, 4(%esp)\n mov $64, %ecx\n lea -256(%esp), %edx\n"
    "1: mov %eax, (%edx)\n add $4, %edx\n dec %ecx\n jnz 1b\n"
    " mov rc_after+0, %eax\n mov rc_after+4, %ecx\n mov rc_after+8, %edx\n"
    " ret\n"
    ".globl _start\n"
    "_start: and $-16, %esp\n call start32\n");

static int sys (int n, int a, void *b, int c)
{
    int r;
    __asm__ volatile ("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
void start32 (void)
{
    u32 b[17], o[16];
    int i;
    if (sys (3, 0, b, sizeof (b)) != sizeof (b)) sys (1, 9, 0, 0);
    for (i = 0; i < 8; i++) { rc_in[i] = b[i]; rc_after[i] = b[8 + i]; }
    rc_fill = b[16];
    for (i = 0; i < 2048; i++) stack[i] = 0x5a5a5a5a;
    for (i = 0; i < 8; i++) obj[i] = 0x5a5a5a5a;
    obj[0] = (u32)(stack + 1024);
    rc_go ();
    for (i = 1024; i < 2048; i++) rc_bad += stack[i] != 0x5a5a5a5a;
    for (i = 1; i < 8; i++) rc_bad += obj[i] != 0x5a5a5a5a;
    rc_bad += obj[0] != (u32)(stack + 1024);
    for (i = 0; i < 8; i++) o[i] = rc_out[i];
    o[8] = rc_calls;
    o[9] = rc_sp;
    o[10] = rc_arg;
    o[11] = rc_bad;
    o[12] = (u32)obj;
    o[13] = (u32)(stack + 1024);
    o[14] = rc_sp0;
    o[15] = 0;
    sys (4, 1, o, sizeof (o));
    sys (1, 0, 0, 0);
}
