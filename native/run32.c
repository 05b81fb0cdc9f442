/* Runs the program built from call32.c. */
#include <stdint.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

int real_switch (const uint64_t *in, const uint64_t *after, uint64_t fill, uint64_t *out)
{
    uint32_t b[17], o[16];
    int to[2], from[2], st;
    pid_t p;
    for (int i = 0; i < 8; i++) { b[i] = in[i]; b[8 + i] = after[i]; }
    b[16] = fill;
    if (pipe (to) || pipe (from)) _exit (79);
    p = fork ();
    if (p == 0) {
        dup2 (to[0], 0);
        dup2 (from[1], 1);
        execl (R32, R32, (char *)0);
        _exit (79);
    }
    close (from[1]);
    if (write (to[1], b, sizeof (b)) != sizeof (b)) _exit (79);
    if (read (from[0], o, sizeof (o)) != sizeof (o)) return -1;
    waitpid (p, &st, 0);
    for (int i = 0; i < 8; i++) out[i] = o[i];
    for (int i = 8; i < 15; i++) out[8 + i] = o[i];
    return 0;
}
