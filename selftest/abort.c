/* self-test of D08: functions named bad_* must be reported, the others must not */
#include <stdio.h>
#include <string.h>

__thread int bAbortCommand;
int pBat_GetLine(char *b);

struct cmd { char *name; int (*f)(char *); };

int h_goto(char *l)
{
    bAbortCommand = *l == ':' ? -1 : 2;
    return 0;
}

int h_echo(char *l)
{
    puts(l);
    return 0;
}

struct cmd cmds[] = {{"GOTO", &h_goto}, {"ECHO", &h_echo}};

int run_line(char *l)
{
    struct cmd *c = &cmds[*l == 'g'];

    return c->f(l + 4);
}

int good_loop(char *l)
{
    while (*l) {
        run_line(l);
        if (bAbortCommand)
            break;
        l++;
    }
    return 0;
}

int bad_loop(char *l)
{
    while (*l) {
        run_line(l);
        l++;
    }
    return 0;
}

static int pending(void) { return bAbortCommand != 0; }

int good_helper(char *l)
{
    int i;

    for (i = 0; i < 10 && !pending(); i++)
        run_line(l);
    return 0;
}

int bad_partial(char *l)
{
    while (*l) {
        run_line(l);
        if (bAbortCommand == 2)
            break;
        l++;
    }
    return 0;
}

int bad_twice(char *l, char *m)
{
    int r = run_line(l);

    if (r)
        r = run_line(m);
    return r;
}

int good_either(char *l, char *m)
{
    if (*l)
        return run_line(l);
    return run_line(m);
}

int good_block(char *l)
{
    while (*l) {
        run_line(l);
        if (bAbortCommand == -1 || bAbortCommand == 2)
            break;
        else
            bAbortCommand = 0;
        l++;
    }
    return 0;
}

int bad_block(char *l)
{
    while (*l) {
        run_line(l);
        if (bAbortCommand == -1)
            break;
        else
            bAbortCommand = 0;
        l++;
    }
    return 0;
}

int bad_reset(char *l)
{
    while (*l) {
        run_line(l);
        if (bAbortCommand)
            break;
        l++;
    }
    bAbortCommand = 0;
    return 0;
}

int pBat_RunBatch(char *l)
{
    while (!pBat_GetLine(l)) {
        run_line(l);
        if (bAbortCommand == -1)
            break;
        bAbortCommand = 0;
    }
    return 0;
}

int good_call(char *l)
{
    pBat_RunBatch(l);
    bAbortCommand = 0;
    return 0;
}

static void forget(void) { if (bAbortCommand == 2) bAbortCommand = 0; }

int bad_forget(char *l)
{
    while (*l) {
        run_line(l);
        forget();
        if (bAbortCommand)
            break;
        l++;
    }
    return 0;
}
