
#include <stdlib.h>
#include <string.h>

int bad_plain(int a, char *s)
{
    int n = atoi(s);
    return a / n;
}

int bad_wrong_test(int a, char *s)
{
    int n = atoi(s);
    if (n < 0)
        return 0;
    return a % n;
}

int ok_test(int a, char *s)
{
    int n = atoi(s);
    if (n <= 0)
        return 0;
    return a % n;
}

static int divides(int a, int n)
{
    return a / n;
}

int bad_caller(int a, char *s)
{
    return divides(a, atoi(s) & 7);
}

int ok_caller(int a, char *s)
{
    int n = atoi(s);
    return n > 0 ? divides(a, n) : 0;
}

struct row { const char *name; int size; };
struct ctx { int width, other; };
static const struct row rows[] = {{"a", 1}, {"b", 4}, {0, 0}};

void ok_fill(struct ctx *c, int i)
{
    c->width = rows[i].size;
}

int ok_uses_field(struct ctx *c, int n)
{
    return n / c->width;
}

void bad_fill(struct ctx *c, char *s)
{
    c->other = atoi(s);
}

int ok_uses_other(struct ctx *c, unsigned n)
{
    return n / (unsigned) c->other;
}

int bad_overflow(char *s, char *t)
{
    int a = atoi(s), b = atoi(t);
    if (b == 0)
        return 0;
    return a / b;
}

int ok_overflow(char *s, char *t)
{
    int a = atoi(s), b = atoi(t);
    if (b == 0)
        return 0;
    if (b == -1)
        return 0 - (unsigned) a;
    return a / b;
}
