#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>

const char *gettext(const char *);
const char *message, *odd, *table[4];

void load(void)
{
    message = gettext("plain");
    odd = gettext("100 %");
    table[0] = gettext("one %s");
    table[1] = "two %d";
    table[2] = "three %s";
}

void bad_not_fixed(FILE *f, char *s)
{
    fprintf(f, s);
}

void bad_line(FILE *f)
{
    char b[10];
    if (fgets(b, 10, stdin))
        fprintf(f, b);
}

void bad_type(FILE *f, long n)
{
    fprintf(f, "%d", n);
}

void bad_few(FILE *f, int n)
{
    fprintf(f, "%d %s", n);
}

void bad_percent(FILE *f)
{
    fprintf(f, odd);
}

void bad_table(FILE *f, int i, char *s)
{
    fprintf(f, table[i], s);
}

void bad_translation(FILE *f, char *s)
{
    fprintf(f, gettext("translated %s"), s);
}

void bad_star(FILE *f, size_t n, char *s)
{
    fprintf(f, "%.*s", n, s);
}

void bad_null(FILE *f)
{
    fprintf(f, "%s", NULL);
}

void ok_message(FILE *f)
{
    fprintf(f, message);
}

void ok_select(FILE *f, int i, char *s)
{
    fprintf(f, i ? "a %s" : "b %s", s);
}

void ok_row(FILE *f, char *s)
{
    fprintf(f, table[2], s);
}

void ok_types(FILE *f, long n, short h, double d, size_t z, char c, int w)
{
    fprintf(f, "%ld %hd %5.2f %zu %c %*d %%", n, h, d, z, c, w, w);
}

static void say(FILE *f, const char *fmt, ...)
{
    va_list l;
    va_start(l, fmt);
    vfprintf(f, fmt, l);
    va_end(l);
}

void bad_wrapped(FILE *f)
{
    say(f, "%s", 3);
}

void ok_wrapped(FILE *f)
{
    say(f, "%d", 3);
}

static void show(FILE *f, const char *fmt, int n)
{
    fprintf(f, fmt, n);
}

void ok_helper(FILE *f)
{
    show(f, "%d\n", 3);
}

const char *texts[8];

void texts_load(void)
{
    texts[0] = gettext("zero");
    texts[1] = gettext("one %s");
    texts[2] = gettext("two %d");
}

void report_it(unsigned n, const char *what)
{
    fprintf(stderr, texts[n & ~0x80u], what);
}

void ok_report(char *s)
{
    report_it(1, s);
}

void ok_report_number(int n)
{
    report_it(2 | 0x80, (char *)(long)n);
}

void bad_report_text(char *s)
{
    report_it(2, s);
}

void bad_report_number(int n)
{
    report_it(1, (char *)(long)n);
}

void bad_report_unknown(char *s)
{
    report_it(3, s);
}

void bad_report_nothing(void)
{
    report_it(1, NULL);
}

void ok_report_nothing(void)
{
    report_it(0, NULL);
}
