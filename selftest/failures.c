/* self-test of D07: functions named bad_* must be reported, the others must not */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

int pBat_ShowErrorMessage(unsigned short int e, const char *t, int ex);

int bad_silent(char *l)
{
    remove(l);
    return 0;
}

int good_checked(char *l)
{
    if (remove(l)) {
        pBat_ShowErrorMessage(3, l, 0);
        return 3;
    }
    return 0;
}

int bad_reported(char *l)
{
    FILE *f = fopen(l, "r");

    if (f == NULL) {
        pBat_ShowErrorMessage(3, l, 0);
        return 0;
    }
    fclose(f);
    return 0;
}

int good_or(char *l)
{
    int status = 0;

    if (mkdir(l, 0777))
        status |= 4;
    if (rmdir(l))
        status |= 8;
    return status;
}

int bad_overwritten(char *l)
{
    int status = 0;

    if (mkdir(l, 0777))
        status = 4;
    status = rmdir(l) ? 8 : 0;
    return status;
}

static int helper(const char *l)
{
    int fd = open(l, O_RDONLY);
    char buf[100];
    ssize_t n;

    if (fd == -1)
        return -1;
    while ((n = read(fd, buf, sizeof(buf))) > 0)
        ;
    close(fd);
    return n < 0 ? -1 : 0;
}

static int helper_read(const char *l)
{
    int fd = open(l, O_RDONLY);
    char buf[100];
    ssize_t n;

    if (fd == -1)
        return -1;
    while ((n = read(fd, buf, sizeof(buf))) > 0)
        ;
    close(fd);
    return 0;
}

int good_helper(char *l) { return helper(l) ? 5 : 0; }
int bad_helper(char *l) { return helper_read(l) ? 5 : 0; }
int bad_ignored(char *l) { helper(l); return 0; }

int bad_ferror(char *l)
{
    FILE *f = fopen(l, "r");
    char b[80];

    if (!f)
        return 1;
    while (fgets(b, sizeof(b), f))
        puts(b);
    if (ferror(f))
        puts("error");
    fclose(f);
    return 0;
}

int good_fatal(char *l)
{
    if (chdir(l))
        pBat_ShowErrorMessage(3, l, -1);
    return 0;
}

static int run(char *l)
{
    pid_t p = fork();
    int s = 0;

    if (p == -1)
        return -1;
    if (p == 0) {
        if (chdir("sub"))
            exit(-1);
        execl(l, l, (char *)0);
        exit(-1);
    }
    waitpid(p, &s, 0);
    return WEXITSTATUS(s);
}

int good_again(char *l)
{
    int r = run(l);

    if (r == -1 && (r = run(l)) == -1)
        return 9;
    return 0;
}

int bad_again(char *l)
{
    int r = run(l);

    if (r == -1)
        r = run(l);
    return 0;
}

int bad_wrongdir(char *l)
{
    pid_t p = fork();

    if (p == -1)
        return 7;
    if (p == 0) {
        chdir("sub");
        execl(l, l, (char *)0);
        exit(-1);
    }
    return 0;
}

static int lines(FILE *f)
{
    char b[80];
    int n = 0;

    while (fgets(b, sizeof(b), f))
        n++;
    return n;
}

int bad_unasked(char *l)
{
    FILE *f = fopen(l, "r");

    if (f == NULL)
        return 2;
    printf("%d", lines(f));
    fclose(f);
    return 0;
}

int good_asked(char *l)
{
    FILE *f = fopen(l, "r");
    int r = 0;

    if (f == NULL)
        return 2;
    printf("%d", lines(f));
    if (ferror(f))
        r = 3;
    fclose(f);
    return r;
}

int good_first(char *l)
{
    FILE *f = fopen(l, "r");
    char b[80];

    if (f == NULL)
        return 2;
    if (fgets(b, sizeof(b), f)) {
        puts(b);
        fclose(f);
        return 0;
    }
    fclose(f);
    return 1;
}

static int close_it(FILE *f)
{
    int r = ferror(f);

    fclose(f);
    return r ? -1 : 0;
}

int good_close(char *l)
{
    FILE *f;
    int r = 0;

    while (*l) {
        if (!(f = fopen(l, "r")))
            return 2;
        printf("%d", lines(f));
        r |= close_it(f);
        l += strlen(l) + 1;
    }
    lines(stdin);
    return r;
}

int bad_second(char *l)
{
    FILE *f;
    int r = 0;

    if (!(f = fopen(l, "r")))
        return 2;
    printf("%d", lines(f));
    if (ferror(f))
        r = 3;
    fclose(f);
    if (!(f = fopen(l + 1, "r")))
        return 2;
    printf("%d", lines(f));
    fclose(f);
    return r;
}

struct cmd { char *name; int (*f)(char *); };
const struct cmd cmds[] = {
    {"A", &bad_silent}, {"B", &good_checked}, {"C", &bad_reported}, {"D", &good_or}, {"E", &bad_overwritten},
    {"F", &good_helper}, {"G", &bad_helper}, {"H", &bad_ignored}, {"I", &bad_ferror}, {"J", &good_fatal}, {"K", &good_again}, {"L", &bad_again}, {"M", &bad_wrongdir},
    {"N", &bad_unasked}, {"O", &good_asked}, {"P", &good_first}, {"Q", &good_close}, {"R", &bad_second}
};

int dispatch(const char *n, char *l)
{
    unsigned i;

    for (i = 0; i < sizeof(cmds) / sizeof(*cmds); i++)
        if (!strcmp(n, cmds[i].name))
            return cmds[i].f(l);
    return 1;
}
