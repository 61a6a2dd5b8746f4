#include <stdlib.h>
#include <string.h>
#include <termios.h>

extern int work(void);
extern void pBat_ApplyStreams(void*);
extern void pBat_UnApplyStreams(void*);

struct script { char name[100]; int pos; int eof; };
static __thread struct script current;
static __thread char** frame;
static __thread int opt1, opt2;

struct level { struct level* previous; int lock; };
static __thread struct level* levels;

void ok_frame(char** mine)
{
    char** old = frame;
    frame = mine;
    work();
    frame = old;
}

int bad_frame(char** mine)
{
    char** old = frame;
    frame = mine;
    if (work())
        return -1;
    work();
    frame = old;
    return 0;
}

int bad_local(void)
{
    char* mine[3];
    frame = mine;
    return work();
}

int ok_script(const char* s)
{
    struct script old;
    memcpy(&old, &current, sizeof(old));
    current.eof = 0;
    strcpy(current.name, s);
    if (work()) {
        memcpy(&current, &old, sizeof(old));
        return -1;
    }
    work();
    memcpy(&current, &old, sizeof(old));
    return 0;
}

int bad_script(const char* s)
{
    struct script old;
    memcpy(&old, &current, sizeof(old));
    current.eof = 0;
    strcpy(current.name, s);
    if (work())
        return -1;
    work();
    memcpy(&current, &old, sizeof(old));
    return 0;
}

int bad_copy(const char* s)
{
    struct script old;
    memcpy(&old, &current, sizeof(old));
    strcpy(current.name, s);
    if (work() > 2)
        memcpy(&old, s, sizeof(old));
    memcpy(&current, &old, sizeof(old));
    return 0;
}

static struct level* push(struct level* l)
{
    struct level* n = malloc(sizeof(*n));
    if (!n)
        abort();
    n->previous = l;
    n->lock = 0;
    return n;
}

__attribute__((noinline)) static struct level* popall(struct level* l)
{
    struct level* n;
    while (l && !l->lock) {
        n = l->previous;
        free(l);
        l = n;
    }
    return l;
}

__attribute__((noinline)) static struct level* pop(struct level* l)
{
    struct level* n = l->previous;
    free(l);
    return n;
}

__attribute__((noinline)) static void redirect(void)
{
    levels = push(levels);
    work();
    work();
}

void some(void)
{
    levels = pop(levels);
}

void ok_line(void)
{
    int lock = levels ? levels->lock : 1;
    if (levels)
        levels->lock = 1;
    redirect();
    work();
    levels = popall(levels);
    if (levels)
        levels->lock = lock;
}

void bad_line(void)
{
    int lock = levels ? levels->lock : 1;
    if (levels)
        levels->lock = 1;
    redirect();
    if (!work())
        levels = popall(levels);
    if (levels)
        levels->lock = lock;
}

int bad_lock(void)
{
    int lock = levels->lock;
    levels->lock = 1;
    if (work())
        return 1;
    levels->lock = lock;
    return 0;
}

int ok_streams(void* p)
{
    int r;
    pBat_ApplyStreams(p);
    r = work();
    pBat_UnApplyStreams(p);
    return r;
}

int bad_streams(void* p)
{
    int r;
    pBat_ApplyStreams(p);
    if ((r = work()) < 0)
        return r;
    pBat_UnApplyStreams(p);
    return r;
}

int ok_term(int fd)
{
    struct termios a, b;
    int r;
    if (tcgetattr(fd, &a))
        return -1;
    b = a;
    b.c_lflag &= ~ECHO;
    tcsetattr(fd, TCSANOW, &b);
    r = work();
    tcsetattr(fd, TCSANOW, &a);
    return r;
}

int bad_term(int fd)
{
    struct termios a;
    int r;
    if (tcgetattr(fd, &a))
        return -1;
    a.c_lflag &= ~ECHO;
    tcsetattr(fd, TCSANOW, &a);
    r = work();
    tcsetattr(fd, TCSANOW, &a);
    return r;
}

int bad_term_early(int fd)
{
    struct termios a, b;
    int r;
    if (tcgetattr(fd, &a))
        return -1;
    b = a;
    b.c_lflag &= ~ECHO;
    tcsetattr(fd, TCSANOW, &b);
    if ((r = work()) == 3)
        return r;
    tcsetattr(fd, TCSANOW, &a);
    return r;
}

struct opts { struct opts* previous; int o1, o2; };
static __thread struct opts* saved;

__attribute__((noinline)) static void save(void)
{
    struct opts* o = malloc(sizeof(*o));
    if (!o)
        abort();
    o->o1 = opt1;
    o->o2 = opt2;
    o->previous = saved;
    saved = o;
    work();
}

void restore(void)
{
    struct opts* o = saved;
    saved = o->previous;
    opt1 = o->o1;
    opt2 = o->o2;
    free(o);
}

void ok_options(int x)
{
    save();
    opt1 = x;
}

void bad_options(int x)
{
    if (x > 3)
        opt1 = x;
    save();
    opt2 = x;
}
