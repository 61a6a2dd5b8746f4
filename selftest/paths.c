/* Positive and negative examples the path analyses must tell apart on every run.
   bad_<rule>_*: exactly this rule must fire; ok_*: nothing may fire. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>

int bad_heap_error_path(const char *s, int n)
{
    char *p = malloc(strlen(s) + 1);
    if (!p) return -1;
    strcpy(p, s);
    if (n < 0) return -1;
    free(p);
    return 0;
}

static char *wrap(const char *s) { return strdup(s); }
static void unwrap(char *s) { if (s) free(s); }

int bad_heap_through_helper(const char *s)
{
    char *p = wrap(s);
    if (!p) return -1;
    if (*s == '/') { puts("x"); return 1; }
    unwrap(p);
    return 0;
}

int ok_heap_through_helper(const char *s)
{
    char *p = wrap(s);
    int r = 0;
    if (!p) return -1;
    if (*s == '/') { r = 1; goto end; }
    puts(p);
end:
    unwrap(p);
    return r;
}

int bad_file_loop(char **names)
{
    for (; *names; names++) {
        FILE *f = fopen(*names, "r");
        if (!f) continue;
        if (fgetc(f) == '#') continue;
        fclose(f);
    }
    return 0;
}

int bad_fd_redirect(const char *n)
{
    int fd = open(n, O_RDONLY), sv = dup(0);
    if (fd < 0 || sv < 0) return -1;
    close(fd);
    close(sv);
    return 0;
}

int bad_dir_early(const char *n)
{
    DIR *d = opendir(n);
    if (!d) return -1;
    if (!readdir(d)) return 1;
    closedir(d);
    return 0;
}

int ok_file_cond(const char *n)
{
    FILE *f = NULL;
    int own = 0;
    if (n) { f = fopen(n, "r"); if (!f) return -1; own = 1; } else f = stdin;
    fgetc(f);
    if (own) fclose(f);
    return 0;
}

int bad_uaf_use(char *p)
{
    free(p);
    return p[0];
}

int bad_double_end(const char *s)
{
    char *p = strdup(s);
    if (!p) return -1;
    if (*s) free(p);
    free(p);
    return 0;
}

struct l { struct l *n; int v; };
void ok_list_free(struct l *x)
{
    while (x) { struct l *n = x->n; free(x); x = n; }
}
void bad_uaf_list(struct l *x)
{
    while (x) { free(x); x = x->n; }
}

int bad_uninit_branch(int k)
{
    int r;
    if (k > 0) r = 1; else if (k < 0) r = 2;
    return r;
}
int ok_uninit_flag(int k)
{
    int r, have = 0;
    if (k > 3) { r = 1; have = 1; }
    if (have) return r;
    return 0;
}

int bad_null_fopen(const char *n)
{
    FILE *f = fopen(n, "r");
    int c = fgetc(f);
    fclose(f);
    return c;
}
int bad_null_tested(struct l *x)
{
    if (x == NULL) puts("none");
    return x->v;
}
int ok_null_tested(struct l *x)
{
    if (x == NULL) { puts("none"); return 0; }
    return x->v;
}

struct ent { char *n, *c; };
static int ent_cmp(const void *a, const void *b) { return strcmp(((const struct ent *)a)->n, ((const struct ent *)b)->n); }
char *ent_get(struct ent *e, size_t n, char *name)
{
    struct ent k = {name, NULL}, *r = bsearch(&k, e, n, sizeof(k), ent_cmp);
    if (!r)
        return NULL;
    return r->c;
}
int bad_null_lookup(struct ent *e, size_t n) { return atoi(ent_get(e, n, "LEVEL")); }
int ok_null_lookup(struct ent *e, size_t n) { char *s = ent_get(e, n, "LEVEL"); return s ? atoi(s) : 0; }
int bad_null_after(char *s) { char *e = strrchr(s, '.'); return e[1]; }
int ok_null_after(char *s) { char *e = strrchr(s, '.'); return e ? e[1] : 0; }
int ok_null_twice(char *s) { return strchr(s, '.') ? *strchr(s, '.') : 0; }

struct sums { long a, b; };
void add_sums(struct sums* r, const struct sums* v)
{
    r->a += v->a;
    r->b += v->b;
}
long bad_uninit_sum(int n)
{
    struct sums t, c;
    c.a = n;
    c.b = 2;
    add_sums(&t, &c);
    return t.b;
}
long ok_uninit_sum(int n)
{
    struct sums t = {0, 0}, c;
    c.a = n;
    c.b = 2;
    add_sums(&t, &c);
    return t.b;
}
