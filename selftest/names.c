#include <stdio.h>
#include <string.h>
#include <stdlib.h>

typedef struct ESTR { char *str; size_t len; } ESTR;
ESTR *pBat_EsInit_Cached(void);
char *pBat_GetNextParameterEs(char *line, ESTR *es);
char *pBat_EsToFullPath(ESTR *es);
void pBat_EsCpy(ESTR *es, const char *s);
void pBat_EsCat(ESTR *es, const char *s);
void pBat_MakeFullPath(char *full, const char *p, size_t n);
int remove(const char *);
char *lpCurrentDir;

int bad_cmd_plain(char *line)
{
    ESTR *e = pBat_EsInit_Cached();
    if (pBat_GetNextParameterEs(line, e))
        return remove(e->str);
    return 0;
}

int bad_cmd_line(char *line)
{
    return remove(strchr(line, ' '));
}

int ok_cmd_plain(char *line)
{
    ESTR *e = pBat_EsInit_Cached();
    if (pBat_GetNextParameterEs(line, e))
        return remove(pBat_EsToFullPath(e));
    return 0;
}

int ok_cmd_later(char *line)
{
    ESTR *e = pBat_EsInit_Cached();
    if (pBat_GetNextParameterEs(line, e)) {
        pBat_EsToFullPath(e);
        puts("x");
        return remove(e->str);
    }
    return 0;
}

int bad_cmd_one_branch(char *line, int n)
{
    ESTR *e = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    if (n)
        pBat_EsToFullPath(e);
    return remove(e->str);
}

static int del(char *name)
{
    return remove(name);
}

int bad_cmd_helper(char *line)
{
    ESTR *e = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    return del(e->str);
}

int ok_cmd_buffer(char *line)
{
    char b[100];
    ESTR *e = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    pBat_MakeFullPath(b, e->str, sizeof(b));
    return del(b);
}

int bad_cmd_buffer(char *line)
{
    char b[100];
    ESTR *e = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    snprintf(b, sizeof(b), "%s.bak", e->str);
    return del(b);
}

int ok_cmd_prefix(char *line)
{
    char b[100];
    ESTR *e = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    snprintf(b, sizeof(b), "%s/%s.bak", lpCurrentDir, e->str);
    return del(b);
}

int bad_cmd_literal(void)
{
    return del("out.txt");
}

int bad_cmd_copy(char *line)
{
    ESTR *e = pBat_EsInit_Cached(), *c = pBat_EsInit_Cached();
    pBat_GetNextParameterEs(line, e);
    pBat_EsCpy(c, e->str);
    pBat_EsToFullPath(e);
    return del(c->str);
}

int ok_cmd_tested(char *line)
{
    char b[100];
    ESTR *e = pBat_EsInit_Cached();
    char *s;
    pBat_GetNextParameterEs(line, e);
    s = e->str;
    if (*s != '/') {
        pBat_MakeFullPath(b, s, sizeof(b));
        s = b;
    }
    return remove(s);
}
