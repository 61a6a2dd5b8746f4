#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
char tab[8]; char *names[4];
int bad_index(int i) { if (i < 0 || i > 8) return 0; return tab[i]; }
int ok_index(int i) { if (i < 0 || i >= 8) return 0; return tab[i]; }
void bad_fill(const char *s) { char b[16]; int i = 0; while (*s) b[i++] = *s++; puts(b); }
void ok_fill(const char *s) { char b[16]; int i = 0; while (*s && i < 15) b[i++] = *s++; b[i] = 0; puts(b); }
void bad_fill2(const char *s) { char b[16]; int i = 0; while (*s && i < 16) b[i++] = *s++; b[i] = 0; puts(b); }
void bad_cpy(const char *s) { char b[16]; strcpy(b, s); puts(b); }
void ok_cpy(const char *s) { char b[16]; if (strlen(s) < 16) strcpy(b, s); else b[0] = 0; puts(b); }
void bad_cat(const char *s) { char b[16]; if (strlen(s) > 10) return; strcpy(b, s); strcat(b, ".bat12"); puts(b); }
void ok_cat(const char *s) { char b[17]; if (strlen(s) > 10) return; strcpy(b, s); strcat(b, ".bat12"); puts(b); }
void bad_ncat(const char *s, const char *t) { char b[16]; strncpy(b, s, 16); b[15] = 0; strncat(b, t, 16 - strlen(b)); puts(b); }
void ok_ncat(const char *s, const char *t) { char b[16]; strncpy(b, s, 16); b[15] = 0; strncat(b, t, 16 - strlen(b) - 1); puts(b); }
void bad_size(const char *s) { char b[16]; snprintf(b, 17, "%s", s); puts(b); }
static void helper(char *b, int n, const char *s) { snprintf(b, n, "%s", s); }
void bad_caller(const char *s) { char b[16]; helper(b, 32, s); puts(b); }
void ok_caller(const char *s) { char b[32]; helper(b, 32, s); puts(b); }
char *bad_dup(const char *s) { char *p = malloc(strlen(s)); if (p) strcpy(p, s); return p; }
char *ok_dup(const char *s) { char *p = malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
char *bad_join(const char *a, const char *b) { char *p = malloc(strlen(a) + strlen(b) + 1); if (p) { strcpy(p, a); strcat(p, "/"); strcat(p, b); } return p; }
char *ok_join(const char *a, const char *b) { char *p = malloc(strlen(a) + strlen(b) + 2); if (p) { strcpy(p, a); strcat(p, "/"); strcat(p, b); } return p; }
char name[64];
void bad_end(const char *s) { strncpy(name, s, sizeof(name)); }
void ok_end(const char *s) { strncpy(name, s, sizeof(name)); name[sizeof(name) - 1] = 0; }
int bad_link(char *b, int n) { if (readlink("/proc/self/exe", b, n) == -1) return -1; return 0; }
int ok_link(char *b, int n) { int k = readlink("/proc/self/exe", b, n - 1); if (k == -1) return -1; b[k] = 0; return 0; }
void bad_fmt(int x) { char b[8]; sprintf(b, "%d", x); puts(b); }
void ok_fmt(int x) { char b[12]; sprintf(b, "%d", x); puts(b); }
void bad_read(int fd) { char b[16]; int n = read(fd, b, 16); if (n < 0) return; b[n] = 0; puts(b); }
void ok_read(int fd) { char b[17]; int n = read(fd, b, 16); if (n < 0) return; b[n] = 0; puts(b); }
struct rec { char key[4]; char val[8]; };
void bad_field(struct rec *r, const char *s) { snprintf(r->key, sizeof(*r), "%s", s); }
void ok_field(struct rec *r, const char *s) { snprintf(r->val, sizeof(r->val), "%s", s); }
typedef struct ESTR { char *str; int len; } ESTR;
static int roundup(unsigned long s) { unsigned long r = 256; while (r < s) r <<= 1; return r; }
int ok_put(ESTR *e, const char *s) { unsigned long n = roundup(strlen(s) + 1); char *p = e->str; if (e->len < n) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n; } strcpy(p, s); return 0; }
int bad_put(ESTR *e, const char *s) { unsigned long n = roundup(strlen(s)); char *p = e->str; if (e->len < n) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n; } strcpy(p, s); return 0; }
int bad_put2(ESTR *e, const char *s) { unsigned long n = roundup(strlen(s) + 1); char *p = e->str; if (n - e->len > 256) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n; } strcpy(p, s); return 0; }
int bad_put3(ESTR *e, const char *s) { unsigned long n = roundup(strlen(s) + 1); char *p = e->str; if (e->len < n) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n + 1; } strcpy(p, s); return 0; }
int bad_put4(ESTR *e, const char *s) { unsigned long n = roundup(strlen(s) + 1); char *p = e->str; if (e->len < n) { e->len = n; if (!(p = realloc(p, n))) return -1; e->str = p; } strcpy(p, s); return 0; }
int ok_add(ESTR *e, const char *s) { int n = roundup(strlen(e->str) + strlen(s) + 1); char *p = e->str; if (e->len < n) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n; } strcat(p, s); return 0; }
int bad_add(ESTR *e, const char *s) { int n = roundup(strlen(s) + 1); char *p = e->str; if (e->len < n) { if (!(p = realloc(p, n))) return -1; e->str = p; e->len = n; } strcat(p, s); return 0; }
int ok_grow(ESTR *e, const char *s) { unsigned long n = strlen(s) + 1; if (n > e->len) { e->len *= n / e->len + 1; if (!(e->str = realloc(e->str, e->len))) exit(1); } memcpy(e->str, s, n); return 0; }
static void put8(int i, char c) { tab[i] = c; }
void ok_put8(const char *s) { int i; for (i = 0; s[i] && i < 8; i++) put8(i, s[i]); }
void bad_put8(const char *s) { int i; for (i = 0; s[i] && i <= 8; i++) put8(i, s[i]); }
void bad_put9(const char *s) { int i; for (i = 0; s[i]; i++) put8(i, s[i]); }
void bad_last(char *s) { char *q = s + strlen(s) - 1; if (*q == '"') *q = 0; }
void ok_last(char *s) { if (!*s) return; char *q = s + strlen(s) - 1; if (*q == '"') *q = 0; }
void ok_last2(char *s) { unsigned long n = strlen(s); if (n && s[n - 1] == '\n') s[n - 1] = 0; }
void ok_while(const char *s) { char b[16]; int i = 0; for (;;) { if (!*s || i >= 15) break; b[i] = *s; i++; s++; } b[i] = 0; puts(b); }
void ok_ptrend(const char *s) { char b[16], *p = b, *e = b + 15; while (*s && p < e) *p++ = *s++; *p = 0; puts(b); }
int ok_quoted(ESTR *e, char *t) { char *s = e->str, *q = s + strlen(s) - 1; if (*s && *q == '"') { *q = 0; t++; } return strcmp(s, t); }
int bad_quoted(ESTR *e, char *t) { char *s = e->str, *q = s + strlen(s) - 1; if (*q == '"') { *q = 0; t++; } return strcmp(s, t); }
