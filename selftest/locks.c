#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

pthread_mutex_t st_a, st_b, st_c;
int st_ok_locked, st_bad_plain, st_bad_forgot, st_ok_once;
__thread int st_ok_tls;

/* some exits keep the mutex */
int bad_lock_early_return(int x)
{
    pthread_mutex_lock(&st_a);
    if (x < 0)
        return -1;
    pthread_mutex_unlock(&st_a);
    return 0;
}

int bad_lock_double(int x)
{
    pthread_mutex_lock(&st_a);
    if (x)
        pthread_mutex_lock(&st_a);
    pthread_mutex_unlock(&st_a);
    return 0;
}

static int st_takes(void)
{
    pthread_mutex_lock(&st_a);
    st_ok_locked++;
    pthread_mutex_unlock(&st_a);
    return st_ok_tls++;
}

int bad_lock_across(int x)
{
    int r = 0;
    pthread_mutex_lock(&st_a);
    if (x)
        r = st_takes();
    pthread_mutex_unlock(&st_a);
    return r;
}

void bad_order_ab(void)
{
    pthread_mutex_lock(&st_b);
    pthread_mutex_lock(&st_c);
    pthread_mutex_unlock(&st_c);
    pthread_mutex_unlock(&st_b);
}

void bad_order_ba(void)
{
    pthread_mutex_lock(&st_c);
    pthread_mutex_lock(&st_b);
    pthread_mutex_unlock(&st_b);
    pthread_mutex_unlock(&st_c);
}

/* the same flag decides twice */
int ok_lock_correlated(int x)
{
    if (x)
        pthread_mutex_lock(&st_a);
    st_ok_tls++;
    if (x)
        pthread_mutex_unlock(&st_a);
    return 0;
}

static void st_enter(void) { pthread_mutex_lock(&st_a); }
static void st_leave(void) { pthread_mutex_unlock(&st_a); }

int ok_lock_wrapped(int x)
{
    st_enter();
    if (x)
        goto out;
    st_ok_locked += x;
out:
    st_leave();
    return 0;
}

int bad_static(void)
{
    static int st_n = 0;
    return st_n++;
}

void *st_thread(void *a)
{
    char *t;
    st_bad_plain++;
    st_takes();
    bad_static();
    pthread_mutex_lock(&st_b);
    st_bad_forgot++;
    pthread_mutex_unlock(&st_b);
    if (a)
        st_bad_forgot--;
    t = strtok(a, ",");
    if (t)
        puts(t);
    printf("%d\n", st_ok_once);
    ok_lock_wrapped(bad_lock_early_return(0) + bad_lock_double(0) + bad_lock_across(0) + ok_lock_correlated(0));
    bad_order_ab();
    bad_order_ba();
    return NULL;
}

static int st_go(void)
{
    pthread_t t;
    return pthread_create(&t, NULL, st_thread, NULL);
}

int main(void)
{
    st_ok_once = 3;
    return st_go();
}
