// Small programs with known sets of outcomes, compiled like the code under test: they validate the explorer itself.
#include <omp.h>
#include "omp_selftest.hpp"

namespace selftest
{
int x, a[4], b[4], owner[4];
volatile int flag[2];
omp_lock_t l0, l1;

void lost_update()
{
    x = 0;
    #pragma omp parallel
    { int v = *(volatile int*)&x; *(volatile int*)&x = v + 1; }
}
void critical()
{
    x = 0;
    #pragma omp parallel
    {
        #pragma omp critical
        { int v = *(volatile int*)&x; *(volatile int*)&x = v + 1; }
    }
}
void reduction()
{
    int s = 0;
    #pragma omp parallel for reduction(+:s)
    for (int i = 0; i < 5; ++i) s += i + 1;
    x = s;
}
void barrier()
{
    x = 0;
    for (int i = 0; i < 4; ++i) a[i] = b[i] = 0;
    #pragma omp parallel
    {
        int t = omp_get_thread_num(), n = omp_get_num_threads();
        a[t] = 1;
        #pragma omp barrier
        int s = 0;
        for (int i = 0; i < n; ++i) s += a[i];
        b[t] = s;
    }
    for (int i = 0; i < 4; ++i) x = x * 10 + b[i];
}
void dynamic_loop()
{
    x = 0;
    #pragma omp parallel for schedule(dynamic)
    for (int i = 0; i < 3; ++i) owner[i] = omp_get_thread_num();
    for (int i = 0; i < 3; ++i) x = x * 10 + owner[i];
}
void crossed_locks()
{
    x = 0;
    omp_init_lock(&l0);
    omp_init_lock(&l1);
    #pragma omp parallel
    {
        omp_lock_t* p = omp_get_thread_num() ? &l1 : &l0;
        omp_lock_t* q = omp_get_thread_num() ? &l0 : &l1;
        omp_set_lock(p); omp_set_lock(q);
        omp_unset_lock(q); omp_unset_lock(p);
    }
}
void waiting()
{
    x = 0;
    flag[0] = 0;
    #pragma omp parallel
    {
        if (omp_get_thread_num()) flag[0] = 1;
        else while (!flag[0]) {}
    }
}
void too_polite()
{
    x = 0;
    flag[0] = flag[1] = 0;
    #pragma omp parallel
    {
        int t = omp_get_thread_num();
        for (;;)
        {
            flag[t] = 1;
            if (!flag[1 - t]) break;
            flag[t] = 0;
        }
        flag[t] = 0;
    }
}
void store_buffering()
{
    flag[0] = flag[1] = 0;
    #pragma omp parallel
    {
        int t = omp_get_thread_num();
        flag[t] = 1;
        b[t] = flag[1 - t];
    }
    x = b[0] * 10 + b[1];
}
void tasks()
{
    x = 0;
    #pragma omp parallel
    #pragma omp single
    for (int i = 0; i < 2; ++i)
    {
        #pragma omp task firstprivate(i)
        owner[i] = omp_get_thread_num();
    }
    x = owner[0] * 10 + owner[1];
}
void tasks_race()
{
    x = 0;
    #pragma omp parallel
    #pragma omp single
    {
        for (int i = 0; i < 2; ++i)
        {
            #pragma omp task
            { int v = *(volatile int*)&x; *(volatile int*)&x = v + 1; }
        }
        #pragma omp taskwait
        x *= 10;
    }
}
void taskloop()
{
    x = 0;
    #pragma omp parallel
    #pragma omp single
    #pragma omp taskloop
    for (int i = 0; i < 3; ++i)
    {
        #pragma omp atomic
        x += i + 1;
    }
}
}
