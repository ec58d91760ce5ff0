#pragma once
namespace selftest
{
extern int x;
void lost_update();
void critical();
void reduction();
void barrier();
void dynamic_loop();
void crossed_locks();
void waiting();
void too_polite();
void store_buffering();
void tasks();
void tasks_race();
void taskloop();
}
