// What the threads of scenario "threads" do. Implemented in tasks.cpp, which is compiled with memory-access
// instrumentation together with the library.
#pragma once
enum TaskOp { T_READ, T_FMT, T_TICK, T_READINGS, T_DAT, T_MONTH, T_DELTA, T_SHARED, T_CAST, T_ORDER, T_NEW, T_IVAL, T_TYPES, NTASK };
static const char* const TASK_NAME[] = {"READ", "FMT", "TICK", "READINGS", "DAT", "MONTH", "DELTA", "SHARED", "CAST", "ORDER", "NEW", "IVAL", "TYPES"};
void task_setup();                                     // before the threads start
void task_begin(int thread, long long mjd, long long us);  // (re)initialise the thread's own clocks
void task_run(int op, const long long* a, const char* text, char* out);  // a[0] is the thread; out has 512 bytes
