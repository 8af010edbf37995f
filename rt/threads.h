// Cooperative threads (both builds): one runs at a time; at every synchronisation operation the solver may switch to another.
#pragma once
#include "sx.h"
extern "C" { void sx_quiet(int d); }
struct SxQuiet { SxQuiet() { sx_quiet(1); } ~SxQuiet() { sx_quiet(-1); } }; // accesses of the model itself are not checked for races
extern int sx_preemptions;    // switches away from a thread that could go on, in the whole run
extern bool sx_early;         // such a switch may also let a timed wait expire early
extern bool sx_fifo;          // at blocking operations the next thread in turn runs, no other order is tried
extern int sx_thread_fail;    // the creation of the thread of this number (1-based, from now on) fails
extern uint64_t sx_clock_ns;  // virtual time; passes only when every thread waits
void sx_yield();              // scheduling point
bool sx_wait(const void* key, uint64_t deadline_ns = 0); // until woken (true) or, if a deadline is given, until then (false)
void sx_wake(const void* key);
void sx_sleep(uint64_t ns);
int sx_self();
int sx_alive();               // threads that have not ended
