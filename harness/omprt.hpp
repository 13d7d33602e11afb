// Controlled OpenMP runtime: replaces libgomp; worker threads are fibers, every runtime entry is a
// scheduling point, and the schedule is a list of deviations from "keep running the same thread".
#pragma once
#include <cstdint>
#include <utility>
#include <vector>
namespace omprt {
typedef std::vector<std::pair<uint32_t, uint8_t>> Devs;
void setThreads(int n);
int getThreads();
void setPolicy(int p);                // base schedule: 0 run to block, 1 round robin, 2 reverse round robin
void arm(Devs const& d);              // start recording a new execution
void disarm();
std::vector<uint8_t> const& points(); // number of enabled threads at each recorded point
uint64_t regions();                   // parallel regions executed so far
uint64_t steps();
bool diverged();                      // a deviation was out of range
// memory-access layer (only in the instrumented build)
extern void (*onSync)(int kind, int tid, int arg);
int currentFiber();                   // -1 outside a team
int teamSize();
bool onOwnStack(void const* p);
void yieldPoint();
enum { REGION_BEGIN, REGION_END, BARRIER, ACQUIRE, RELEASE };
}
