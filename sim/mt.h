// Simulated threads: tasks are fibers switched only by the plan, with a happens-before race detector fed by the
// compiler's memory-access instrumentation (the instrumented unit links this runtime instead of a sanitizer's).
#ifndef SIM_MT_H
#define SIM_MT_H
#include "core.h"
namespace sim {
const int MT_TASKS = 3;
struct MtJob { virtual void run(int task, int job) = 0; virtual ~MtJob() {} };
void mt_start(MtJob* body);              // a run begins: no task is running
bool mt_busy(int task);                  // suspended in the middle of a job
void mt_arm(int task, u32 steps);        // idle task: suspend its next job after that many steps
void mt_job(int task, int job, u32 label);          // run the job (to completion unless armed); the task must be idle
void mt_resume(int task, u32 steps);     // let a suspended task go on, for that many steps or (0) to the end of its job
void mt_stop();
u64 mt_accesses();
u64 mt_trace();                          // which operations were suspended in which order
void mt_region_reset(const void* p, std::size_t n);
} // namespace sim
#endif
