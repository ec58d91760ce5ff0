#pragma once
#include <cuda_runtime.h>
namespace cooperative_groups
{
#ifdef __CUDA_ARCH__
struct grid_group { void sync() const { fibcu_sync_grid(); } };
struct thread_block { void sync() const { fibcu_sync_block(); } };
inline grid_group this_grid() { return grid_group(); }
inline thread_block this_thread_block() { return thread_block(); }
inline void sync(const grid_group& g) { g.sync(); }
inline void sync(const thread_block& g) { g.sync(); }
#else
struct grid_group { void sync() const {} };
struct thread_block { void sync() const {} };
inline grid_group this_grid() { return grid_group(); }
inline thread_block this_thread_block() { return thread_block(); }
inline void sync(const grid_group&) {}
inline void sync(const thread_block&) {}
#endif
}
