#pragma once
#include <cstddef>
#include <cstdint>
namespace sim { namespace mem {
enum { heap = 0, configured = 1, explicit_resource = 2 };
void*    obtain(size_t size, int source, bool track);
void     give_back(void* p, size_t size, bool sized, int source);
bool     find(const void* p, int& source, size_t& size); //!< a live block starting at p?
uint64_t outstanding_of(int source);
uint64_t allocs_of(int source); //!< blocks obtained since the start of the run
void*    explicit_mr();  //!< std::pmr::memory_resource* (pmr configuration only)
int      sysex_source(); //!< where sysex data has to come from in this configuration
}} // namespace sim::mem
