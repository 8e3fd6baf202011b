#pragma once
#ifdef VF_CPU
// Simulated processor feature level: the library's detection function becomes an
// overload that is never chosen; its call resolves to ours.
struct vf_tag {};
static inline int vf_cpuid(vf_tag) { return VF_CPU; }
#define get_cpuid() vf_cpuid(vf_tag())
#endif
