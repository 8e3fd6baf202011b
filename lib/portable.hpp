// Included before everything else: the code under test is compiled as on a machine it has no special code for.
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <ucontext.h>
#undef __x86_64__
#undef __i386__
