// Options of the monitors: stop at the first report, through a signal which the runtime reports as a failure of the running case.
extern "C" __attribute__((no_sanitize("undefined"), used)) const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0:halt_on_error=1"; }
extern "C" __attribute__((no_sanitize("undefined", "address"), used)) const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=0:handle_abort=0"; }
