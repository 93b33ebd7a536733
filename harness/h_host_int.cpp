#include "h_host.inc"
void host_run_int(Rng& r, Case& c) { hostRun<IntE>(r, c, false); }
void host_fault_int(Rng& r, Case& c) { hostRun<IntE>(r, c, true); }
void host_history_int(Rng& r, Case& c) { hostHistory<IntE>(r, c); }
void host_operators_int(Rng& r, Case& c) { hostOperators<IntE>(r, c); }
