#include "h_host.inc"
void host_run_real(Rng& r, Case& c) { hostRun<RealE>(r, c, false); }
void host_fault_real(Rng& r, Case& c) { hostRun<RealE>(r, c, true); }
void host_history_real(Rng& r, Case& c) { hostHistory<RealE>(r, c); }
void host_operators_real(Rng& r, Case& c) { hostOperators<RealE>(r, c); }
