#include "h_host.inc"
void host_run_perm(Rng& r, Case& c) { hostRun<PermE>(r, c, false); }
void host_fault_perm(Rng& r, Case& c) { hostRun<PermE>(r, c, true); }
void host_history_perm(Rng& r, Case& c) { hostHistory<PermE>(r, c); }
void host_operators_perm(Rng& r, Case& c) { hostOperators<PermE>(r, c); }
