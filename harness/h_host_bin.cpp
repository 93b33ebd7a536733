#include "h_host.inc"
void host_run_bin(Rng& r, Case& c) { hostRun<BinE>(r, c, false); }
void host_fault_bin(Rng& r, Case& c) { hostRun<BinE>(r, c, true); }
void host_history_bin(Rng& r, Case& c) { hostHistory<BinE>(r, c); }
void host_operators_bin(Rng& r, Case& c) { hostOperators<BinE>(r, c); }
