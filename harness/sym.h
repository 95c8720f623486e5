// Harness interface: under amisym these are intrinsics; natively they are provided by replay.cpp.
#pragma once
extern "C" {
int sym_int(const char* name, int lo, int hi);       // symbolic integer in [lo,hi]
double sym_real(const char* name);                   // symbolic exact real
double sym_pos(const char* name);                    // symbolic positive real
void sym_assume(bool c);
void sym_check(bool c, const char* what);
void sym_check_eq(double a, double b, const char* what); // equality of exact reals
int sym_param(const char* name, int def);            // bound chosen by the driver
void sym_observe(const char* name, double v);        // compared with the native run
void sym_reach(const char* tag);
int sym_split(int v);                                // fork until the value is concrete
bool sym_split_bool(bool v);
void sym_nonzero(double v);                          // definedness assumption v != 0
void harness();
}
