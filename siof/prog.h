// Interface between the units of the simulated program and its driver.
#pragma once
struct Rec { double v[24]; int n; void put(double d) { if (n < 24) v[n++] = d; } };
typedef void (*ProbeFn)(Rec&);
struct Probe { const char* name; ProbeFn f; int nwant; double want[20]; }; // nwant: literal values; -1: a call, -2: a constant without literal values
struct Unit { const Probe* p; int n; };
// called by static objects of a unit: 0 first object, 1 last object, 2 static member of a template; 3 + n: destructor of that object
void sim_hook(int unit, int phase);
enum { NUNIT = 5, NPHASE = 6 };
