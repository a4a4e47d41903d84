#include "h.h"
#define ROW(id) { #id, gen_##id, nullptr, exec_##id, names_##id, nullptr, nullptr, false }
Scenario g_scenarios[] = { ROW(C11), ROW(C12), ROW(C13), ROW(C14), ROW(C15), ROW(C16), ROW(C17), ROW(C18), ROW(C19), ROW(C25), ROW(C22), ROW(C24), ROW(C26), ROW(C21), ROW(C23), ROW(C27), ROW(C29), ROW(C30), ROW(C31), ROW(C20), ROW(C32), ROW(C33) };
int g_nscenarios = sizeof g_scenarios / sizeof *g_scenarios;
int main(int argc, char** argv) { return sim_main(argc, argv); }
