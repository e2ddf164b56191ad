#pragma once
extern const char* g_routine; extern int g_ncalls, g_nargs; extern const void* g_args[32];
extern double g_re, g_im; extern long g_n;
