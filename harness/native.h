#pragma once
extern "C" void vp_assume_failed();
#define __builtin_assume(x) ((x) ? (void)0 : ::vp_assume_failed())
