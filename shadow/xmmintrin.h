// Wrapper: the spin-wait hint becomes a scheduling point of the controlled scheduler.
#pragma once
#include_next <xmmintrin.h>
extern "C" void vt_pause(void);
#define _mm_pause() vt_pause()
