/* Stand-in for the Emscripten header: only what cpuinfo uses. */
#ifndef VF_EMSCRIPTEN_THREADING_H
#define VF_EMSCRIPTEN_THREADING_H
int emscripten_num_logical_cores(void);
#endif
