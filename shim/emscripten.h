#ifndef VERIF_SHIM_EMSCRIPTEN_H
#define VERIF_SHIM_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
