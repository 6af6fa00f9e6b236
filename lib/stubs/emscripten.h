// Stand-in for the (absent) Emscripten SDK.
#pragma once
#define EMSCRIPTEN_KEEPALIVE
