#pragma once
#define X(id, fn) void fn(Ctx&);
#include "props.def"
#undef X
