#include "core.hpp"
#include "props.hpp"
#define X(id, fn) {id, fn},
const Prop PROPS[] = {
#include "props.def"
};
#undef X
const size_t NUM_PROPS = sizeof PROPS / sizeof PROPS[0];
