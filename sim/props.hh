#pragma once
#include <cstddef>
struct PropDef {
    char const *id;
    void (*fn)();
};
extern PropDef const props[];
extern size_t const num_props;
