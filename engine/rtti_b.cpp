#include "rtti.hpp"
static const Type tab[NT] = { TYPES };
const Type* typesB() { return tab; }
M* machineB() { return new M; }
