#include "champ_ops.hpp"
LEVELS(ADD, false, add)
LEVELS(UPD, false, update)
LEVELS(UIE, false, update_if_exists)
LEVELS(SUB, false, erase)
