#include "champ_ops.hpp"
LEVELS(ADD, true, add_mut)
LEVELS(UPD, true, update_mut)
LEVELS(UIE, true, update_if_exists_mut)
LEVELS(SUB, true, erase_mut)
